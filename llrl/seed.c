/* Stand-in for getrandom, so that the hash seeds of a run are chosen by the check. */
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  const char *s = getenv("VERIF_HASH_SEED");
  unsigned long long v = s ? strtoull(s, 0, 10) : 1;
  memset(buf, 0, n);
  memcpy(buf, &v, n < sizeof v ? n : sizeof v);
  return (ssize_t)n;
}
