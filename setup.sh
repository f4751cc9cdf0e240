#!/bin/sh
# Builds what the checks use (they rebuild it incrementally themselves).
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.argv = ["setup"]
sys.path.insert(0, "lib")
from vlib import *
Check("setup").build()
P
