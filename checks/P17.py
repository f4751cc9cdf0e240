"""P17: arrays, vectors, strings and texts against SeqTrace.tla / Utf8.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from seqcheck import *

if __name__ == "__main__":
    main("P17", run_seq)
