"""P16: persistent maps against PersMap.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from mapcheck import *

if __name__ == "__main__":
    main("P16", lambda c: run(c, persistent=True))
