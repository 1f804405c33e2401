import importlib, sys
from mon import load  # noqa: F401  (imports the code under test from /repo/lib)
from mon import core

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit("usage: check Cnn [--tier T] [--seed N] [--replay F]")
    sys.exit(core.main(importlib.import_module("mon.checks." + sys.argv[1].lower()), sys.argv[2:]))
