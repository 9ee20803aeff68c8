#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's current tree by static analysis.  Exit 0 / 1 (VIOLATION) / 2 (no answer)."""
import importlib, os, sys, traceback
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report
if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        m = importlib.import_module("rules." + pid)
        report.main(pid, m.run)
    except SystemExit:
        raise
    except BaseException:
        sys.stderr.write(traceback.format_exc()[-3000:])
        sys.exit(2)
    sys.exit(2)
