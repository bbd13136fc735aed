#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo. Exit 0 held, 1 violated, 2 no verdict."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    prop = sys.argv[1]
    try:
        return importlib.import_module("c_" + prop).run()
    except vlib.CheckError as e:
        print("NO VERDICT for %s: %s" % (prop, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
