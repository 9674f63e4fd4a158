#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
def main():
    pid = sys.argv[1]
    from sa.repo import AnalysisError
    import importlib
    try:
        m = importlib.import_module("checks." + pid.lower())
        return m.main(sys.argv[2:])
    except AnalysisError as e:
        print("analysis error: %s" % e, file=sys.stderr)
        return 3
sys.exit(main())
