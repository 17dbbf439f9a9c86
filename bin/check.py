#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]   |   check.py replay FILE   |   check.py setup"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import CheckError
import cppcheck


def main():
    what = sys.argv[1]
    try:
        if what == "setup":
            import setup_all
            return setup_all.run()
        if what == "replay":
            first = open(sys.argv[2]).readline()
            if first.startswith("hjsim"):
                return cppcheck.replay(sys.argv[2])
            import pycheck
            return pycheck.replay(sys.argv[2])
        if what in cppcheck.BUDGET:
            return cppcheck.check(what)
        import pycheck
        return pycheck.check(what)
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2


sys.exit(main())
