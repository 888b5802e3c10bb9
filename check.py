#!/usr/bin/env python3
"""python3 check.py PROPERTY [--replay FILE]: decides one property against /repo as it is now."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vt import build, runner  # noqa: E402

if __name__ == "__main__":
    try:
        sys.exit(runner.main())
    except build.BuildError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
