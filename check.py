#!/usr/bin/env python3-vt
"""python3-vt check.py <property id> [--thorough] [-v]   (see DESIGN.md)"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vc import prop
if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module('contracts.' + pid)
    rc = 1
    try:
        rc = prop.main(m.PROPERTY)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
