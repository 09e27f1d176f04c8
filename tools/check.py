#!/usr/bin/env python3
"""check.py <property>...: decides the properties for the current tree of /repo by static analysis."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from aoa import registry
from aoa.report import Report


def main(props):
    rc = 0
    for p in props:
        try:
            r = registry.run(p)
        except Exception as e:
            traceback.print_exc()
            print('%s: the analysis could not be carried out: %s' % (p, e))
            r = 2
        rc = max(rc, r) if rc != 1 and r != 1 else 1
    return rc


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a:
        a = registry.all_props()
    sys.exit(main(a))
