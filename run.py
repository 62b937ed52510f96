#!/usr/bin/env python3
"""run.py <property-id>...: decide properties of the current tree of /repo (see DESIGN.md)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lpp import reg, report

ps = reg.props()
ids = sys.argv[1:] or sorted(ps)
rc = 0
for i in ids:
    p = ps[i]
    r = report.main(i, p.run, p.trusted, p.technique + ". " + p.note)
    rc = max(rc, r) if rc != 1 else 1
    if r == 1:
        rc = 1
sys.exit(rc)
