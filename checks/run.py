#!/usr/bin/env python3
"""run.py ID: decide one property on /repo's current tree. Exit 0 = held on everything explored, 1 = violation."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, vp
pid = sys.argv[1]
p = props.P[pid]
thorough = os.environ.get("VERIF_TIER") == "thorough"
units = p["units"](thorough)
sys.exit(vp.check(pid, units, p["bounds"], p["assume"]))
