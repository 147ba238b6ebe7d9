#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only label]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import driver, build
def main():
    a = sys.argv[1:]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; pids = []
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--only": only = a.pop(0)
        elif x == "--setup": build.engine(); d = build.prepare(); build.native_lib(d); return 0
        else: pids.append(x)
    rc = 0
    for p in pids: rc = max(rc, driver.check(p, tier, only))
    return rc
try: sys.exit(main())
except build.BuildError as e: print("BUILD-ERROR", str(e)[-3000:]); sys.exit(2)
