#!/usr/bin/env python3
"""Runs units by name: tools/u.py [-b] [-t] NAME..."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vp"))
import concurrent.futures as cf
from units import U
import run
mode = "bounded" if "-b" in sys.argv else "proof"
names = [a for a in sys.argv[1:] if not a.startswith("-")]
pool = run.Pool()
for a in sys.argv:
    if a.startswith("--to="):
        for n in names:
            U[n].timeout = int(a[5:])
with cf.ThreadPoolExecutor(16) as ex:
    fs = {n: ex.submit(pool.run, U[n], mode, "-t" in sys.argv) for n in names}
    for n in names:
        r = fs[n].result()
        print("%-20s %s total=%d failed=%d reach=%d missing=%s %.1fs (solver %.1f) %s" % (n, r.status, r.total, len(r.failed), r.reach_ok, r.reach_missing, r.secs, r.solver_secs, r.detail[:1500]))
        for f in r.failed[:25]:
            print("   ", f)
        open("/tmp/u.%s.log" % n, "w").write(r.log)
