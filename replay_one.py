#!/usr/bin/env python3
"""replay.py <property id> <file>: replays one failing input on /repo's current tree."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp"))
import replay, props
rc = 0
for d in props.PROPS[sys.argv[1]]["drivers"]:
    t = tempfile.mkdtemp(prefix="vpr-")
    try:
        bad, out = replay.confirm(replay.build(d, t), sys.argv[2])
        print(out[-6000:])
        rc |= int(bad)
    finally:
        shutil.rmtree(t, ignore_errors=True)
sys.exit(rc)
