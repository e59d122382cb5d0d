#!/usr/bin/env python3
"""tools/seed.py new ID PROPERTY FILE OLD NEW NEEDS BREAKS  (with demo.c on stdin): makes seeded/ID
   tools/seed.py test ID: applies it, builds, tests, runs the demo and the property's check, undoes it."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def new(i, prop, edits, needs, breaks, demo, sh_text=None):
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, nw in edits:
        p = "/repo/" + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old))
        open(p, "w").write(t.replace(old, nw))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    clean()
    open(os.path.join(d, "demo.c"), "w").write(demo)
    if sh_text: open(os.path.join(d, "demo.sh"), "w").write(sh_text)
    else: shutil.copy(os.path.join(V, "tools/demo_template.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def demo(i, quick=False):
    r = sh("bash %s/%s/demo.sh" % (S, i), cwd="/repo")
    return r.returncode, r.stdout[-300:]
def test(i, full=True):
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    clean()
    a = demo(i)
    r = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
    assert r.returncode == 0, r.stdout
    try:
        b = demo(i)
        t = "-"
        if full:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = base["stable"]
            got = set(json.load(open("/tmp/seed_out.json"))["passed"])
            t = len([x for x in base if x not in got])
        c = sh("cd %s && python3 check.py %s" % (V, m["property"]))
    finally:
        clean()
    v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
    print(i, m["property"], "| demo clean", a[0], "patched", b[0], "| missing tests", t, "| check", c.returncode, v[:2], flush=True)
    if a[0] != 0: print(a[1])
    if b[0] == 0: print("   demo does not fail:", b[1])
    if not v: print("   ", c.stdout[-600:])
if __name__ == "__main__":
    for i in sys.argv[1:]:
        if i != "-q": test(i, "-q" not in sys.argv)
