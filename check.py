#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

1. Proof: every unit of the property (a real function with its contract) is extracted from
   /repo, and cbmc discharges all obligations, for all inputs and all iterations.
2. A fixed number of concrete replays of the property's contract on the real library
   (sanitized build): a bounded stand-in for what the contracts do not cover.
3. If an obligation fails: a longer search for a failing input; a violation is reported with
   it, or with the failed obligation and the verifier's output if none is found.
4. If a unit cannot be built any more (the code has another shape): its bounded variant over
   the public interface and the longer search stand in for it; nothing is counted as proved.
"""
import concurrent.futures as cf
import json, os, shutil, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vp"))
import run as vprun
import replay
import props

T0 = time.time()


def main(pid):
    P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vpc-")
    try:
        return decide(pid, P, seed, tier, evdir, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def log(*a):
    print(*a, flush=True)


def decide(pid, P, seed, tier, evdir, scratch):
    units = props.units_of(P)
    pool = vprun.Pool()
    drivers = list(P.get("drivers", []))
    exes, builderr = {}, {}

    def build(k):
        try:
            exes[k] = replay.build(drivers[k], os.path.join(scratch, "d%d" % k))
        except replay.BuildError as e:
            builderr[k] = str(e)

    mult = 12 if tier == "thorough" else 1
    base = {}

    def baseline(k):
        build(k)
        if k in exes:
            d = drivers[k]
            base[k] = replay.search(exes[k], os.path.join(scratch, "d%d" % k, "base"), seed,
                                    d.runs * mult, d.secs * mult if tier == "thorough" else d.secs,
                                    d.maxlen, procs=2 if len(drivers) == 1 else 1)

    with cf.ThreadPoolExecutor(max_workers=32) as ex:
        fb = [ex.submit(baseline, k) for k in range(len(drivers))]
        fu = {u.name: ex.submit(pool.run, u, "proof") for u in units}
        for f in fb:
            f.result()
        res = {}
        for u in units:
            r = res[u.name] = fu[u.name].result()
            log("unit %-26s %-8s %5d obligations %6.1f s %s" %
                (u.name, r.status, r.total, r.secs, r.detail[:300].replace("\n", " ")))

    failed = [u for u in units if res[u.name].status == "failed"]
    stuck = [u for u in units if res[u.name].status in ("error", "timeout")]
    found = []          # (driver index, artifact, summary, log)
    cases = nontriv = 0

    def collect(k, out):
        nonlocal cases, nontriv
        c, n, arts = out
        cases += c
        nontriv += n
        for a, lg in arts:
            bad, o = replay.confirm(exes[k], a)
            if bad:
                found.append((k, a, replay.summary(o), o))
                return

    for k, out in base.items():
        collect(k, out)
    bounded = {}
    if (failed or stuck) and not found:
        t = 300 if tier == "thorough" else 100
        with cf.ThreadPoolExecutor(max_workers=32) as ex:
            fs = {k: ex.submit(replay.search, exes[k], os.path.join(scratch, "d%d" % k, "deep"),
                               seed + 7, 2000000000, t, drivers[k].maxlen, max(2, 6 // max(1, len(exes))))
                  for k in exes}
            fbd = {u.name: ex.submit(pool.run, u, "bounded", True) for u in stuck if u.bounded}
            for k, f in fs.items():
                collect(k, f.result())
            for n, f in fbd.items():
                bounded[n] = f.result()
                log("unit %-26s bounded: %s %s" % (n, bounded[n].status, bounded[n].detail[:200]))

    violation = None
    if found:
        k, art, summ, out = found[0]
        rp = os.path.join(evdir, "%s.replay" % pid)
        shutil.copy(art, rp)
        with open(rp + ".txt", "w") as f:
            f.write("property %s\nwhat: %s\nreplay: python3 /verif/replay_one.py %s %s\n\n" % (pid, summ, pid, rp))
            for u in failed:
                f.write("failed obligations of unit %s:\n" % u.name)
                for x in res[u.name].failed:
                    f.write("  [%s] %s line %s: %s\n" % (x[0], x[1], x[2], x[3]))
            f.write("\n" + out[-20000:])
        log("failing input: %s" % summ)
        for u in failed:
            for x in res[u.name].failed[:10]:
                log("failed obligation: [%s] %s line %s: %s" % x)
        violation = "VIOLATION property=%s replay=%s" % (pid, rp)
    else:
        bad = [(u, res[u.name]) for u in failed] + \
              [(u, bounded[u.name]) for u in stuck if u.name in bounded and bounded[u.name].status == "failed"]
        if bad:
            rp = os.path.join(evdir, "%s.obligation.txt" % pid)
            with open(rp, "w") as f:
                for u, r in bad:
                    f.write("property %s, unit %s (%s), command: %s\n" % (pid, u.name, r.mode, r.cmd))
                    for x in r.failed:
                        f.write("failed obligation: [%s] %s line %s: %s\n" % x)
                    f.write("\nverifier output:\n" + r.log[-200000:] + "\n")
            for u, r in bad:
                for x in r.failed[:10]:
                    log("failed obligation: [%s] %s line %s: %s" % x)
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp)

    proved = [u for u in units if res[u.name].status == "proved"]
    obligations = sum(r.total for r in res.values())
    discharged = sum(r.total - len(r.failed) for n, r in res.items() if r.status in ("proved", "failed"))
    fns = sorted({f for u in proved for f in u.fns})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(sorted({res[u.name].cmd for u in proved}))[:4000] or "none",
            "trusted_base": props.TRUSTED + P.get("trusted", []),
            "back_end": "cbmc 6.11.0, MiniSat (units marked otherwise name their solver)",
            "functions_under_contract": fns,
            "units": [{"unit": u.name, "functions": list(u.fns), "status": res[u.name].status,
                       "obligations": res[u.name].total,
                       "failed": ["[%s] %s:%s %s" % x for x in res[u.name].failed][:20],
                       "reachability_witnesses": res[u.name].reach_ok,
                       "loops_under_invariant": res[u.name].loops,
                       "wall_s": round(res[u.name].secs, 2),
                       "solver_s": round(res[u.name].solver_secs, 2),
                       "detail": res[u.name].detail[:500],
                       "note": getattr(u, "note", "")} for u in units],
            "solver_s": round(sum(r.solver_secs for r in res.values()), 2),
            "not_under_contract": P.get("uncovered", []),
            "bounded_stand_ins": [{"what": d.what or "contract replayed on the real library",
                                   "driver": d.src, "never_counted_as_proved": True,
                                   "error": builderr.get(k, "")}
                                  for k, d in enumerate(drivers)] +
                                 [{"unit": n, "bound": [u.bound_text for u in units if u.name == n][0],
                                   "status": r.status} for n, r in bounded.items()],
            "replayed_cases": cases, "replayed_nontrivial_cases": nontriv,
            "undecided_units": [u.name for u in stuck],
        },
        "assumptions": props.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    for k, e in builderr.items():
        log("replay driver %s: %s" % (drivers[k].src, e[:500]))
    log("%s: %d/%d units proved, %d/%d obligations discharged, %d replays, %.0f s" %
        (pid, len(proved), len(units), discharged, obligations, cases, time.time() - T0))
    if violation:
        log(violation)
        return 1
    return 0


def setup():
    """Nothing is built ahead: every check builds what it needs from /repo. This only makes
    sure that the tools are there."""
    bad = [t for t in ("cbmc", "goto-cc", "goto-instrument", "clang", "clang++") if not shutil.which(t)]
    log("missing: " + ", ".join(bad) if bad else "ready")
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    sys.exit(main(sys.argv[1]))
