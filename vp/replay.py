"""Concrete replay: builds a driver against /repo's real sources with sanitizers and searches
for an input on which the property's contract fails."""
import concurrent.futures as cf
import glob, os, shutil, subprocess, tempfile, time, re, signal
import extract

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RDIR = os.path.join(VERIF, "replay")
REPO = extract.REPO

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,function",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-O1", "-w"]


class BuildError(Exception):
    pass


class Driver:
    """src: file in replay/; defs: -D; ryu/ff: configuration of the library under test."""
    def __init__(self, src, defs=(), ryu=True, ff=False, runs=20000, secs=40, maxlen=256,
                 extra=(), what=""):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def _config(d, ryu, ff):
    extract.write_config(d)
    p = os.path.join(d, "geoarrow", "geoarrow_config.h")
    t = open(p).read()
    t = t.replace("#define GEOARROW_USE_RYU 0", "#define GEOARROW_USE_RYU %d" % ryu)
    t = t.replace("#define GEOARROW_USE_FAST_FLOAT 0", "#define GEOARROW_USE_FAST_FLOAT %d" % ff)
    open(p, "w").write(t)


def build(drv, d):
    """Compiles the library's real sources and the driver into d/drv."""
    os.makedirs(d, exist_ok=True)
    _config(d, int(drv.ryu), int(drv.ff))
    inc = ["-I", d, "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "src/vendor"), "-I", RDIR]
    srcs = sorted(glob.glob(os.path.join(REPO, "src/geoarrow/*.c")))
    srcs.append(os.path.join(REPO, "src/vendor/nanoarrow/nanoarrow.c"))
    if drv.ryu:
        srcs.append(os.path.join(REPO, "src/geoarrow/ryu/d2s.c"))
    if drv.ff:
        srcs.append(os.path.join(REPO, "src/geoarrow/double_parse_fast_float.cc"))
    srcs += [os.path.join(RDIR, drv.src)] + [os.path.join(RDIR, e) for e in drv.extra]
    fuzz = ["-fsanitize=fuzzer-no-link"]
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "%d.o" % i)
        own = s.startswith(RDIR)
        cc = ["clang++", "-std=c++17"] if s.endswith((".cc", ".cpp")) else ["clang", "-std=gnu11"]
        cmd = cc + SAN + fuzz + inc + ["-D" + x for x in (drv.defs if own else [])] + \
            (["-DVPR_MAIN"] if own and s.endswith(drv.src) else []) + \
            (["-include", os.path.join(RDIR, "vpr_alloc.h")] if not own and s.endswith(".c") else []) + ["-c", s, "-o", o]
        jobs.append((cmd, o))

    def one(j):
        p = subprocess.run(j[0], capture_output=True)
        return p.returncode, p.stderr.decode("utf-8", "replace")
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for (rc, err), j in zip(ex.map(one, jobs), jobs):
            if rc != 0:
                raise BuildError("%s: %s" % (j[0][-3], err[-1500:]))
    out = os.path.join(d, "drv")
    p = subprocess.run(["clang++"] + SAN + ["-fsanitize=fuzzer"] + [o for _, o in jobs] +
                       ["-o", out, "-lm"], capture_output=True)
    if p.returncode != 0:
        raise BuildError("link: " + p.stderr.decode("utf-8", "replace")[-1500:])
    return out


ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=3000",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def search(exe, d, seed, runs, secs, maxlen, procs=2):
    """(cases, nontrivial, [(artifact, log)])"""
    ps = []
    for k in range(procs):
        w = os.path.join(d, "w%d" % k)
        os.makedirs(os.path.join(w, "corpus"), exist_ok=True)
        env = dict(os.environ, **ENV)
        env["VPR_STATS"] = os.path.join(w, "stats")
        log = open(os.path.join(w, "log"), "wb")
        cmd = [exe, "-seed=%d" % (1000 * seed + k + 1), "-runs=%d" % runs, "-max_total_time=%d" % secs,
               "-max_len=%d" % maxlen, "-len_control=20", "-timeout=20", "-rss_limit_mb=3500",
               "-malloc_limit_mb=3000", "-artifact_prefix=%s/art-" % w, "-print_final_stats=1",
               "-reload=0", "-use_value_profile=%d" % (k % 2), os.path.join(w, "corpus")]
        ps.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=w,
                                    preexec_fn=os.setsid), w))
    t0 = time.time()
    cases = nontriv = 0
    found = []
    for p, w in ps:
        try:
            p.wait(timeout=max(5, secs + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        try:
            a, b = open(os.path.join(w, "stats")).read().split()
            cases += int(a)
            nontriv += int(b)
        except Exception:
            pass
        log = open(os.path.join(w, "log"), "rb").read().decode("utf-8", "replace")
        arts = [a for a in glob.glob(os.path.join(w, "art-*"))
                if os.path.basename(a).startswith(("art-crash", "art-timeout"))]
        for a in arts:
            found.append((a, log))
        m = re.findall(r"stat::number_of_executed_units: (\d+)", log)
        if m and not os.path.exists(os.path.join(w, "stats")):
            cases += int(m[-1])
    return cases, nontriv, found


def confirm(exe, art):
    """Runs one case; returns (fails, output)."""
    env = dict(os.environ, **ENV)
    try:
        p = subprocess.run([exe, "-timeout=20", "-rss_limit_mb=3500", "-malloc_limit_mb=3000", "-artifact_prefix=%s.again-" % art, art],
                           capture_output=True, env=env, timeout=120)
    except subprocess.TimeoutExpired:
        return True, "does not end"
    out = (p.stdout + p.stderr).decode("utf-8", "replace")
    return p.returncode != 0, out


def summary(out):
    for pat in (r"VPFAIL .*", r"SUMMARY: .*", r"ERROR: .*", r"runtime error: .*"):
        m = re.search(pat, out)
        if m:
            return m.group(0)[:300]
    return out[-300:]
