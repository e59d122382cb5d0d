"""Runs proof units: extraction, goto-cc, loop contracts, cbmc; parses every obligation."""
import concurrent.futures as cf
import os, re, resource, shutil, subprocess, tempfile, time
import extract, hpp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
REPO = extract.REPO


class Unit:
    def __init__(self, name, harness, fns, annot=None, sources=(), defines=(), unwind=None,
                 unwindset=(), flags=(), timeout=400, alts=(), mem=5, weight=1, bounded=None, solver=(), only_bounded=False,
                 bound_text="", objbits=None, nofp=False, entry="harness"):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Res:
    """Outcome of one unit in one mode."""
    def __init__(self):
        self.status = "error"   # proved | failed | error | timeout
        self.failed = []        # [(property id, file, line, description)]
        self.total = 0
        self.reach_missing = []
        self.reach_ok = 0
        self.secs = 0.0
        self.solver_secs = 0.0
        self.log = ""
        self.detail = ""
        self.cmd = ""
        self.mode = "proof"
        self.loops = {}


def _limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setsid()
    return f


def _run(cmd, timeout, mem_gb=10, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=_limits(mem_gb), cwd=cwd)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""


PROP = re.compile(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def run_unit(u, mode, trace=False):
    """Runs a unit; when its annotations do not fit the code any more, the alternative ones
    (usually: through the callee's body instead of its contract) are tried in turn."""
    r = run_unit1(u, mode, trace, u.annot)
    for a in u.alts if mode == "proof" else ():
        if r.status == "error":
            r = run_unit1(u, mode, trace, a)
    return r


def run_unit1(u, mode, trace, annot):
    r = Res()
    r.mode = mode
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="vp-")
    try:
        extract.copy_tree(d)
        if u.harness == "wkb_parser.c":
            hpp.translate(d)
        defines = list(u.defines)
        unwind, unwindset, timeout = u.unwind, list(u.unwindset), u.timeout
        flags = list(u.flags)
        sources = list(u.sources)
        harness = u.harness
        if mode == "proof":
            defines.append("VP_PROOF")
            for f, a in (annot or {}).items():
                r.loops.update(extract.annotate(os.path.join(d, "geoarrow", f), d, a))
        else:
            b = u.bounded or {}
            defines.append("VP_BOUNDED")
            defines += b.get("defines", [])
            unwind, unwindset = b.get("unwind", 4), b.get("unwindset", [])
            timeout = b.get("timeout", timeout)
            sources = b.get("sources", sources)
            harness = b.get("harness", harness)
            flags = b.get("flags", flags)
        a = os.path.join(d, "a.gb")
        cmd = ["goto-cc", "--function", u.entry, "-std=gnu11", "-I", HARN] + extract.includes(d) + \
              ["-D" + x for x in defines] + [os.path.join(HARN, harness)] + \
              [s if s.startswith("/") else
               (os.path.join(REPO, "src/vendor/nanoarrow/nanoarrow.c") if s == "nanoarrow.c"
                else os.path.join(d, "geoarrow", s)) for s in sources] + ["-o", a]
        rc, out = _run(cmd, 120)
        r.log += out or ""
        if rc != 0:
            r.detail = "goto-cc: " + (out or "timeout")[-1500:]
            return r
        cmd = ["cbmc", a, "--drop-unused-functions", "--slice-formula", "--verbosity", "8"] + flags
        if u.objbits:
            cmd += ["--object-bits", str(u.objbits)]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        if unwindset:
            cmd += ["--unwindset", ",".join(unwindset)]
        if mode != "proof":
            cmd += ["--no-unwinding-assertions"]
        cmd += list(u.solver)
        if trace:
            cmd += ["--trace"]
        r.cmd = " ".join(cmd).replace(d, "$TMP")
        rc, out = _run(cmd, timeout, u.mem)
        if rc is None:
            r.status, r.detail = "timeout", "cbmc did not finish in %d s" % timeout
            return r
        r.log += out
        m = re.findall(r"Runtime decision procedure: ([\d.e+-]+)s", out)
        m2 = re.findall(r"Runtime Solver: ([\d.e+-]+)s", out)
        r.solver_secs = sum(float(x) for x in (m or m2))
        n = undecided = 0
        fn = ""
        for line in out.splitlines():
            if " function " in line and not line.startswith("["):
                fn = line.strip()
            mm = PROP.match(line)
            if not mm:
                continue
            pid, ln, desc, st = mm.groups()
            if desc.startswith("VPREACH"):
                if st == "FAILURE":
                    r.reach_ok += 1
                else:
                    r.reach_missing.append(desc[8:])
                continue
            n += 1
            if st in ("ERROR", "UNKNOWN"):
                undecided += 1
            elif st != "SUCCESS":
                r.failed.append((pid, fn, ln, desc))
        r.total = n
        if "VERIFICATION ERROR" in out or (undecided and not r.failed):
            r.detail = "cbmc could not decide %d obligations (exit %s)" % (undecided, rc)
            r.failed = []
            return r
        if "VERIFICATION" not in out:
            r.detail = "cbmc gave no verdict (exit %s): %s" % (rc, out[-1500:])
            return r
        if n == 0:
            r.detail = "no obligation was generated"
            return r
        # A loop left without a contract and beyond its unwinding bound is a limit of the
        # extraction (the code has another loop now), not a broken property.
        uw = [f for f in r.failed if ".unwind." in f[0] or "unwinding assertion" in f[3]
              or "recursion unwinding" in f[3]]
        real = [f for f in r.failed if f not in uw]
        if mode == "proof" and uw and not real:
            r.status, r.detail = "error", "unwinding bound: " + "; ".join(f[0] for f in uw[:5])
            return r
        r.failed = real
        nb = [f for f in real if "no-body" in f[0] or "no body for" in f[3]]
        if nb and len(nb) == len(real):
            r.failed = []
            r.detail = "calls without a contract: " + ", ".join(sorted({f[0] for f in nb}))
            return r
        if r.failed:
            r.status = "failed"
        elif r.reach_missing:
            # a vacuous harness proves nothing; it does not show a violation either
            r.detail = "not reached: " + ", ".join(r.reach_missing)
        else:
            r.status = "proved"
        return r
    except extract.ExtractError as e:
        r.detail = "extraction: %s" % e
        return r
    finally:
        r.secs = time.time() - t0
        if os.environ.get("VP_KEEP"):
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)


class Pool:
    """Runs units with a bound on the total weight (about one core and 4 GB each)."""
    def __init__(self, cap=7):
        import threading
        self.cap, self.used, self.cv = cap, 0, threading.Condition()

    def run(self, u, mode, trace=False):
        w = min(u.weight, self.cap)
        with self.cv:
            while self.used + w > self.cap:
                self.cv.wait()
            self.used += w
        try:
            return run_unit(u, mode, trace)
        finally:
            with self.cv:
                self.used -= w
                self.cv.notify_all()
