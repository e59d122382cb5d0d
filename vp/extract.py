"""Mechanical extraction: copies /repo/src/geoarrow into a scratch tree and inserts
specification text into the copy on every run.

Nothing is removed or rewritten except what is listed here:
  * a loop under contract `for (I; C; S) B` becomes
        { <ghost> for (I; ({ <loop rule> 1; }) && (C); S) B }
    (`while` likewise), where <loop rule> is the usual cut point: the invariant is asserted
    on entry, everything the loop may change is made arbitrary, the invariant is assumed, one
    arbitrary iteration runs, the invariant is asserted again and the path ends.  The body,
    the condition and the step are the original text.
  * an identifier naming a callee inside a named caller is replaced by the name of that
    callee's contract (modular call: the caller sees the contract, not the body).
All insertions stay on their line, so a failed obligation names the line of /repo's file.
"""
import json, os, re, shutil, subprocess

REPO = os.environ.get("VP_REPO", "/repo")


class ExtractError(Exception):
    pass


def write_config(outdir):
    """geoarrow_config.h from the repository's own template (the standard build's fallbacks:
    no ryu, no fast_float, which are C++ or table driven and lie outside every proof)."""
    src = open(os.path.join(REPO, "src/geoarrow/geoarrow_config.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r'set\(GEOARROW_VERSION "([^"]+)"\)', cm)
    ver = m.group(1) if m else "0.0.0"
    nums = (re.findall(r"\d+", ver) + ["0", "0", "0"])[:3]
    sub = {
        "GEOARROW_VERSION_MAJOR": nums[0], "GEOARROW_VERSION_MINOR": nums[1],
        "GEOARROW_VERSION_PATCH": nums[2], "GEOARROW_VERSION": ver,
        "GEOARROW_USE_FAST_FLOAT_DEFINE": "#define GEOARROW_USE_FAST_FLOAT 0",
        "GEOARROW_USE_RYU_DEFINE": "#define GEOARROW_USE_RYU 0",
        "GEOARROW_NAMESPACE_DEFINE": "",
    }
    out = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), src)
    d = os.path.join(outdir, "geoarrow")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "geoarrow_config.h"), "w").write(out)


def copy_tree(outdir):
    """Fresh copy of the C sources and headers."""
    d = os.path.join(outdir, "geoarrow")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(REPO, "src/geoarrow")):
        if f.endswith((".c", ".h")):
            shutil.copy(os.path.join(REPO, "src/geoarrow", f), os.path.join(d, f))
    write_config(outdir)


def includes(outdir):
    return ["-I", outdir, "-I", os.path.join(REPO, "src/vendor")]


_LOOPS = {"ForStmt", "WhileStmt"}


def ast_of(path, outdir):
    """Clang JSON AST of a file (a header is wrapped in a one-line unit)."""
    main = path
    if path.endswith(".h"):
        main = os.path.join(outdir, "vp_wrap_%s.c" % os.path.basename(path).replace(".", "_"))
        open(main, "w").write('#include "geoarrow/geoarrow.h"\n#include "nanoarrow/nanoarrow.h"\n')
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json"] +
                       includes(outdir) + [main], capture_output=True)
    if r.returncode != 0:
        raise ExtractError("clang cannot parse %s: %s" % (path, r.stderr.decode()[:2000]))
    return json.loads(r.stdout)


def _off(loc):
    """("p"|"m", spelling offset, expansion offset) of a location, or None."""
    if not loc:
        return None
    if "spellingLoc" in loc or "expansionLoc" in loc:
        sp, ex = loc.get("spellingLoc"), loc.get("expansionLoc")
        return ("m", sp.get("offset") if sp else None, ex.get("offset") if ex else None)
    if "offset" not in loc:
        return None
    return ("p", loc["offset"], loc["offset"])


def _plain(loc, what):
    o = _off(loc)
    if not o or o[0] != "p":
        raise ExtractError("%s is written by a macro" % what)
    return o[1]


def functions(ast, names):
    """Function definitions (with a body) by name."""
    out = {}
    for n in ast.get("inner", []):
        if n.get("kind") == "FunctionDecl" and n.get("name") in names:
            if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                out[n["name"]] = n
    return out


def _walk(n):
    yield n
    for c in n.get("inner", []) or []:
        if isinstance(c, dict) and c:
            yield from _walk(c)


def loops_of(fn):
    return [n for n in _walk(fn) if n.get("kind") in _LOOPS]


def _strip(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr"):
        inner = [c for c in n.get("inner", []) if c]
        if not inner:
            return n
        n = inner[0]
    return n


def _base(n):
    """The local variable an lvalue belongs to, or None (memory reached through a pointer)."""
    n = _strip(n)
    k = n.get("kind")
    if k == "DeclRefExpr":
        d = n.get("referencedDecl", {})
        return d if d.get("kind") in ("VarDecl", "ParmVarDecl") else None
    if k == "MemberExpr" and not n.get("isArrow"):
        return _base(n["inner"][0])
    if k == "ArraySubscriptExpr":
        b = n["inner"][0]
        # an array variable decays; a pointer variable does not make its target local
        if b.get("kind") == "ImplicitCastExpr" and b.get("castKind") == "ArrayToPointerDecay":
            return _base(b["inner"][0])
        return None
    return None


def _assigned(loop):
    """Names of variables declared outside `loop` that its text may change, in order."""
    inside = {n["id"] for n in _walk(loop) if n.get("kind") == "VarDecl"}
    init = []
    if loop["kind"] == "ForStmt" and loop["inner"] and loop["inner"][0]:
        init = [n["id"] for n in _walk(loop["inner"][0]) if n.get("kind") == "VarDecl"]
    inside -= set(init)
    out = []
    types = {}

    def add(d):
        if d and d.get("id") not in inside and d.get("name") not in out:
            out.append(d["name"])
            types[d["name"]] = d.get("type", {}).get("qualType", "")

    # the array of a[i] is changed only by an assignment to a[i] itself, and an array passed
    # as a pointer to const not at all
    indexed = set()
    for n in _walk(loop):
        if n.get("kind") == "ArraySubscriptExpr" and n["inner"][0].get("castKind") == "ArrayToPointerDecay":
            indexed.add(n["inner"][0]["id"])
        if n.get("kind") == "ImplicitCastExpr" and n.get("type", {}).get("qualType", "").startswith("const"):
            m = n
            while m.get("kind") == "ImplicitCastExpr":
                indexed.add(m["id"])
                m = m["inner"][0]
    for n in _walk(loop):
        k = n.get("kind")
        inner = [c for c in n.get("inner", []) if c]
        if k in ("BinaryOperator", "CompoundAssignOperator") and \
                n.get("opcode", "").endswith("=") and n.get("opcode") not in ("==", "!=", "<=", ">="):
            add(_base(inner[0]))
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
            add(_base(inner[0]))
        elif k == "ImplicitCastExpr" and n.get("castKind") == "ArrayToPointerDecay" and n["id"] not in indexed:
            p = _base(inner[0])
            if p is not None and not p.get("type", {}).get("qualType", "").startswith("const") \
                    and p.get("kind") == "VarDecl":
                add(p)
    return out, types


def _havoc(v, ty):
    """Makes a local arbitrary. A pointer becomes one that no access is allowed through: a
    loop that carries a pointer from one iteration to the next must say where it points."""
    if ty.rstrip().endswith("*"):
        return " %s = (__typeof__(%s))vp_poison;" % (v, v)
    if ty.rstrip().endswith("]"):
        return " __CPROVER_havoc_object((void*)&%s);" % v
    return " { __typeof__(%s) vp_t; %s = vp_t; }" % (v, v)


def _index_var(loop):
    """The variable a loop counts with (for-init declaration or assignment, or the variable
    its condition tests)."""
    parts = loop["inner"]
    if loop["kind"] == "ForStmt":
        if parts[0]:
            for n in _walk(parts[0]):
                if n.get("kind") == "VarDecl":
                    return n["name"]
                if n.get("kind") == "DeclRefExpr":
                    return n["referencedDecl"]["name"]
        cond = parts[2]
    else:
        cond = parts[0]
    for n in _walk(cond or {}):
        if n.get("kind") == "DeclRefExpr" and n["referencedDecl"].get("kind") in ("VarDecl", "ParmVarDecl"):
            return n["referencedDecl"]["name"]
    return None


_KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "functions.json")


def _known():
    """The functions each file defined when the contracts were written."""
    return json.load(open(_KNOWN)) if os.path.exists(_KNOWN) else {}


def _defined(ast, path):
    out, here = [], not path.endswith(".h")
    if not here:
        return []
    cur = None
    for n in ast.get("inner", []):
        loc = n.get("loc", {})
        for l in (loc.get("spellingLoc", {}), loc.get("expansionLoc", {}), loc):
            if "file" in l:
                cur = l["file"]
        if n.get("kind") == "FunctionDecl" and cur == path and \
                any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
            out.append(n["name"])
    return out


def annotate(path, outdir, spec):
    """spec: {function: {"loops": {ordinal: (id, invariant macro, havoc macro, args)},
    "nloops": expected number, "calls": {callee: contract}}}.
    In args `$i` stands for the loop's counting variable, `$0`, `$1`, ... for the function's
    parameters.  STEP_<id> holds what one arbitrary iteration must have done."""
    if not spec:
        return {}
    ast = ast_of(path, outdir)
    text = open(path, "rb").read()
    spec = dict(spec)
    # a helper that was extracted from a function under contract uses the same contracts
    known = _known().get(os.path.basename(path), [])
    new = [n for n in _defined(ast, path) if n not in known and n not in spec]
    if new:
        union = {}
        for s in spec.values():
            union.update(s.get("calls") or {})
        for n in new:
            spec[n] = {"calls": {c: t for c, t in union.items() if c != n}}
    fns = functions(ast, set(spec))
    edits = []
    info = {}
    for name in spec:
        if name not in fns:
            raise ExtractError("function %s is no longer defined in %s" % (name, os.path.basename(path)))
    for name, s in spec.items():
        ls = loops_of(fns[name])
        want = s.get("nloops")
        if want is not None and len(ls) != want:
            raise ExtractError("%s has %d loops, the contracts were written for %d" % (name, len(ls), want))
        for k, (lid, args) in (s.get("loops") or {}).items():
            if k >= len(ls):
                raise ExtractError("%s has no loop %d" % (name, k))
            L = ls[k]
            what = "loop %d of %s" % (k, name)
            begin = _plain(L["range"]["begin"], what)
            endloc = L["range"]["end"]
            end = _plain(endloc, what) + endloc.get("tokLen", 1)
            body = [c for c in L["inner"] if c][-1]
            if body.get("kind") != "CompoundStmt":
                semi = text.index(b";", end)
                end = semi + 1
            hv, types = _assigned(L)
            iv = _index_var(L)
            a = args.replace("$i", iv or "0") if args else ""
            pn = [c.get("name", "0") for c in fns[name].get("inner", []) if c.get("kind") == "ParmVarDecl"]
            for q in range(len(pn) - 1, -1, -1):
                a = a.replace("$%d" % q, pn[q])
            havoc = "".join(_havoc(v, types[v]) for v in hv)
            sep = ", " if a else ""
            head = ("({ if (!VPL_%s) { VPL_%s = 1; INV_%s(VP_LASSERT%s%s); VP_FRAME_BEGIN(%s);"
                    "%s HAVOC_%s(%s); INV_%s(VP_LASSUME%s%s); VP_BEFORE(%s%s%s); } else { "
                    "STEP_%s(VP_LASSERT%s%s); INV_%s(VP_LASSERT%s%s); "
                    "VP_FRAME_END(%s); __CPROVER_assume(0); } 1; })"
                    % (lid, lid, lid, sep, a, lid, havoc, lid, a, lid, sep, a, lid, sep, a,
                       lid, sep, a, lid, sep, a, lid))
            edits.append((begin, begin, ("{ int VPL_%s = 0; VP_FRAME_DECL(%s) " % (lid, lid)).encode()))
            edits.append((end, end, b" }"))
            if L["kind"] == "ForStmt":
                cond = L["inner"][2]
                if cond:
                    cb = _plain(cond["range"]["begin"], what)
                    ce = _plain(cond["range"]["end"], what) + cond["range"]["end"].get("tokLen", 1)
                    edits.append((cb, cb, (head + " && (").encode()))
                    edits.append((ce, ce, b")"))
                else:
                    raise ExtractError("%s has no condition" % what)
            else:
                cond = L["inner"][0]
                cb = _plain(cond["range"]["begin"], what)
                ce = _plain(cond["range"]["end"], what) + cond["range"]["end"].get("tokLen", 1)
                edits.append((cb, cb, (head + " && (").encode()))
                edits.append((ce, ce, b")"))
            info[lid] = {"function": name, "havoc": hv, "index": iv}
        for callee, stub in (s.get("calls") or {}).items():
            hits = 0
            for n in _walk(fns[name]):
                if n.get("kind") == "DeclRefExpr" and \
                        n.get("referencedDecl", {}).get("name") == callee:
                    o = _off(n["range"]["begin"])
                    if not o:
                        continue
                    cand = [x for x in (o[1], o[2]) if x is not None and
                            text[x:x + len(callee)] == callee.encode()]
                    if not cand:
                        raise ExtractError("call of %s in %s cannot be located" % (callee, name))
                    edits.append((cand[0], cand[0] + len(callee), stub.encode()))
                    hits += 1
    # outermost first at equal offsets: insertion order is kept by the stable sort
    seen, uniq = set(), []
    for e in edits:
        if e[0] != e[1]:
            if e in seen:
                continue
            seen.add(e)
        uniq.append(e)
    # an opening insertion of an outer construct goes before an inner one at the same offset,
    # a closing one after it: apply from the end; at equal offsets, later edits first
    order = sorted(range(len(uniq)), key=lambda i: (uniq[i][0], i))
    out, pos = [], 0
    for i in order:
        a, b, t = uniq[i]
        if a < pos:
            raise ExtractError("overlapping insertions in %s" % os.path.basename(path))
        out.append(text[pos:a])
        out.append(t)
        pos = b
    out.append(text[pos:])
    open(path, "wb").write(b"".join(out))
    return info
