"""Mechanical translation of hpp/wkb_util.hpp's WKBSequence, WKBGeometry and WKBParser to C, on every run.

No verifier here takes C++; the three classes are C in all but spelling.  What changes:
  * a class's data members become the fields of a struct (WKBSequence, WKBGeometry) or file-scope
    variables (WKBParser: one object); default member initialisers are dropped;
  * a method becomes a function <Class>_<name> (WKBGeometry's take the object first); overloads are told
    apart by their number of parameters, and default arguments are dropped;
  * static_cast<T>(x) -> (T)(x), nullptr -> NULL, X->Method(..) of WKBGeometry -> WKBGeometry_Method(X, ..),
    constants -> macros, access specifiers and qualifiers are dropped;
  * std::vector v: v.size(), v.push_back({}), v[i] -> VP_SIZE(v), VP_PUSH(v), VP_AT(v, i), to be given by the harness;
  * load_uint32_le_(p) and load_uint32_be_(p) -> VP_LE32(p), VP_BE32(p).
Dropped: methods that are templates or return std::string, the iteration over coordinates.
The statements and expressions are otherwise the original text, on lines numbered as in the header.
"""
import os, re
from extract import ExtractError, REPO


def _strip_comments(s):
    keep = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"//[^\n]*|/\*.*?\*/", keep, s, flags=re.S)


def _close(s, i, o="{", c="}"):
    d = 0
    for j in range(i, len(s)):
        if s[j] == o:
            d += 1
        elif s[j] == c:
            d -= 1
            if d == 0:
                return j
    raise ExtractError("unbalanced %s in wkb_util.hpp" % o)


def _class(s, kind, name):
    m = re.search(r"\b%s\s+%s\s*\{" % (kind, name), s)
    if not m:
        raise ExtractError("%s %s is no longer defined in wkb_util.hpp" % (kind, name))
    return m.end(), _close(s, m.end() - 1)


def _members(s, a, b):
    """(offset, text up to the body or the semicolon, body or None) of each member."""
    i, out = a, []
    while True:
        m = re.compile(r"\s*").match(s, i)
        i = m.end()
        if i >= b:
            return out
        m = re.compile(r"(public|private|protected)\s*:").match(s, i)
        if m:
            i = m.end()
            continue
        j, par = i, 0
        while j < b:
            ch = s[j]
            if ch == "(":
                par += 1
            elif ch == ")":
                par -= 1
            elif par == 0 and ch in ";{":
                break
            j += 1
        if j >= b:
            raise ExtractError("cannot read a member of wkb_util.hpp: %r" % s[i:i + 60])
        if s[j] == ";":
            out.append((i, s[i:j], None))
            i = j + 1
            continue
        e = _close(s, j)
        head = s[i:j]
        k = re.compile(r"\s*;").match(s, e + 1)
        if "(" in head:
            out.append((i, head, s[j:e + 1]))
            i = e + 1
        else:  # a member with an initialiser, or an enum
            out.append((i, head, s[j:e + 1]))
            i = k.end() if k else e + 1
            if not k:
                raise ExtractError("cannot read a member of wkb_util.hpp: %r" % head)


def _args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{<":
            d += 1
        if ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _body(t, cls, methods, fields, vectors, obj):
    t = t.replace("nullptr", "NULL").replace("internal::", "").replace("this->", "")
    t = re.sub(r"\bWKB(Parser|Geometry)::", "", t)
    while True:
        m = re.search(r"static_cast<([^<>]*)>\s*\(", t)
        if not m:
            break
        t = t[:m.start()] + "(" + m.group(1) + ")(" + t[m.end():]
    for v in vectors:
        t = re.sub(r"\b%s\.size\(\)" % v, "VP_SIZE(self, %s)" % v, t)
        t = re.sub(r"\b%s\.(?:push_back\(\{\}\)|emplace_back\(\))" % v, "VP_PUSH(self, %s)" % v, t)
        t = re.sub(r"\b%s\[([^\]]*)\]" % v, r"VP_AT(self, %s, \1)" % v, t)
    t = t.replace("load_uint32_le_(", "VP_LE32(").replace("load_uint32_be_(", "VP_BE32(")
    t = re.sub(r"\b(\w+)->(Reset|AppendGeometry|AppendSequence)\(\s*\)", r"WKBGeometry_\2(\1)", t)
    if obj:
        for f in fields:
            t = re.sub(r"(?<![\w.>])%s\b" % f, "self->" + f, t)
    out, i = "", 0
    for m in re.finditer(r"(?<![\w.>])(%s)\s*\(" % "|".join(map(re.escape, sorted(methods))), t):
        n = m.group(1)
        k = len(_args(t[m.end():_close(t, m.end() - 1, "(", ")")]))
        out += t[i:m.start()] + _name(cls, n, k, methods) + "(" + ("self, " if obj and k else "self" if obj else "")
        i = m.end()
    return out + t[i:]


def _name(cls, n, k, methods):
    if len(methods[n]) == 1:
        return "%s_%s" % (cls, n)
    if k not in methods[n]:
        raise ExtractError("no %s of wkb_util.hpp takes %d arguments" % (n, k))
    return "%s_%s_%d" % (cls, n, k)


def translate(outdir):
    path = os.path.join(REPO, "src/geoarrow/hpp/wkb_util.hpp")
    s = _strip_comments(open(path).read())
    if s.count("class WKBParser") != 1:
        raise ExtractError("WKBParser")
    line = lambda o: s.count("\n", 0, o) + 1
    out = ["#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <string.h>\n#include \"geoarrow/geoarrow.h\"\n"
           "#ifndef VP_AT\n#define VP_AT(s, v, i) ((v).vp_data[i])\n#define VP_SIZE(s, v) ((v).vp_size)\n#define VP_PUSH(s, v) ((v).vp_size++)\n"
           "uint32_t vp_le32(const uint8_t*);\nuint32_t vp_be32(const uint8_t*);\n#define VP_LE32(p) vp_le32(p)\n#define VP_BE32(p) vp_be32(p)\n#endif\n"]
    for m in re.finditer(r"static constexpr uint8_t (k\w+) = (0x[0-9a-fA-F]+|\d+);", s[:s.index("struct WKBSequence")]):
        out.append("#define %s %s\n" % m.groups())
    fwd, defs, glob, consts = [], [], [], []
    for kind, cls, obj in (("struct", "WKBSequence", None), ("class", "WKBGeometry", True), ("class", "WKBParser", False)):
        a, b = _class(s, kind, cls)
        fields, vectors, methods, fns, decl = [], [], {}, [], []
        for o, head, body in _members(s, a, b):
            h = " ".join(head.split())
            if h.startswith(("template", "using", "friend")) or (body and "std::" in h and "(" in h) or "= default" in h:
                continue
            if h.startswith("enum ") and re.match(r"enum \w+$", h):
                n = h.split()[1]
                consts.append("typedef enum %s %s %s;\n" % (n, body, n))
                continue
            if h.startswith("static constexpr"):
                m = re.match(r"static constexpr uint32_t (\w+) = ([^;]+)$", h)
                if not m:
                    raise ExtractError("a constant of wkb_util.hpp: " + h)
                consts.append("#define %s ((uint32_t)(%s))\n" % m.groups())
                continue
            if "(" in h:
                m = re.match(r"(?:(?:inline|static|constexpr) )*([\w:*& ]+?[ *&])(\w+)\s*\((.*)\)( const)?( noexcept)?$", h)
                if not m:
                    raise ExtractError("a method of wkb_util.hpp: " + h)
                if obj is None or "&" in m.group(1):
                    continue  # accessors that return references, WKBSequence's methods
                ps = [re.sub(r"\s*=.*", "", p).strip() for p in _args(m.group(3))]
                methods.setdefault(m.group(2), []).append(len(ps))
                fns.append((o, m.group(1), m.group(2), ps, body, bool(m.group(4))))
                continue
            m = re.match(r"(.+?[ *&>])(\w+)$", h.replace(" = ", "=").split("=")[0].strip())
            if not m:
                raise ExtractError("a member of wkb_util.hpp: " + h)
            ty, n = m.group(1).strip(), m.group(2)
            if "Load" in ty:
                continue
            if ty.startswith("std::vector<"):
                vectors.append(n)
                fields.append(n)
                decl.append("struct { %s* vp_data; size_t vp_size; } %s;" % (ty[len("std::vector<"):-1], n))
                continue
            fields.append(n)
            decl.append("%s %s;" % (ty, n))
        if obj is False:
            glob += ["static " + d + "\n" for d in decl]
        else:
            out.append("typedef struct %s %s;\nstruct %s { %s };\n" % (cls, cls, cls, " ".join(decl)))
        for o, ret, n, ps, body, const in fns:
            sig = "static %s %s(%s)" % (ret.strip(), _name(cls, n, len(ps), methods),
                                        ", ".join((["%s%s* self" % ("const " if const else "", cls)] if obj else []) + ps) or "void")
            fwd.append(sig + ";\n")
            at = s.index("{", o)
            defs.append('\n#line %d "wkb_util.hpp"\n%s %s\n' % (line(o), sig, _body(body, cls, methods, fields, vectors, obj)))
    t = "".join(out + consts + glob + fwd + defs)
    open(os.path.join(outdir, "geoarrow", "wkb_parser.c"), "w").write(t)
    return t
