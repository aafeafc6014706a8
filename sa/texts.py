"""Where a value comes from and how it was transformed on the way (accessors, iteration, encoding),
and the text fragments an expression is made of.  Used by the rules about encoders and parsers."""
import re
from ir import Graph, subterms

STRS = ("std::basic_string", "std::basic_string_view")
MARK = {"percent_encode": "enc", "percent_decode": "dec", "to_string": "num", "to_chars": "num", "u8string": "s", "generic_u8string": "s"}


def last(q): return q.split("::")[-1]


def fname(q):
    """Name of a called function; a call of a function object counts as the object's name."""
    l = last(q)
    if l == "operator()":
        l = q.split("::")[-2]
        m = re.fullmatch(r"__(\w+)_fn", l)
        if m: return m.group(1)
    return l


def init_of(g, t):
    """Initial value of a local, or None."""
    if t[0] != "v" or t[1] < 0: return None
    fn = g.ctxs[t[1]].fn; v = fn.vars.get(t[2])
    if not v or v.get("init") is None or v["init"] < 0: return None
    r = g.T(g.ctxs[t[1]], v["init"], {}, True)
    return None if r == t else r


def vtype(g, t):
    fn = g.ctxs[t[1]].fn if t[0] == "v" and t[1] >= 0 else None
    return g.P.types[fn.vars[t[2]]["t"]] if fn and t[2] in fn.vars else {}


def origin(g, t, depth=40):
    """(base term, [transformations, outermost first])."""
    ops = []
    while depth:
        depth -= 1
        k = t[0]
        if k == "ret":
            r = g._static_ret(g.ctxs[t[1]], {})
            if r == t: return t, ops
            t = r; continue
        if k == "v":
            r = init_of(g, t)
            if r is None: return t, ops
            y = vtype(g, t)
            if y.get("rec") in STRS and t[1] >= 0 and g._mutated(g.ctxs[t[1]].fn, t[2]): return t, ops
            t = r; continue
        if k == "conv": t = t[1]; continue
        if k == "deref": ops.append("elem"); t = t[1]; continue
        if k == "idx": ops.append("elem"); t = t[1]; continue
        if k == "init" and len(t[1]) == 1: t = t[1][0]; continue
        if k == "ctor":
            a = [x for x in t[2] if not (x[0] == "ctor" and last(x[1]) == "allocator")]
            if len(a) == 1: t = a[0]; continue
            if len(a) == 2 and a[0][0] == "call" and fname(a[0][1]) in ("begin", "cbegin", "data"):
                t = a[0][2] if a[0][2] is not None else a[0][3][0]; continue
            return t, ops
        if k == "lamarg":
            c = g.ctxs[t[1]]; n = c.fn.nodes[t[2]]
            a = n.get("args", [])
            if n["k"] == "CXXOperatorCallExpr": a = a[1:]
            if not a: return t, ops
            ops.append("elem"); t = g.T(c, a[0], {}, True); continue
        if k == "call":
            m = fname(t[1])
            if m in ("begin", "cbegin", "data", "c_str", "view", "str", "all", "string_view", "as_const", "values") and (t[2] is not None or len(t[3]) == 1):
                t = t[2] if t[2] is not None else t[3][0]; continue
            if m in ("begin", "cbegin") and t[3]: t = t[3][0]; continue
            if m in MARK and t[3]: ops.append(MARK[m]); t = t[3][0]; continue
            if m.startswith("split") and t[3]: ops.append("split"); t = t[3][0]; continue
            if m in ("operator\"\"sv", "operator\"\"s"): t = t[3][0]; continue
            if m in ("next", "prev") and t[3]: ops.append(m); t = t[3][0]; continue
            return t, ops
        return t, ops
    return t, ops


def flatten(g, t):
    """Fragments of a string expression: ("t", text) and ("v", base, ops)."""
    b, ops = origin(g, t)
    if not ops or all(o == "elem" for o in ops):
        if b[0] == "str": return [("t", b[1])]
        if b[0] == "c" and isinstance(b[1], int) and not ops: return [("t", chr(b[1]))] if 0 < b[1] < 127 else [("u", b)]
        if b[0] == "op" and b[1] == "+": return flatten(g, b[2]) + flatten(g, b[3])
        if b[0] == "call" and fname(b[1]) in ("format", "vformat") and b[3]:
            return fmt(g, b[3])
    return [("v", b, tuple(ops))]


def fmt(g, args):
    f = origin(g, args[0])[0]
    if f[0] != "str": return [("u", f)]
    out = []; rest = list(args[1:]); pos = 0
    s = f[1].replace("{{", "\1").replace("}}", "\2")
    for m in re.finditer(r"\{(\d*)(:[^}]*)?\}", s):
        if m.start() > pos: out.append(("t", s[pos:m.start()].replace("\1", "{").replace("\2", "}")))
        pos = m.end()
        if m.group(1): a = rest[int(m.group(1))] if int(m.group(1)) < len(rest) else None
        else: a = rest.pop(0) if rest else None
        if a is None: out.append(("u", f))
        else: out += flatten(g, a)
    if pos < len(s): out.append(("t", s[pos:].replace("\1", "{").replace("\2", "}")))
    return out


def is_end_of(g, t, base):
    """Is t the end position of the container base?"""
    for _ in range(6):
        if t[0] == "v":
            r = init_of(g, t)
            if r is None: return False
            t = r
        elif t[0] == "ret":
            r = g._static_ret(g.ctxs[t[1]], {})
            if r == t: return False
            t = r
        else: break
    if t[0] != "call" or fname(t[1]) not in ("end", "cend"): return False
    o = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
    return o is not None and origin(g, o)[0] == base
