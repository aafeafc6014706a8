"""What a comparison function establishes: which parts of two values were found equal or different on each path."""
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

EQ = {"std::strong_ordering::equal", "std::strong_ordering::equivalent", "std::weak_ordering::equivalent", "std::partial_ordering::equivalent"}
NEQ = {"std::strong_ordering::less", "std::strong_ordering::greater", "std::weak_ordering::less", "std::weak_ordering::greater", "std::partial_ordering::less", "std::partial_ordering::greater", "std::partial_ordering::unordered"}
CPO = {"std::compare_strong_order_fallback", "std::compare_weak_order_fallback", "std::compare_partial_order_fallback", "std::strong_order", "std::weak_order", "std::partial_order", "std::compare_three_way"}
X = ("X",)


def root(t, side):
    """Replaces the object (receiver or first argument) by X; None when the other object occurs."""
    mine, other = ((("this",), ("p", 0)) if side == 0 else (("p", 0), ("this",)))
    ok = [True]
    def w(t):
        if t == mine: return X
        if t == other: ok[0] = False
        if isinstance(t, tuple): return tuple(w(y) if isinstance(y, tuple) else y for y in t)
        return t
    r = w(t)
    return r if ok[0] and contains(r, X) else None


def unconv(t):
    while t[0] == "conv" or t[0] == "ctor" and len(t[2]) == 1 and t[1] in ("std::basic_string_view", "std::span", "std::strong_ordering", "std::weak_ordering", "std::partial_ordering") \
            or t[0] == "init" and len(t[1]) == 1: t = t[1] if t[0] == "conv" else t[2][0] if t[0] == "ctor" else t[1][0]
    return t


def mirror(a, b):
    """The part compared when a and b are the same expression over the two objects."""
    a, b = unconv(a), unconv(b)
    for s in (0, 1):
        x, y = root(a, s), root(b, 1 - s)
        if x is not None and x == y: return x
    return None


def tie(t):
    if t[0] == "call" and t[1] in ("std::tie", "std::make_tuple", "std::forward_as_tuple", "std::make_pair"): return list(t[3])
    if t[0] == "ctor" and t[1] in ("std::tuple", "std::pair"): return list(t[2])
    return None


def pairs(a, b):
    ta, tb = tie(a), tie(b)
    if ta is not None and tb is not None and len(ta) == len(tb):
        r = [mirror(x, y) for x, y in zip(ta, tb)]
        return None if None in r else r
    m = mirror(a, b)
    return [m] if m is not None else None


def whole(b, e):
    """The container when b, e are its begin and end."""
    def g(t, n):
        t = unconv(t)
        if t[0] == "call" and t[1].split("::")[-1] in (n, "c" + n): return unconv(t[2] if t[2] is not None and t[2][0] != "g" else t[3][0]) if t[2] is not None and t[2][0] != "g" or t[3] else None
        return None
    x, y = g(b, "begin"), g(e, "end")
    return x if x is not None and x == y else None


def cmp3(t):
    """Parts compared by a three-way comparison, or None."""
    t = unconv(t)
    if t[0] == "op" and t[1] == "<=>":
        a, b = t[2], t[3]
        if b == ("c", 0) and a[0] == "call" and a[1].endswith("::compare") and len(a[3]) == 1: return pairs(a[2], a[3][0])
        return pairs(a, b)
    if t[0] == "call" and (t[2] is not None and t[2][0] in ("g", "ctor", "init") and (t[2][0] != "g" or t[2][1] in CPO)) and len(t[3]) == 2: return pairs(*t[3])
    if t[0] == "call" and t[1].endswith("::compare") and t[2] is not None and len(t[3]) == 1: return pairs(t[2], t[3][0])
    if t[0] == "call" and t[1].endswith("lexicographical_compare_three_way") and len(t[3]) >= 4:
        a, b = whole(t[3][0], t[3][1]), whole(t[3][2], t[3][3])
        if a is not None and b is not None: return pairs(a, b)
    return None


def zero(t):
    t = unconv(t)
    return t in (("c", 0), ("null",)) or t[0] == "g" and t[1] in EQ or t[0] in ("ctor", "opq") and t[0] == "ctor" and "unspec" in t[1]


def atom(t, pol):
    """('eq'|'ne', parts) established when t has truth value pol; None if nothing is."""
    while t[0] == "un" and t[1] == "!": t = t[2]; pol = not pol
    r = relation(t, pol)
    if r:
        op, a, b = r
        if zero(a) and not zero(b): a, b = b, a
        if zero(b):
            c = cmp3(a)
            if c is not None: return ("eq" if op == "==" else "ne" if op in ("!=", "<", ">") else "?", c)
        p = pairs(a, b)
        if p is not None: return ("eq" if op == "==" else "ne" if op in ("!=", "<", ">") else "?", p)
        return None
    if t[0] == "call":
        nm = t[1].split("::")[-1]
        if nm in ("is_eq", "is_neq") and t[3]:
            c = cmp3(t[3][0])
            if c is not None: return ("eq" if (nm == "is_eq") == pol else "ne", c)
        if nm in ("operator==",) and len(t[3]) == 2:
            p = pairs(*t[3]); return ("eq" if pol else "ne", p) if p else None
        if nm == "equal" or nm == "operator()" and ("equal" in t[1].lower() or t[2] is not None and t[2][0] == "g" and t[2][1].endswith("equal")):
            A = list(t[3]); p = None
            while A and (A[-1][0] in ("init", "none", "opq") or A[-1][0] == "ctor" and ("equal_to" in A[-1][1] or "identity" in A[-1][1])): A.pop()
            if len(A) == 2: p = pairs(*A)
            elif len(A) == 4:
                a, b = whole(A[0], A[1]), whole(A[2], A[3])
                p = pairs(a, b) if a is not None and b is not None else None
            return ("eq" if pol else "ne", p) if p else None
    return None


class Outcome:
    def __init__(self): self.problems = []; self.returns = 0


def judge(P, fn, fields, implied=lambda facts, side: (), threeway=False, inline=None):
    """Checks that the result is 'equal' exactly when all of fields (terms over X) are equal.
    -> list of (location, message), number of returns judged."""
    g = Graph(P, fn, inline=inline)
    out = []; n = [0]; need = list(fields)
    def add(facts, fs):
        f = set(facts)
        for k, parts in fs:
            if k == "eq": f.update(("eq", p) for p in parts)
            elif k == "ne":
                f.add(("ne", parts[0] if len(parts) == 1 else ("any", tuple(parts))))
        return frozenset(f)
    def consistent(f): return not any(("eq", p) in f for (k, p, *_) in f if k == "ne")
    def assume(f, t, pol):
        fs = []
        for a, p in conjuncts(t, pol):
            e = atom(a, p)
            if e: fs.append(e)
            elif a[0] == "op" and a[1] in ("==", "!=") and ((a[1] == "==") == p):
                # a part has a known value
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if y[0] == "c":
                        for s in (0, 1):
                            r = root(unconv(x), s)
                            if r is not None: f = f | {("val", r, y[1])}
        return add(f, fs)
    def covered(f):
        eqs = {x[1] for x in f if x[0] == "eq"} | set(implied(f, None))
        return [p for p in need if p not in eqs]
    def differs(f): return any(x[0] == "ne" for x in f)
    def ret(ev, t, f):
        if not consistent(f): return
        t = unconv(t)
        if t[0] == "ite":
            ret(ev, t[2], assume(f, t[1], True)); ret(ev, t[3], assume(f, t[1], False)); return
        if threeway:
            if t[0] == "g" and t[1] in EQ or t == ("c", 0):
                m = covered(f)
                if m: out.append((ev.loc(), "reports equality without having compared %s" % ", ".join(name(x) for x in m)))
                return
            if t[0] == "g" and t[1] in NEQ:
                if not differs(f): out.append((ev.loc(), "reports a difference without having found one"))
                return
            c = cmp3(t)
            if c is None:
                out.append((ev.loc(), "orders by %s, which is not a comparison of the same part of both values" % show(t))); return
            if any(("ne", p) in f for p in c) : return
            m = covered(add(f, [("eq", c)]))
            if m: out.append((ev.loc(), "reports equality without having compared %s" % ", ".join(name(x) for x in m)))
            return
        if t[0] == "c":
            if t[1]:
                m = covered(f)
                if m: out.append((ev.loc(), "returns true without having compared %s" % ", ".join(name(x) for x in m)))
            elif not differs(f): out.append((ev.loc(), "returns false without having found a difference"))
            return
        ft = assume(f, t, True)
        if consistent(ft):
            m = covered(ft)
            if m: out.append((ev.loc(), "can return true although %s was not compared" % ", ".join(name(x) for x in m)))
        for a, p in conjuncts(t, True):
            e = atom(a, p)
            if e is None or e[0] != "eq":
                out.append((ev.loc(), "lets the result depend on %s, which is no comparison of the same part of both values" % show(a)))
    def tr(ev, s, view):
        f, loc = s
        if ev.kind == "decl" and ev.rhs is not None and ev.ctx.parent is None:
            c = cmp3(ev.rhs) or (atom(ev.rhs, True) or (None, None))[1]
            if c is not None: loc = frozenset([x for x in loc if x[0] != ev.lhs] + [(ev.lhs, ev.rhs)])
        if ev.kind == "assign" and ev.lhs is not None and ev.lhs[0] == "v":
            loc = frozenset(x for x in loc if x[0] != ev.lhs)
            if ev.op == "=" and ev.rhs is not None and (cmp3(ev.rhs) or atom(ev.rhs, True)): loc = loc | {(ev.lhs, ev.rhs)}
        if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
            n[0] += 1; ret(ev, sub(ev.term, loc), f)
        return (f, loc)
    def br(t, pol, s, view):
        f, loc = s
        if isinstance(pol, tuple):
            if pol[0] == "case":
                for sd in (0, 1):
                    r = root(unconv(t), sd) if isinstance(t, tuple) else None
                    if r is not None: f = f | {("val", r, pol[1])}
            return (f, loc)
        f = assume(f, sub(t, loc), pol)
        return (f, loc) if consistent(f) else None
    Explorer(g, (frozenset(), frozenset()), tr, br).run()
    return out, n[0]


def sub(t, loc):
    d = dict(loc)
    def w(t):
        if t in d: return d[t]
        if isinstance(t, tuple): return tuple(w(y) if isinstance(y, tuple) else y for y in t)
        return t
    return w(t)


def name(p):
    return p[2] if p[0] == "f" else p[1].split("::")[-1] + "()" if p[0] == "call" else show(p)
