"""P34: what may be absent is read only where it was found to be present."""
import facts, optionals, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, assigned_var

FIND = {"find", "find_if", "find_if_not", "find_first_of", "search", "adjacent_find", "find_end", "find_last"}
PTRS = {"std::unique_ptr", "std::shared_ptr"}
NULLS = {("c", 0), ("null",), ("c", None)}


def nullable(P):
    """Functions of the library that return a null pointer on some way."""
    out = set()
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO): continue
        rt = P.types[f.raw["ret"]] if f.raw.get("ret") is not None and f.raw["ret"] >= 0 else {}
        if not (rt.get("ptr") or rt.get("rec") in PTRS): continue
        for n in f.nodes.values():
            if n["k"] == "ReturnStmt" and n.get("c") and null_node(f, n["c"][0]): out.add(f.fid)
    return out


def null_node(f, i):
    todo = [i]
    while todo:
        x = todo.pop(); n = f.nodes.get(x)
        if n is None: continue
        if n["k"] == "CXXNullPtrLiteralExpr" or n["k"] == "ImplicitCastExpr" and n.get("ck") == "NullToPointer": return True
        if n["k"] == "ConditionalOperator": todo += n["c"][1:]; continue
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            A = n.get("args", [])
            if len(A) == 1: todo.append(A[0])
            continue
        if n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "InitListExpr", "CXXFunctionalCastExpr"): todo += n.get("c", [])
    return False


def nullable_fields(P):
    """Members of smart pointer type that the library itself compares with null or fills with null."""
    out = set()
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO): continue
        for n in f.nodes.values():
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=") and any(null_node(f, a) for a in n["args"]):
                for a in n["args"]:
                    while a in f.nodes and f.nodes[a]["k"] in ("ImplicitCastExpr", "ParenExpr"): a = f.nodes[a]["c"][0]
                    m = f.nodes.get(a)
                    if m and m["k"] == "MemberExpr" and m.get("dk") == "Field" and P.types[m["t"]].get("rec") in PTRS: out.add(m["qn"])
    return out


def is_opt(P, t):
    y = P.types[t] if t is not None and t >= 0 else {}
    if y.get("ref") and "pointee" in y: y = P.types[y["pointee"]]
    return y.get("rec") == "std::optional"


def nothing(t):
    return t is None or t[0] == "g" and t[1].endswith("nullopt") or t[0] in ("ctor", "init") and (t[1:] in ((), ((),)) or t[0] == "ctor" and (not t[2] or len(t[2]) == 1 and nothing(t[2][0]) and t[2][0][0] == "g")) or t[0] == "ctor" and "nullopt" in str(t[1])


def sites(f, P, nul):
    """Does the function read something that may be absent at all?"""
    for n in f.nodes.values():
        if optionals.deref_of(f, n): return True
        if n.get("callee") and n["callee"]["n"] in FIND: return True
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("*", "->"): return True
        if n["k"] == "CXXDynamicCastExpr": return True
        if n.get("callee") and (n["callee"]["qn"] == "std::get_if" or (o := P.fn_of(n["callee"])) is not None and o.fid in nul): return True
    return False


def check_P34(rep):
    rep.rule("Path-sensitive presence analysis of every function of the library: each dereference of an optional, of the result of a search and of a pointer that a function of the library may return as null has to be preceded, on every path, by a test, an assignment or a construction that makes it present, with nothing in between that could make it absent; "
             "a private helper or a file-local function that relies on its caller is judged in the context of its callers.")
    P = facts.full()
    nul = nullable(P); flds = nullable_fields(P)
    callers = {}
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO): continue
        for n in f.nodes.values():
            c = n.get("callee")
            if c:
                o = P.fn_of(c)
                if o is not None: callers.setdefault(o.fid, set()).add(f.fid)
    done = set(); groups = {}
    todo = [(f, frozenset()) for f in P.funcs.values() if f.blocks and f.file.startswith(REPO) and not f.is_lambda and sites(f, P, nul)]
    while todo:
        f, inl = todo.pop()
        if (f.fid, inl) in done: continue
        done.add((f.fid, inl))
        rep.count("functions", 1, f.sig())
        defer = judge(rep, P, f, inl, nul, flds, internal(f) and bool(callers.get(f.fid)))
        if defer:
            for c in callers.get(f.fid, ()):
                g = P.funcs[c]
                while g.is_lambda and g.raw.get("parent") in P.funcs: g = P.funcs[g.raw["parent"]]
                if len(inl) < 4: todo.append((g, inl | {f.fid}))
    rep.need("functions", 60); rep.need("reads of optionals", 15); rep.need("uses of search results", 25)
    rep.assume("a member that was found present is not made absent by another thread or by calls to other objects in between (P15)")


def internal(f):
    return f.access in ("private", "protected") if f.rec else f.file.endswith(".cpp") and f.name not in words()


_words = []
def words():
    """Every word of the library's headers: a function of a source file that none of them names is known there only."""
    if not _words:
        import os, re
        w = set()
        for d, _, fs in os.walk(REPO + "/include"):
            for x in fs:
                with open(os.path.join(d, x), errors="replace") as h: w |= set(re.findall(r"\w+", h.read()))
        _words.append(w)
    return _words[0]


def judge(rep, P, f, inl, nul, flds, hasc):
    g = Graph(P, f, inline=lambda x: x.is_lambda or x.fid in inl)
    defer = []
    def base(t):
        while t[0] in ("f", "deref", "conv", "idx") and isinstance(t[1], tuple): t = t[1]
        return t
    def outside(t):
        b = base(t); return b[0] == "p" or b == ("this",)
    def bad(kind, ev, t, what):
        if hasc and outside(t): defer.append(t); return
        rep.violation("%s:%s:%s" % (f.qn, kind, show(t)[:60]), ev.loc(), what)
    def origin(t):
        """The call whose result this is, if it is a fresh one."""
        return t
    def kill(s, t): return frozenset(x for x in s if not contains(x[1], t))
    def put(s, k, t, v=None): return frozenset(x for x in s if not (x[1] == t and x[0] in ("yes", "no"))) | {(k, t)}
    def found(t): return t[0] == "call" and texts.fname(t[1]) in FIND and not str(t[1]).startswith("std::basic_string") 
    def may_null(ev_fn, i):
        """Node i is a call of a library function that may return null (or a checked cast)."""
        fn = ev_fn
        while i in fn.nodes and fn.nodes[i]["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXConstructExpr"):
            n = fn.nodes[i]; c = n.get("c") or n.get("args") or []
            if len(c) != 1: return False
            i = c[0]
        n = fn.nodes.get(i)
        if n is None: return False
        if n["k"] == "CXXDynamicCastExpr": return bool(P.types[n["t"]].get("ptr"))
        c = n.get("callee")
        if not c: return False
        if c["qn"] == "std::get_if": return True
        o = P.fn_of(c)
        return o is not None and o.fid in nul and o.fid not in inl
    def tr(ev, s, view):
        if ev.kind in ("decl", "assign"):
            lhs = ev.lhs if ev.kind == "decl" else assigned_var(g, ev)
            if lhs is None: return s
            if ev.kind == "decl": t = ev.raw["t"]; init = ev.raw.get("init"); rhs = ev.rhs
            else:
                if ev.op != "=":
                    return kill(s, lhs) if ev.op in ("++", "--", "+=", "-=") and lhs[0] == "v" and ("search", lhs) in s else s
                c = ev.raw.get("args") or ev.raw.get("c") or []
                t = ev.ctx.fn.nodes[c[0]].get("t") if c and c[0] in ev.ctx.fn.nodes else None
                init = c[1] if len(c) > 1 else None; rhs = ev.rhs
            if ev.kind == "decl" and P.types[t].get("ref"): return s
            src = rhs
            while src is not None and src[0] == "ctor" and len(src[2]) == 1: src = src[2][0]
            known = next((x[0] for x in s if src is not None and x[1] == src and x[0] in ("yes", "no")), None)
            hunted = src is not None and (found(src) or ("search", src) in s)
            s = kill(s, lhs)
            if is_opt(P, t):
                if nothing(rhs) and (rhs is not None or ev.kind == "decl"): return put(s, "no", lhs)
                if rhs is None: return s
                it = ev.ctx.fn.nodes[init].get("t") if init in ev.ctx.fn.nodes else None
                if init is not None and value_of(P, ev.ctx.fn, init): return put(s, "yes", lhs)
                if known: return put(s, known, lhs)
                return s
            if hunted:
                s = s | {("search", lhs)}
                if any(x[0] == "has" and any(x[1] == y for y in subterms(src)) for x in s): s = put(s, "yes", lhs)
                if known: s = put(s, known, lhs)
                return s
            if init is not None and init in ev.ctx.fn.nodes and may_null(ev.ctx.fn, init): return s | {("null", lhs)}
            return s
        if ev.kind == "fieldinit": return s
        if ev.kind in ("call", "icall"):
            d = optionals.deref_of(ev.ctx.fn, ev.raw)
            if d and d[1] != "value":
                t = view.T(d[0])
                rep.count("reads of optionals", 1, "%s %s" % (f.disp, ev.loc()))
                if t[0] == "ctor" and t[2] and not nothing(t): return s
                if ("yes", t) not in s: bad("optional", ev, t, "%s reads %s, which may be absent on this path" % (f.disp, show(t)[:80]))
                return s
            if ev.op in ("*", "->") and ev.obj is not None:
                t = ev.obj
                if ("search", t) in s or found(t):
                    rep.count("uses of search results", 1, "%s %s" % (f.disp, ev.loc()))
                    if ("yes", t) not in s and not any(x[0] == "has" and any(x[1] == y for y in subterms(t)) for x in s): bad("search", ev, t, "%s uses the result of a search (%s) that may have found nothing" % (f.disp, show(t)[:80]))
                    return s
                if ("null", t) in s or t[0] == "f" and nullfield(ev, t):
                    rep.count("uses of nullable pointers", 1, "%s %s" % (f.disp, ev.loc()))
                    if ("yes", t) not in s: bad("null", ev, t, "%s dereferences %s, which may be null" % (f.disp, show(t)[:80]))
                    return s
            if ev.obj is not None and ev.obj[0] == "deref" and ev.obj[1][0] == "call" and ev.raw.get("k") == "CXXMemberCallExpr" and (arrow := arrow_of(ev)) is not None and may_null(ev.ctx.fn, arrow):
                rep.count("uses of nullable pointers", 1, "%s %s" % (f.disp, ev.loc()))
                if ("yes", ev.obj[1]) not in s: bad("null", ev, ev.obj[1], "%s dereferences %s, which may be null" % (f.disp, show(ev.obj[1])[:80]))
            if ev.obj is not None and ev.obj[0] == "deref" and ("null", ev.obj[1]) in s:
                rep.count("uses of nullable pointers", 1, "%s %s" % (f.disp, ev.loc()))
                if ("yes", ev.obj[1]) not in s: bad("null", ev, ev.obj[1], "%s dereferences %s, which may be null" % (f.disp, show(ev.obj[1])[:80]))
            if ev.obj is not None and ev.rec == "std::optional":
                if ev.m == "emplace": return put(s, "yes", ev.obj)
                if ev.m == "reset": return put(s, "no", ev.obj)
                if ev.m == "swap": return kill(s, ev.obj)
            if ev.m == "erase" and ev.args:
                for a in ev.args[:1]:
                    a = strip(a)
                    if (("search", a) in s or found(a)) and len(ev.args) == 1:
                        rep.count("uses of search results", 1, "%s %s" % (f.disp, ev.loc()))
                        if ("yes", a) not in s: bad("search", ev, a, "%s erases the element a search found (%s), though it may have found nothing" % (f.disp, show(a)[:80]))
            # an optional or a position handed out to be changed
            c = ev.raw.get("callee")
            if c and ev.kind == "call":
                o = P.fn_of(c); pts = c.get("pt") or (o.raw.get("pt") if o else None)
                for k, a in enumerate(ev.args or []):
                    if not any(x[1] == a for x in s): continue
                    if pts and k < len(pts):
                        y = P.types[pts[k]]
                        if y.get("ref") and "pointee" in y and not P.types[y["pointee"]].get("const"): s = frozenset(x for x in s if x[1] != a or x[0] not in ("yes", "no")) if not moved(ev, k) else s
            return s
        if ev.kind == "touch":
            t = ev.term
            if t[0] == "f" and t[1][0] == "deref" and ("null", t[1][1]) in s:
                rep.count("uses of nullable pointers", 1, "%s %s" % (f.disp, ev.loc()))
                if ("yes", t[1][1]) not in s: bad("null", ev, t[1][1], "%s dereferences %s, which may be null" % (f.disp, show(t[1][1])[:80]))
        return s
    def arrow_of(ev):
        fn = ev.ctx.fn; c = ev.raw.get("c") or []
        m = fn.nodes.get(c[0]) if c else None
        return m["c"][0] if m and m["k"] == "MemberExpr" and m.get("c") else None
    def nullfield(ev, t):
        fn = ev.ctx.fn; A = ev.raw.get("args") or []
        a = A[0] if A else None
        while a in fn.nodes and fn.nodes[a]["k"] in ("ImplicitCastExpr", "ParenExpr"): a = fn.nodes[a]["c"][0]
        m = fn.nodes.get(a)
        return bool(m) and m["k"] == "MemberExpr" and m.get("qn") in flds
    def moved(ev, k): return False
    def strip(t):
        while t[0] == "ctor" and len(t[2]) == 1: t = t[2][0]
        return t
    def br(t, pol, s, view):
        if isinstance(pol, tuple) or t == ("range",): return s
        for o, p in optionals.present_facts(t, pol):
            if o[0] != "op": s = put(s, "yes" if p else "no", strip(o))
        for a, p in conjuncts(t, pol):
            if a[0] == "op" and a[1] in ("&&", "||"):
                want = a[1] == "&&"
                if p == want: continue
                rest = [(u, q) for u, q in conjuncts(a, want) if not holds(u, q, s)]
                if len(rest) == 1: s = br(rest[0][0], not rest[0][1], s, view)
                if s is None: return None
                continue
            r = relation(a, p)
            if r and r[0] in ("==", "!=") and (mask(r[1]) or mask(r[2])):
                x, y = (r[1], r[2]) if mask(r[1]) else (r[2], r[1])
                m = mask(x)
                if y[0] == "c" and isinstance(y[1], int):
                    s = s | {("mask", m[0], m[1], r[0], y[1])}
                    fs = [z for z in s if z[0] == "mask" and z[1] == m[0]]
                    if max(max(z[2], z[4]) for z in fs) < 256 and not any(all(((v & z[2]) == z[4]) == (z[3] == "==") for z in fs) for v in range(256)): return None
                continue
            if r and r[0] in ("==", "!="):
                for x, y in ((r[1], r[2]), (r[2], r[1])):
                    x = strip(x)
                    if ("search", x) in s or found(x): s = put(s, "yes" if r[0] == "!=" else "no", x)
                    elif ("null", x) in s or x[0] == "f" and y in NULLS: s = put(s, "yes" if (r[0] == "!=") else "no", x)
            elif a[0] == "call" and texts.fname(a[1]) in ("contains", "count") and p:
                o = a[2] if a[2] is not None else (a[3][0] if a[3] else None)
                if o is not None: s = s | {("has", o)}
            else:
                x = a[1] if a[0] == "conv" else a[2] if a[0] == "call" and texts.fname(a[1]) in ("operator bool", "has_value") and a[2] is not None else a
                if ("null", x) in s or a[0] == "conv" and x[0] == "f": s = put(s, "yes" if p else "no", x)
        return s
    def holds(u, q, s):
        """Is u == q already known on this path?"""
        for o, p in optionals.present_facts(u, q):
            if ("yes" if p else "no", strip(o)) in s: return True
        r = relation(u, q)
        if r and r[0] in ("==", "!="):
            for x in r[1:]:
                if ("yes" if r[0] == "!=" else "no", strip(x)) in s: return True
        return False
    Explorer(g, frozenset(), tr, br, track="bool", limit=400000).run()
    return defer


def mask(t):
    """(value, bits) of a test of some bits of a value."""
    if t[0] == "op" and t[1] == "&":
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if y[0] == "c" and isinstance(y[1], int) and x[0] != "c": return x, y[1]
    return None


def value_of(P, fn, i):
    """The initialiser of an optional converts a plain value (it is not itself an optional)."""
    while i in fn.nodes:
        n = fn.nodes[i]
        if n["k"] in ("ExprWithCleanups", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr", "InitListExpr"):
            c = n.get("c", [])
            if len(c) != 1: return False
            i = c[0]; continue
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["rec"] == "std::optional":
            A = n.get("args", [])
            if not A: return False
            t = P.types[fn.nodes[A[0]]["t"]] if A[0] in fn.nodes and fn.nodes[A[0]].get("t") is not None else {}
            if t.get("ref") and "pointee" in t: t = P.types[t["pointee"]]
            if t.get("rec") == "std::optional": i = A[0]; continue
            return "nullopt" not in t.get("s", "") 
        t = P.types[n["t"]] if n.get("t") is not None and n["t"] >= 0 else {}
        if n["k"] == "CallExpr" and n.get("callee", {}).get("qn") == "std::make_optional": return True
        return t.get("rec") != "std::optional" and "nullopt" not in t.get("s", "") and bool(t)
    return False
