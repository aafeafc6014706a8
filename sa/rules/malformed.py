"""P19: what a metafile contains cannot end the program: assertions, reads past the end and absent values are unreachable from the parser."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, assigned_var, SWAP, NEG

FAIL = ("fail_fast_terminate", "fail_fast_assert", "fail_fast_assert_handler", "terminate", "abort", "__assert_fail", "__assert_perror_fail", "exit", "_Exit", "quick_exit", "unreachable")
FINDS = ("find", "find_if", "find_if_not", "lower_bound", "upper_bound", "search", "adjacent_find", "find_first_of", "max_element", "min_element")
STRS = ("std::basic_string", "std::basic_string_view")
INF = 2**63


class Canon:
    """Terms with locals that are not changed replaced by what they name, and the accesses of the input in one form."""
    def __init__(self, g): self.g = g; self.memo = {}; self.fields = {}
    def __call__(self, t, depth=0):
        if depth > 40 or not isinstance(t, tuple) or not t: return t
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.go(t, depth)
        return r
    def go(self, t, depth):
        g = self.g; k = t[0]; c = lambda x: self(x, depth + 1)
        if k == "conv": return c(t[1])
        if k == "narrow": return c(t[3])
        if k == "v" and t[1] >= 0:
            fn = g.ctxs[t[1]].fn
            if g._mutated(fn, t[2]): return t
            r = texts.init_of(g, t)
            return t if r is None or r == t else c(r)
        if k == "ret":
            r = g._static_ret(g.ctxs[t[1]], {})
            return t if r == t else c(r)
        if k == "ctor":
            a = [x for x in t[2] if not (x[0] == "ctor" and texts.last(x[1]) == "allocator")]
            if len(a) == 1 and (t[1] in STRS or t[1] == "std::optional"): return c(a[0])
            return ("ctor", t[1], tuple(c(x) for x in a))
        if k == "init" and len(t[1]) == 1: return c(t[1][0])
        if k == "deref":
            x = c(t[1])
            if x[0] == "addr": return x[1]
            return ("deref", x)
        if k == "f":
            b = c(t[1])
            if b == ("this",) and t[2] in self.fields: return self.fields[t[2]]
            if t[2] == "second" and b[0] == "deref" and b[1][0] == "find": return ("at", b[1][1], b[1][2])
            return field(g.P, ("f", b, t[2]))
        if k == "idx":
            x, y = c(t[1]), c(t[2])
            return ("idx", x, y)
        if k == "call":
            m = texts.fname(t[1]); o = c(t[2]) if t[2] is not None else None; a = [c(x) for x in t[3]]
            if m.startswith('operator""') and a: return a[0]
            al = ([o] if o is not None else []) + a
            if m in ("get_dict", "get_list", "get_string", "get_integer") and al: return (m[4:], al[0])
            if m in ("get_as", "get") and "bencode" in t[1] and len(al) == 1: return ("as", al[0])
            if m in ("holds_dict", "holds_list", "holds_string", "holds_integer", "is_dict", "is_list", "is_string", "is_integer") and al: return ("holds", m.split("_")[1], al[0])
            if m in ("begin", "cbegin", "end", "cend") and len(al) == 1: return (m.lstrip("c"), al[0])
            if m in ("size", "length", "ssize") and len(al) == 1: return ("size", al[0])
            if m == "empty" and len(al) == 1: return ("op", "==", ("size", al[0]), ("c", 0))
            if m == "contains" and o is not None and len(a) == 1: return ("has", o, a[0])
            if m == "count" and o is not None and len(a) == 1: return ("count", o, a[0])
            if m == "find" and o is not None and len(a) == 1: return ("find", o, a[0])
            if m == "at" and o is not None and len(a) == 1: return ("at", o, a[0])
            if m in ("has_single_bit",) and al: return ("pow2", al[0])
            if m in ("popcount",) and al: return ("popcount", al[0])
            return ("call", t[1], o, tuple(a))
        if k in ("op",): return ("op", t[1], c(t[2]), c(t[3]))
        if k in ("un",): return ("un", t[1], c(t[2]))
        if k == "addr":
            x = c(t[1]); return x[1] if x[0] == "deref" else ("addr", x)
        if k == "ite": return ("ite", c(t[1]), c(t[2]), c(t[3]))
        return t


def atoms(C, t, pol):
    """Canonical facts that hold when t has truth value pol."""
    out = []
    for a, p in conjuncts(t, pol):
        a = C(a)
        while a[0] == "un" and a[1] == "!": a = a[2]; p = not p
        for a, p in conjuncts(a, p):
            r = relation(a, p)
            if r:
                op, x, y = r
                for o, u, v in ((op, x, y), (SWAP[op], y, x)):
                    if v[0] == "end" and u[0] == "find" and o in ("==", "!="): out.append((("has", u[1], u[2]), o == "!=")); break
                    if v[0] == "end" and o in ("==", "!="): out.append((("end", u), o == "==")); break
                    if u[0] == "count" and v == ("c", 0): out.append((("has", u[1], u[2]), o in ("!=", ">"))); break
                    if u[0] == "popcount" and v == ("c", 1) and o in ("==", "!="): out.append((("pow2", u[1]), o == "==")); break
                    if u[0] == "op" and u[1] == "&" and v == ("c", 0) and o in ("==", "!="):
                        for s, q in ((u[2], u[3]), (u[3], u[2])):
                            if q == ("op", "-", s, ("c", 1)): out.append((("pow2", s), o == "==")); break
                    if v[0] == "g" and v[1].endswith("nullopt") or v[0] == "ctor" and "nullopt" in v[1]: out.append((("set", u), o == "!=")); break
                    if v[0] == "c" and isinstance(v[1], int) and u[0] != "c": out.append(((o, u, v[1]), True)); break
                else:
                    out.append(((op, x, y), True))
                continue
            if a[0] == "call" and a[1] == "has_value": out.append((("set", a[2]), p)); continue
            if a[0] == "popcount" and False: continue
            out.append((a, p))
    return out


RELS = set(NEG)


def resolve(C, fs, s):
    """A conjunction that is false while all but one of its parts hold makes that part false (and dually)."""
    out = []
    for a, p in fs:
        if a[0] == "op" and a[1] in ("&&", "||") and p == (a[1] == "||"):
            parts = []; work = [a]
            while work:
                x = work.pop()
                if x[0] == "op" and x[1] == a[1]: work += [x[2], x[3]]
                else: parts.append(x)
            left = [x for x in parts if not all(holds(s, f) for f in atoms(C, x, not p))]
            if len(left) == 1: out += atoms(C, left[0], p); continue
        out.append((a, p))
    return out


def interval(F, x):
    """Bounds of x from the facts F."""
    lo, hi, ne = -INF * 4, INF * 4, set()
    for f, p in F:
        if f[0] in RELS and f[1] == x and isinstance(f[2], int):
            c = f[2]
            if f[0] == "==": lo = max(lo, c); hi = min(hi, c)
            elif f[0] == "<": hi = min(hi, c - 1)
            elif f[0] == "<=": hi = min(hi, c)
            elif f[0] == ">": lo = max(lo, c + 1)
            elif f[0] == ">=": lo = max(lo, c)
            elif f[0] == "!=": ne.add(c)
    if x[0] == "size": lo = max(lo, 0)
    while lo in ne: lo += 1
    return lo, hi, ne


def negate(f):
    a, p = f
    if a[0] in RELS: return ((NEG[a[0]],) + a[1:], True)
    return (a, not p)


def holds(F, f):
    """Do the facts F imply f?"""
    if f in F: return True
    a, p = f
    if a[0] in RELS:
        if isinstance(a[2], int) and isinstance(a[1], tuple):
            if a[1][0] == "c" and isinstance(a[1][1], int): lo = hi = a[1][1]; ne = set()
            else: lo, hi, ne = interval(F, a[1])
            c = a[2]
            if lo > hi: return True
            return {"==": lo == hi == c, "!=": c < lo or c > hi or c in ne, "<": hi < c, "<=": hi <= c, ">": lo > c, ">=": lo >= c}[a[0]]
        if isinstance(a[2], tuple):
            # the same operands the other way round, or a stronger relation
            for g, q in F:
                if g[0] in RELS and isinstance(g[2], tuple):
                    for o, x, y in ((g[0], g[1], g[2]), (SWAP[g[0]], g[2], g[1])):
                        if (x, y) == (a[1], a[2]) and (o == a[0] or (o, a[0]) in (("<", "<="), ("<", "!="), (">", ">="), (">", "!="), ("==", "<="), ("==", ">="))): return True
        return False
    if a[0] == "holds" and not p:
        return any(g[0] == "holds" and q and g[2] == a[2] and g[1] != a[1] for g, q in F)
    if a[0] == "pow2" and p and a[1][0] == "c" and isinstance(a[1][1], int): return a[1][1] > 0 and a[1][1] & (a[1][1] - 1) == 0
    return False


def subst(t, this, ps):
    if not isinstance(t, tuple) or not t: return t
    if t == ("this",): return this
    if t[0] == "p" and len(t) == 2: return ps[t[1]] if t[1] < len(ps) else t
    return tuple(subst(x, this, ps) for x in t)


def deps(t): return {x for x in subterms(t) if x[0] == "v"}


class Fun:
    """One function: explores it under its own preconditions and gathers what is left to its callers."""
    def __init__(self, A, fn): self.A = A; self.fn = fn

    def run(self):
        A, fn = self.A, self.fn; P = A.P
        g = self.g = Graph(P, fn, inline=lambda x: x.fid != fn.fid and A.inlines(x)); C = self.C = Canon(g)
        if fn.kind == "ctor" and not fn.raw.get("copy") and not fn.raw.get("move"):
            fs = {e["f"]: g.T(g.ctxs[0], e["e"], {}) for b in fn.blocks.values() for e in b["e"] if isinstance(e, dict) and e.get("x") == "init" and "f" in e and e.get("written")}
            fs = {k: C(v) for k, v in fs.items()}
            C.fields = {k: v for k, v in fs.items() if v[0] in ("p", "f", "c")}; C.memo.clear()
        self.need = {}; self.bad = {}
        pt = [P.types[fn.vars[p]["t"]] for p in fn.params]
        self.inp = {i for i, y in enumerate(pt) if "bencode" in y["s"]}
        def learned(s, fs):
            for f in fs:
                if f[0][0] == "c": continue
                s = s | {f}
            return s
        def tr(ev, s, view):
            k = ev.kind
            if k in ("call", "icall", "noreturn"):
                q = ev.m or ev.raw.get("callee", {}).get("n", "")
                if q in FAIL and ev.node.kind in ("noret", "eval"):
                    self.failed(ev, s); return None
            if ev.n is not None and k in ("call", "ctor", "icall", "ictor", "decl", "assign", "return", "touch"): self.reads(ev, s)
            if k in ("call", "ctor"):
                self.callee(ev, s)
                if k == "call":
                    m = texts.fname(ev.qn); o = ev.obj if ev.obj is not None else ev.args[0] if ev.args else None
                    if m in ("get_dict", "get_list", "get_string", "get_integer") and o is not None: s = learned(s, [(("holds", m[4:], C(o)), True)])
                    if m == "at" and ev.obj is not None and len(ev.args) == 1: s = learned(s, [(("has", C(ev.obj), C(ev.args[0])), True)])
                    if ev.obj is not None and m in ("pop_back", "pop", "clear", "erase", "resize", "pop_front", "remove_prefix", "remove_suffix", "substr") and m != "substr":
                        o = C(ev.obj); s = frozenset(f for f in s if not contains(f[0], o))
                    if ev.obj is not None and m in ("emplace", "value_or") and ev.rec == "std::optional" and m == "emplace": s = learned(s, [(("set", C(ev.obj)), True)])
                    if ev.obj is not None and m == "reset" and ev.rec == "std::optional": s = frozenset(f for f in s if f[0] != ("set", C(ev.obj)))
            drop = None
            if k == "decl": drop = ev.lhs
            elif k == "assign" and ev.lhs is not None:
                v = assigned_var(g, ev); drop = v
            if drop is not None and s:
                d = drop[:3] if drop[0] == "v" else None
                if d: s = frozenset(f for f in s if not any(x[:3] == d for x in deps(f[0])))
                else:
                    o = C(drop); s = frozenset(f for f in s if not contains(f[0], o))
            if k in ("decl", "assign") and ev.rhs is not None and (k == "decl" or ev.op == "="):
                l = ev.lhs
                if self.opt(l):
                    r = C(ev.rhs)
                    empty = r[0] == "g" and r[1].endswith("nullopt") or r[0] == "ctor" and ("nullopt" in r[1] or not r[2]) or r[0] == "none"
                    if not empty and not (r[0] in ("call", "v", "p", "f", "ret")): s = learned(s, [(("set", C(l)), True)])
                    elif not empty and k == "assign" and not self.optterm(ev): s = learned(s, [(("set", C(l)), True)])
                    elif not empty and (("set", r), True) in s: s = learned(s, [(("set", C(l)), True)])
                elif l[0] == "v" and g._mutated(g.ctxs[l[1]].fn, l[2]) if l[0] == "v" and l[1] >= 0 else False:
                    r = C(ev.rhs)
                    if r[0] == "c" and isinstance(r[1], int): s = learned(s, [(("==", l, r[1]), True)])
            if k == "leave" and s:
                s = frozenset(f for f in s if not any(x[1] == ev.ctx.id for x in deps(f[0])))
            return s
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            fs = resolve(C, atoms(C, t, pol), s)
            for f in fs:
                if f[0][0] == "c":
                    continue
                if holds(s, negate(f)): return None
            return learned(s, fs)
        E = Explorer(g, frozenset(), tr, br, track="bool", limit=60000)
        try: E.run()
        except Broken:
            E = Explorer(g, frozenset(), tr, br, track=False, limit=200000); E.run()
        return self

    # -- classification ----------------------------------------------------
    def input(self, t, depth=0):
        """Does the value come from the input?"""
        if depth > 12: return False
        for x in subterms(t):
            if x[0] in ("dict", "list", "string", "integer", "as", "holds"): return True
            if x[0] == "p" and len(x) == 2 and x[1] in self.inp: return True
            if x[0] == "v" and x[1] >= 0:
                fn = self.g.ctxs[x[1]].fn
                if x[2] in fn.vars and "bencode" in self.A.P.ts(fn.vars[x[2]]["t"]): return True
                r = texts.init_of(self.g, x)
                if r is not None:
                    r = self.C(r)
                    if r != x and not contains(r, x) and self.input(r, depth + 1): return True
        return False

    def own(self, t):
        """Is it about parameters, the object and constants only?"""
        for x in subterms(t):
            if x[0] in ("v", "ret", "lam", "lamarg", "tmp", "new", "opq", "bind"): return False
        return True

    def opt(self, t):
        if t[0] != "v" or t[1] < 0: return False
        fn = self.g.ctxs[t[1]].fn
        return t[2] in fn.vars and self.A.P.types[fn.vars[t[2]]["t"]].get("rec") == "std::optional"

    def optterm(self, ev):
        """Is the assigned value itself an optional?"""
        n = ev.raw; fn = ev.ctx.fn
        a = n.get("args") or n.get("c") or []
        i = a[-1] if a else None
        while i in fn.nodes and fn.nodes[i]["k"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"): i = fn.nodes[i]["c"][0]
        t = fn.nodes[i].get("t") if i in fn.nodes else None
        return t is None or "optional" in self.A.P.ts(t)

    def demand(self, ev, s, f, what):
        """f has to hold here."""
        if holds(s, f): return
        a, p = f
        if a[0] == "c": return
        if a[0] in ("this",): return
        if a[0] in RELS and isinstance(a[2], tuple) and (contains(a[1], a[2]) or contains(a[2], a[1])): return      # arithmetic of one value
        if self.own(a) and not (self.fn in self.A.tops):
            self.need.setdefault(f, (ev.loc(), what)); return
        if not self.input(a) and not (a[0] in RELS and self.counter(a, s)):
            self.A.rep.count("conditions about internal state", 1 if self.A.final else 0, "%s: %s" % (self.fn.disp, showf(f))); return
        if a[0] in RELS and isinstance(a[2], tuple):
            if contains(a[1], a[2]) or contains(a[2], a[1]): return      # arithmetic of one value
            if self.bounded(a, s): return
        self.bad.setdefault((ev.ctx.fn.qn, what, a[0]), (ev.loc(), "%s: %s: nothing on the way here makes sure that %s" % (self.fn.disp, what, showf(f))))

    def counter(self, a, s):
        """A loop counter that runs up to something from the input."""
        return any(f[0] in ("<", "<=", "!=") and f[1] == a[1] and isinstance(f[2], tuple) and self.input(f[2]) for f, p in s)

    def bounded(self, a, s):
        """index < count: the index runs below something that was compared with a count of the same object kind, or was itself compared."""
        op, x, y = a
        if op not in ("<", "<=", "==", ">", ">="): return True
        if op in (">", ">="): x, y = y, x
        ups = {x}
        for _ in range(3):
            for f, p in s:
                if f[0] in RELS and isinstance(f[2], tuple):
                    for o, u, v in ((f[0], f[1], f[2]), (SWAP[f[0]], f[2], f[1])):
                        if u in ups and o in ("<", "<=", "==", "!=") : ups.add(v)
        return any(not self.input(u) and u != x and u[0] not in ("c",) for u in ups)

    # -- obligations -------------------------------------------------------
    def failed(self, ev, s):
        node = ev.node; seen = set(); work = [node]; conds = []
        while work:
            n = work.pop()
            for p in n.pred:
                if p.i in seen: continue
                hit = False
                for d, cond, pol in p.succ:
                    if d is n and cond is not None and not isinstance(pol, tuple) and cond[0] != "ret":
                        conds.append((self.g.T(cond[0], cond[1], {}), pol)); hit = True
                if not hit and len(seen) < 30: seen.add(p.i); work.append(p)
        if not conds:
            if self.fn in self.A.tops: self.bad.setdefault((ev.ctx.fn.qn, "end"), (ev.loc(), "%s ends the program" % self.fn.disp))
            return
        self.A.rep.count("assertions", 1 if self.A.final else 0, "%s:%s" % (ev.loc(), self.fn.name))
        for t, pol in conds:
            fs = atoms(self.C, t, pol)
            if any(holds(s, negate(f)) for f in fs): continue
            if len(fs) == 1: self.demand(ev, s, negate(fs[0]), "an assertion fails")

    def callee(self, ev, s):
        P = self.A.P
        cal = ev.raw.get("callee")
        if not cal: return
        f = P.fn_of(cal)
        if f is None: return
        need = self.A.need.get(f.fid)
        if not need: return
        this = self.C(ev.obj) if ev.obj is not None else ("obj",)
        ps = [self.C(a) for a in ev.args]
        for (a, p), (loc, what) in need.items():
            b = subst(a, this, ps)
            if b[0] in RELS and isinstance(b[2], tuple) and b[2][0] == "c" and isinstance(b[2][1], int): b = (b[0], b[1], b[2][1])
            elif b[0] in RELS and b[1][0] == "c" and isinstance(b[2], tuple): b = (SWAP[b[0]], b[2], b[1][1])
            b = recanon(P, b)
            self.demand(ev, s, (b, p), "%s (%s)" % (what, loc) if "(" not in what else what)

    def reads(self, ev, s):
        """Uses of elements, ends, optionals and integers in the expression evaluated here."""
        fn = ev.ctx.fn; P = self.A.P; n = fn.nodes.get(ev.n)
        if n is None: return
        if n["k"] == "DeclStmt": return self.integers(ev, s)
        cal = n.get("callee")
        if not cal: return
        T = lambda i: self.C(self.g.T(ev.ctx, i, {}))
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and len(n["args"]) == 1 or n["k"] == "CXXMemberCallExpr" and cal["n"] in ("operator->", "operator*"):
            o = T(n["args"][0]) if n["k"] == "CXXOperatorCallExpr" else T(n["obj"])
            if cal.get("rec") == "std::optional":
                v = self.g.T(ev.ctx, n["args"][0] if n["k"] == "CXXOperatorCallExpr" else n["obj"], {})
                if self.opt(v):
                    self.A.rep.count("uses of an optional", 1 if self.A.final else 0, "%s %s" % (ev.loc(), show(v)))
                    if not holds(s, (("set", self.C(v)), True)):
                        self.bad.setdefault((ev.ctx.fn.qn, "optional", show(v)), (ev.loc(), "%s: %s is used where nothing makes sure that it holds a value" % (self.fn.disp, show(v))))
            elif o[0] == "find":
                self.A.rep.count("uses of a found position", 1 if self.A.final else 0, "%s %s" % (ev.loc(), showt(o)))
                if not holds(s, (("has", o[1], o[2]), True)): self.bad.setdefault((ev.ctx.fn.qn, "find"), (ev.loc(), "%s: the entry found under %s is used where it may not exist" % (self.fn.disp, showt(o[2]))))
            elif o[0] == "call" and texts.fname(o[1]) in FINDS:
                self.A.rep.count("uses of a found position", 1 if self.A.final else 0, "%s %s" % (ev.loc(), showt(o)))
                if not holds(s, (("end", o), False)): self.bad.setdefault((ev.ctx.fn.qn, "find"), (ev.loc(), "%s: the result of %s is used where it may be the end" % (self.fn.disp, texts.fname(o[1]))))
            return
        o = i = None
        if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and len(n["args"]) == 2:
            ct = P.types[fn.nodes[n["args"][0]]["t"]]["s"] if n["args"][0] in fn.nodes and fn.nodes[n["args"][0]].get("t") is not None else ""
            if "map" in ct.split("<")[0]: return
            o, i = T(n["args"][0]), T(n["args"][1])
        elif n["k"] == "CXXMemberCallExpr" and cal["n"] in ("front", "back") and not n.get("args"): o, i = T(n["obj"]), ("c", 0)
        if o is not None and self.input(o) and o[0] in ("list", "string", "as", "deref", "at", "idx", "v", "call"):
            self.A.rep.count("element accesses", 1 if self.A.final else 0, "%s %s" % (ev.loc(), showt(o)))
            if i[0] == "c" and isinstance(i[1], int):
                if not holds(s, ((">", ("size", o), i[1]), True)) and not holds(s, ((">=", ("size", o), i[1] + 1), True)): self.bad.setdefault((ev.ctx.fn.qn, "element"), (ev.loc(), "%s: element %d of %s is read where nothing makes sure that it exists" % (self.fn.disp, i[1], showt(o))))
            elif not any(f[0] in RELS and (f[1] == i or f[2] == i or isinstance(f[1], tuple) and contains(f[1], i) or isinstance(f[2], tuple) and contains(f[2], i)) for f, p in s):
                self.bad.setdefault((ev.ctx.fn.qn, "element"), (ev.loc(), "%s: element %s of %s is read without comparing the index with anything" % (self.fn.disp, showt(i), showt(o))))
        self.integers(ev, s)

    def integers(self, ev, s):
        """Input integers handed to something unsigned or narrower."""
        fn = ev.ctx.fn; P = self.A.P; n = fn.nodes.get(ev.n); pairs = []
        if n["k"] == "DeclStmt": return
        cal = n.get("callee")
        if not cal or cal.get("qn", "").startswith(("std::", "bencode::", "fmt::")): return
        for a, y in zip(ev.args or [], cal.get("pt", [])): pairs.append((a, P.types[y]))
        for a, y in pairs:
            if "pointee" in y and y.get("ref"): y = P.types[y["pointee"]]
            if not (y.get("bits") or y.get("bool")) or y.get("float"): continue
            x = self.C(a)
            while x[0] == "op" and x[1] == "!=" and x[3] == ("c", 0) and y.get("bool"): x = x[2]
            if x[0] not in ("integer", "as"): continue
            self.A.rep.count("integers taken over", 1 if self.A.final else 0, "%s %s" % (ev.loc(), showt(x)))
            lo, hi, ne = interval(s, x); bits = y.get("bits", 1); sign = y.get("sign")
            mn = -(1 << (bits - 1)) if sign else 0; mx = (1 << (bits - (1 if sign else 0))) - 1
            if y.get("bool"): sign = False; mn, mx = 0, 1
            badlo = lo < mn and mn > -(1 << 63); badhi = hi > mx and mx < (1 << 63) - 1
            if badlo and hi < INF and self.unsigned_compare(ev, x): badlo = False
            if badlo or badhi: self.bad.setdefault((ev.ctx.fn.qn, "integer"), (ev.loc(), "%s: an integer of the metafile is handed to %s as %s without excluding %s" % (self.fn.disp, cal["n"], y["s"], " and ".join(["negative values"] * badlo + ["values above %d" % mx] * badhi))))

    def unsigned_compare(self, ev, x):
        P = self.A.P
        for c in self.g.ctxs:
            for n in c.fn.nodes.values():
                if n["k"] == "BinaryOperator" and n.get("op") in NEG:
                    for o in n["c"]:
                        t = c.fn.nodes.get(o, {}).get("t")
                        if t is not None and t >= 0 and P.types[t].get("bits") and not P.types[t].get("sign") and self.C(self.g.T(c, o, {})) == x: return True
        return False


def field(P, t):
    """A member of an object built here is what its constructor stores there."""
    b = t[1]
    if b[0] not in ("ctor",): return t
    key = (b[1], len(b[2]), t[2])
    memo = P.__dict__.setdefault("_ctorfield", {})
    if key not in memo:
        memo[key] = None
        for f in P.funcs.values():
            if f.kind == "ctor" and f.rec == b[1] and len(f.params) == len(b[2]) and f.blocks and not f.raw.get("copy") and not f.raw.get("move"):
                g = Graph(P, f, inline=lambda x: False); C = Canon(g)
                for bl in f.blocks.values():
                    for e in bl["e"]:
                        if isinstance(e, dict) and e.get("x") == "init" and e.get("f") == t[2]: memo[key] = C(g.T(g.ctxs[0], e["e"], {}))
    r = memo[key]
    return t if r is None else subst(r, ("obj",), b[2])


def recanon(P, t):
    """Forms that canonical terms take once parameters are replaced."""
    if not isinstance(t, tuple): return t
    t = tuple(recanon(P, x) for x in t)
    if t and t[0] == "f" and len(t) == 3 and isinstance(t[1], tuple): t = field(P, t)
    if t and t[0] == "f" and len(t) == 3 and t[2] == "second" and t[1][0] == "deref" and t[1][1][0] == "find": return ("at", t[1][1][1], t[1][1][2])
    return t


def showt(t):
    if t[0] in ("dict", "list", "string", "integer", "as"): return showt(t[1])
    if t[0] == "at": return "%s[%s]" % (showt(t[1]), showt(t[2]))
    if t[0] == "size": return "the size of " + showt(t[1])
    if t[0] == "p": return "argument %d" % (t[1] + 1)
    if t[0] in ("find", "has"): return "%s in %s" % (showt(t[2]), showt(t[1]))
    if t[0] == "pow2": return showt(t[1])
    try: return show(t)
    except Exception: return str(t)[:60]


def showf(f):
    a, p = f
    if a[0] == "holds": return "%s is%s a %s" % (showt(a[2]), "" if p else " not", a[1])
    if a[0] == "has": return "%s is%s in %s" % (showt(a[2]), "" if p else " not", showt(a[1]))
    if a[0] == "pow2": return "%s is%s a power of two" % (showt(a[1]), "" if p else " not")
    if a[0] == "set": return "%s holds a value" % showt(a[1])
    if a[0] in RELS: return "%s %s %s" % (showt(a[1]), a[0], a[2] if isinstance(a[2], int) else showt(a[2]))
    return "%s is %s" % (showt(a), "true" if p else "false")


class Analysis:
    def __init__(self, rep, P, tops):
        self.rep = rep; self.P = P; self.tops = tops; self.need = {}; self.final = False
        self.files = {f.file for f in tops}
        # functions reachable from the parser
        self.order = []; seen = set(); self.callees = {}; self.back = set()
        onstack = []
        def go(f):
            seen.add(f.fid); onstack.append(f.fid); cs = []
            for n in f.nodes.values():
                c = P.fn_of(n["callee"]) if "callee" in n else None
                if c is None or not c.blocks or not c.file.startswith(REPO): continue
                cs.append(c)
                if c.fid not in seen: go(c)
                elif c.fid in onstack: self.back.add((f.fid, c.fid))
            self.callees[f.fid] = cs
            onstack.pop(); self.order.append(f)
        for f in tops:
            if f.fid not in seen: go(f)
        self.asserts = {}
    def has_assert(self, f, stack=()):
        if f.fid in self.asserts: return self.asserts[f.fid]
        if f.fid in stack: return False
        r = any("callee" in n and n["callee"]["n"] in FAIL for n in f.nodes.values()) or any(self.has_assert(c, stack + (f.fid,)) for c in self.callees.get(f.fid, []))
        self.asserts[f.fid] = r
        return r
    def inlines(self, x):
        if x.is_lambda: return True
        return x.file in self.files and len(x.nodes) < 160 and x.kind == "func" and not self.has_assert(x) and "bencode" not in "".join(self.P.ts(v["t"]) for v in x.vars.values() if v.get("k") == "local")


def check_P19(rep):
    rep.rule("Every function the metafile parser can call is explored with the facts its tests establish (kind of a value, presence of a key, sizes, ranges, powers of two). The conditions of assertions that are not established become obligations of the callers, up to the parser itself; one that concerns the input and is nowhere established is a violation. "
             "So is the use of an entry that was looked up but may be absent, of an optional nothing was stored in, of an element whose index was not compared with a size, and of an input integer as unsigned or narrower value without a range test. Conditions about internal state only are counted, not decided.")
    P = facts.full()
    tops = [f for f in P.funcs.values() if f.qn == "dottorrent::parse_metafile" and f.blocks]
    if not tops: raise Broken("dottorrent::parse_metafile not found")
    A = Analysis(rep, P, tops)
    bad = {}
    A.final = True
    for f in A.order:
        if f.is_lambda: continue
        if f.file not in A.files and not A.has_assert(f): rep.count("functions without assertions", 1, f.disp); continue
        F = Fun(A, f).run()
        if F.need: A.need[f.fid] = F.need
        if f.file in A.files:
            for k, v in F.bad.items(): bad.setdefault(k, v)
        rep.count("functions explored", 1, f.disp)
        if f.file in A.files and f.kind == "func" and any(a == f.fid or b == f.fid for a, b in A.back): pass
        if f.raw.get("noexcept") or f.raw.get("nothrow"): self_throw(rep, P, f, bad)
    rep.count("obligations left to callers", sum(len(v) for v in A.need.values()))
    rep.count("parsers", len(tops))
    for k, (loc, msg) in bad.items(): rep.violation(":".join(str(x) for x in k), loc, msg)
    rep.need("parsers", 2); rep.need("functions explored", 20); rep.need("assertions", 20); rep.need("uses of a found position", 20)


def self_throw(rep, P, f, bad):
    g = Graph(P, f, inline=lambda x: x.is_lambda)
    E = Explorer(g, frozenset(), lambda ev, s, v: (s | {ev.loc()} if ev.kind == "throw" else s), None, track=False).run()
    rep.count("functions that promise not to throw", 1, f.disp)
    for s in E.at_throw:
        if s: bad.setdefault((f.qn, "noexcept"), (sorted(s)[0], "%s promises not to throw and throws, which ends the program" % f.disp))
