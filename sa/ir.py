"""Interprocedural flow graphs and a property-simulation engine over exported functions.

A Graph is built from a root function by splicing in the bodies of the repository's own
callees (helpers, lambdas, constructors), so an extracted helper or a merged one yields the
same event sequence.  Values are compared as access-path terms.  explore() propagates
finite abstract states along the edges (dataflow with a powerset domain; nothing is run and
no solver is used)."""
from collections import deque
from facts import Broken, REPO

STRIP = {"ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
         "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
         "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr", "FullExpr", "CXXStdInitializerListExpr",
         "UnresolvedLookupExpr", "CXXDynamicCastExpr"}
IDENT = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::static_pointer_cast", "std::launder"}
SMART = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::__weak_ptr", "std::reference_wrapper"}
ATOMIC = {"std::atomic", "std::__atomic_base", "std::atomic_flag", "std::__atomic_float"}


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str): yield from subterms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple): yield from subterms(y)


def contains(t, s):
    return any(x == s for x in subterms(t))


def show(t):
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if k == "this": return "this"
    if k == "p": return "arg%s" % (t[1] + 1)
    if k == "v": return t[3] if len(t) > 3 else "local%s" % t[2]
    if k == "g": return t[1]
    if k == "c": return str(t[1])
    if k == "str": return repr(t[1])
    if k == "f": return "%s.%s" % (show(t[1]), t[2]) if t[1] != ("this",) else t[2]
    if k == "deref": return "*" + show(t[1])
    if k == "addr": return "&" + show(t[1])
    if k == "op": return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "un": return t[1] + show(t[2])
    if k == "idx": return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "call": return "%s%s(%s)" % (show(t[2]) + "." if t[2] else "", t[1].split("::")[-1], ", ".join(show(a) for a in t[3]))
    if k == "ctor": return "%s{%s}" % (t[1], ", ".join(show(a) for a in t[2]))
    return "<" + k + ">"


class Ctx:
    __slots__ = ("id", "fn", "this", "params", "parent", "site", "lex", "inl", "depth", "consts", "lamret")
    def __init__(self, id, fn, this, params, parent, site, lex, depth):
        self.id = id; self.fn = fn; self.this = this; self.params = params
        self.parent = parent; self.site = site; self.lex = lex; self.inl = {}; self.depth = depth; self.lamret = {}


class Node:
    __slots__ = ("i", "kind", "ctx", "n", "x", "succ", "pred")
    def __init__(self, i, kind, ctx, n=None, x=None):
        self.i = i; self.kind = kind; self.ctx = ctx; self.n = n; self.x = x; self.succ = []; self.pred = []
    def loc(self):
        f = self.ctx.fn
        if self.x and isinstance(self.x, dict) and self.x.get("l"): return "%s:%d" % (f.file.replace(REPO + "/", ""), self.x["l"])
        return f.loc(self.n)


def scalar(P, t):
    y = P.types[t] if t is not None and t >= 0 else {}
    return not y.get("ref") and ("bits" in y or y.get("ptr") or y.get("float") or False)


class Graph:
    def __init__(self, P, root, inline=None, max_depth=7, lambda_calls=True, this=("this",), params=None, narrow=False):
        self.narrow = narrow
        self.P = P; self.root = root; self.nodes = []; self.ctxs = []
        self.inline = inline or (lambda fn: True); self.max_depth = max_depth; self.lambda_calls = lambda_calls
        self.inlined = set()
        self._vi = {}
        ps = params if params is not None else [("p", i) for i in range(len(root.params))]
        self.entry = self._new("entry", None)
        self.exit = self._new("exit", None)
        c = self._ctx(root, this, ps, None, None, None)
        self.entry.ctx = self.exit.ctx = c
        a, b, th = self._splice(c, [root.fid])
        self._edge(self.entry, a); self._edge(b, self.exit)
        self.throw_exit = self._new("throwexit", c)
        for t in th: self._edge(t, self.throw_exit)

    # -- construction ---------------------------------------------------------
    def _new(self, kind, ctx, n=None, x=None):
        nd = Node(len(self.nodes), kind, ctx, n, x); self.nodes.append(nd); return nd

    def _edge(self, a, b, cond=None, pol=None):
        a.succ.append((b, cond, pol)); b.pred.append(a)

    def _ctx(self, fn, this, params, parent, site, lex):
        c = Ctx(len(self.ctxs), fn, this, params, parent, site, lex, 0 if parent is None else parent.depth + 1)
        self.ctxs.append(c); self.inlined.add(fn.fid); return c

    def _target(self, ctx, n):
        """Functions a call/construct node may enter: list of (fn, this_term, arg node ids, lex ctx, kind)."""
        P = self.P; res = []
        callee = n.get("callee")
        k = n["k"]
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "UserDefinedLiteral"):
            if callee:
                if callee.get("lambda") and k == "CXXOperatorCallExpr":
                    lam = self.T(ctx, n["args"][0], {})
                    if isinstance(lam, tuple) and lam[0] == "lam":
                        fn = P.fn_of(callee)
                        if fn: return [(fn, None, n["args"][1:], self.ctxs[lam[1]])]
                    fn = P.fn_of(callee)
                    return [(fn, None, n["args"][1:], ctx)] if fn and fn.fid not in self.inlined else []
                fn = P.fn_of(callee)
                cands = []
                if fn is not None: cands.append(fn)
                if callee.get("virt") and not n.get("qualified"):
                    for o in self._overriders(P.alias.get(callee["fid"], callee["fid"])): cands.append(o)
                for fn in cands:
                    if k == "CXXMemberCallExpr":
                        res.append((fn, "obj", n["args"], None))
                    elif k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        res.append((fn, "new", n["args"], None))
                    elif k == "CXXOperatorCallExpr" and callee.get("rec") and not callee.get("static"):
                        res.append((fn, "arg0", n["args"][1:], None))
                    else:
                        res.append((fn, None, n["args"], None))
        return res

    def _overriders(self, fid, seen=None):
        out = []
        for o in self.P.overriders.get(fid, []):
            out.append(o); out += self._overriders(o.fid)
        return out

    def _splice(self, ctx, stack):
        """Returns (entry node, exit node, [throw nodes])."""
        fn = ctx.fn
        a = self._new("enter", ctx); b = self._new("leave", ctx); throws = []
        if not fn.blocks:
            self._edge(a, b); return a, b, throws
        first = {}; last = {}
        # create per-block chains
        pend = []
        trys = {}
        for tid, t in fn.nodes.items():
            if t["k"] == "CXXTryStmt":
                cov = set(t["covers"])
                for i in cov:
                    if i not in trys or len(trys[i][1]) > len(cov): trys[i] = (tid, cov)
        disp = {blk["tn"]: bid for bid, blk in fn.blocks.items() if blk.get("tk") == "CXXTryStmt"}
        eh = []
        for bid, blk in fn.blocks.items():
            f = self._new("block", ctx, None, blk); first[bid] = f; cur = f
            for e in blk["e"]:
                prev = cur; mine = []
                cur = self._elem(ctx, e, cur, stack, mine, blk)
                tid = trys[e][0] if isinstance(e, int) and e in trys else None
                if tid is not None and tid in disp:
                    for t in mine: eh.append((t, tid))
                    cal = fn.nodes[e].get("callee")
                    if cal and not cal.get("nothrow"): eh.append((prev, tid))
                else: throws.extend(mine)
                if cur is None: break
            last[bid] = cur
        for nd, tid in eh: self._edge(nd, first[disp[tid]], None, ("eh", tid))
        handlers = {}
        for bid, blk in fn.blocks.items():
            cur = last[bid]
            if cur is None: continue
            if bid == fn.exit:
                self._edge(cur, b); continue
            tk = blk.get("tk"); tc = blk.get("tc"); su = blk["s"]
            if tk in ("CXXTryStmt",):
                for s in su:
                    if s is not None: self._edge(cur, first[s])
                continue
            if tk == "SwitchStmt" and tc is not None:
                vals = []
                for s in su:
                    if s is None: continue
                    sb = fn.blocks[s]
                    v = None
                    if sb.get("lk") == "CaseStmt": v = fn.nodes[fn.nodes[sb["ln"]]["lhs"]].get("v")
                    vals.append((s, v))
                for s, v in vals:
                    if v is not None: self._edge(cur, first[s], (ctx, tc), ("case", v))
                    else: self._edge(cur, first[s], (ctx, tc), ("default", tuple(x for _, x in vals if x is not None)))
                continue
            if tc is not None and len(su) == 2 and not blk.get("ttmp") and not blk.get("tvb"):
                for s, pol in zip(su, (True, False)):
                    if s is not None: self._edge(cur, first[s], (ctx, tc), pol)
                continue
            if tk == "CXXForRangeStmt" and len(su) == 2:
                for s, pol in zip(su, (True, False)):
                    if s is not None: self._edge(cur, first[s], None, ("range", pol))
                continue
            if self._ends_throw(fn, blk): continue
            for s in su:
                if s is not None: self._edge(cur, first[s])
        self._edge(a, first[fn.entry])
        # connect throwing: handled by CFG (throw inside try goes to handler block)
        return a, b, throws

    @staticmethod
    def _ends_throw(fn, blk):
        for e in reversed(blk["e"]):
            if isinstance(e, int):
                k = fn.nodes[e]["k"]
                if k == "CXXThrowExpr": return True
                if "callee" in fn.nodes[e] and fn.nodes[e]["callee"].get("noreturn"): return True
        return bool(blk.get("nr"))

    def _elem(self, ctx, e, cur, stack, throws, blk):
        fn = ctx.fn
        if isinstance(e, dict):
            kind = e["x"]
            if kind == "init":
                n = self._new("init", ctx, e["e"], e)
            else:
                n = self._new(kind, ctx, e.get("e"), e)
            self._edge(cur, n); return n
        n = fn.nodes[e]
        nd = self._new("eval", ctx, e)
        self._edge(cur, nd)
        if n["k"] == "CXXThrowExpr":
            throws.append(nd)
            return nd
        if n.get("callee", {}).get("noreturn"):
            nd.kind = "noret"; return nd
        out = nd
        tg = self._target(ctx, n) if "callee" in n else []
        tg = [t for t in tg if t[0] is not None and t[0].fid not in stack and ctx.depth < self.max_depth and self.inline(t[0])
              and (t[0].blocks or not t[0].raw.get("defaulted"))]
        if tg:
            join = self._new("aftercall", ctx, e)
            ctx.inl.setdefault(e, [])
            for f, how, args, lex in tg:
                if how == "obj": this = self.T(ctx, n["obj"], {}, static=True) if "obj" in n else ("opq", ctx.id, e)
                elif how == "arg0": this = self.T(ctx, n["args"][0], {}, static=True)
                elif how == "new": this = self._ctor_target(ctx, e)
                else: this = lex.this if lex is not None else None
                if how == "obj" and ctx.fn.nodes[n["obj"]].get("t") is not None and self.P.types[ctx.fn.nodes[n["obj"]]["t"]].get("ptr"):
                    this = self.deref(this)
                pars = []
                for i in range(len(f.params)):
                    pars.append(("arg", ctx.id, args[i]) if i < len(args) else ("p?", i))
                c = self._ctx(f, this, pars, ctx, e, lex)
                ctx.inl[e].append(c)
                a, b, th = self._splice(c, stack + [f.fid])
                self._edge(nd, a); self._edge(b, join)
                throws.extend(th)
            if len(ctx.inl[e]) and n.get("callee", {}).get("virt") and self.P.fn_of(n["callee"]) is None and not tg:
                self._edge(nd, join)
            out = join
        elif self.lambda_calls and "callee" in n:
            # a lambda passed to a library function: it may run any number of times there
            lams = []
            for aid in n.get("args", []):
                t = self.T(ctx, aid, {}, static=True)
                if isinstance(t, tuple) and t[0] == "lam": lams.append(t)
            lams = [t for t in lams if t[2] in self.P.funcs or any(s in self.P.funcs for s in t[3])]
            if lams and not self._spawns(n) and ctx.depth < self.max_depth:
                join = self._new("aftercall", ctx, e)
                predwait = n["callee"]["n"] if n["callee"].get("rec") in ("std::condition_variable", "std::_V2::condition_variable_any", "std::condition_variable_any") and n["callee"]["n"].startswith("wait") and len(lams) == 1 else None
                for t in lams:
                    lex = self.ctxs[t[1]]
                    for fid in ([t[2]] if t[2] in self.P.funcs else [s for s in t[3] if s in self.P.funcs]):
                        f = self.P.funcs[fid]
                        if f.fid in stack: continue
                        c = self._ctx(f, lex.this, [("lamarg", ctx.id, e, i) for i in range(len(f.params))], ctx, e, lex)
                        a, b, th = self._splice(c, stack + [f.fid])
                        mark = self._new("lambegin", ctx, e, {"fid": fid, "c": c}); mend = self._new("lamend", ctx, e, {"fid": fid, "c": c})
                        self._edge(nd, mark); self._edge(mark, a); self._edge(b, mend)
                        if predwait:
                            self._edge(mend, join, ("ret", c.id), True if predwait == "wait" else ("any",))
                            self._edge(mend, mark, ("ret", c.id), False)
                            ctx.lamret[e] = c
                        else:
                            self._edge(mend, join); self._edge(mend, mark)
                        throws.extend(th)
                if not predwait: self._edge(nd, join)
                out = join
        return out

    def _spawns(self, n):
        rec = n.get("callee", {}).get("rec", "") or ""
        qn = n.get("callee", {}).get("qn", "")
        return rec in ("std::thread", "std::jthread") or qn in ("std::async", "std::make_unique", "std::make_shared") or "::emplace_back" in qn and "thread" in n["callee"].get("full", "")

    def _ctor_target(self, ctx, e):
        # the object under construction: variable, member or a temporary
        fn = ctx.fn; p = fn.parents; cur = e
        for d, v in fn.vars.items():
            i = v.get("init")
            j = i
            while j is not None and j in fn.nodes:
                if j == e: return ("v", ctx.id, d, v["n"])
                if fn.nodes[j]["k"] in STRIP and fn.nodes[j].get("c"): j = fn.nodes[j]["c"][0]
                else: break
        for blk in fn.blocks.values():
            for x in blk["e"]:
                if isinstance(x, dict) and x.get("x") == "init":
                    j = x["e"]
                    while j is not None and j in fn.nodes:
                        if j == e:
                            if "f" in x: return ("f", ctx.this, x["f"])
                            return ctx.this
                        if fn.nodes[j]["k"] in STRIP and fn.nodes[j].get("c"): j = fn.nodes[j]["c"][0]
                        else: break
        return ("tmp", ctx.id, e)

    # -- terms ----------------------------------------------------------------
    @staticmethod
    def deref(t):
        if t == ("this",): return t
        if isinstance(t, tuple) and t[0] == "addr": return t[1]
        return ("deref", t)

    def _var(self, ctx, d, env, static):
        c = ctx
        while c is not None:
            if d in c.fn.vars and (c.fn.vars[d]["k"] in ("local", "static") and self._declares(c.fn, d) or d in c.fn.params): break
            c = c.lex
        if c is None:
            v = ctx.fn.vars.get(d)
            if v and v["k"] == "global":
                q = v.get("qn", v["n"]); x = self.P.const_text(q)
                return ("g", q) if x is None else ("str", x)
            return ("v", -1, d, v["n"] if v else "?")
        v = c.fn.vars[d]
        if (c.id, d) in env: return env[(c.id, d)]
        if d in c.fn.params:
            i = c.fn.params.index(d)
            t = c.params[i] if i < len(c.params) else ("p?", i)
            if t[0] == "arg":
                ty = self.P.types[v["t"]]
                if ty.get("ref") or not self._mutated(c.fn, d):
                    return self.T(self.ctxs[t[1]], t[2], env, static)
                return ("v", c.id, d, v["n"])
            if not self.P.types[v["t"]].get("ref") and t[0] == "p" and self._mutated(c.fn, d): return ("v", c.id, d, v["n"])
            return t
        ty = self.P.types[v["t"]]
        if v.get("init") is not None and v["init"] >= 0:
            if ty.get("ref"): return self.T(c, v["init"], env, static)
            if ty.get("lambda"): return self.T(c, v["init"], env, static)
            if static and scalar(self.P, v["t"]) and not self._mutated(c.fn, d): return self.T(c, v["init"], env, static)
            if self._iface(ty) and not self._mutated(c.fn, d): return self.T(c, v["init"], env, static)
        return ("v", c.id, d, v["n"])

    @staticmethod
    def _iface(ty):
        return ty.get("rec") in ("std::shared_ptr", "std::span", "std::basic_string_view", "std::reference_wrapper")

    def _declares(self, fn, d):
        k = (fn.fid, "decls")
        if k not in self._vi:
            s = set()
            for n in fn.nodes.values():
                if n["k"] == "DeclStmt": s.update(n["vars"])
                if n["k"] == "CXXForRangeStmt" and "lv" in n: s.add(n["lv"])
                if n["k"] == "CXXCatchStmt" and "exc" in n: s.add(n["exc"])
                if n["k"] == "DeclRefExpr" and "hold" in n: s.add(n["hold"])
                for b in (): pass
            # range-for helper variables are implicit declarations
            for dd, v in fn.vars.items():
                if v["n"].startswith("__"): s.add(dd)
            for n in fn.nodes.values():
                if n["k"] == "LambdaExpr":
                    for q in n.get("caps", []):
                        if q.get("init"): s.add(q["d"])
            self._vi[k] = s
        return d in self._vi[k]

    def _mutated(self, fn, d):
        """May local/parameter d be changed after its initialisation (assignment, ++, address or reference taken, non-const call)?"""
        k = (fn.fid, "mut")
        if k not in self._vi:
            mut = set()
            fns = [fn] + [f for f in self.P.funcs.values() if f.is_lambda and f.file == fn.file and fn.line <= f.line <= fn.raw["end"] and f is not fn]
            for f in fns:
                for i, n in f.nodes.items():
                    if n["k"] == "DeclRefExpr" and n["dk"] in ("Var", "ParmVar") and is_write(f, i): mut.add(n["d"])
                    if n["k"] == "LambdaExpr":
                        pass
            self._vi[k] = mut
        return d in self._vi[k]

    def T(self, ctx, nid, env=None, static=False):
        env = env or {}
        if nid is None or nid < 0: return ("none",)
        fn = ctx.fn; n = fn.nodes.get(nid)
        if n is None: return ("opq", ctx.id, nid)
        k = n["k"]
        if "v" in n and n["v"] is not None: return ("c", int(n["v"]) if isinstance(n["v"], str) and n["v"].isdigit() else n["v"])
        c = n.get("c", [])
        if k in STRIP:
            if self.narrow and c and n.get("t") is not None and isinstance(c[0], int) and c[0] in fn.nodes and fn.nodes[c[0]].get("t") is not None:
                a, b = self.P.types[n["t"]], self.P.types[fn.nodes[c[0]]["t"]]
                if a.get("bits") and b.get("bits") and not a.get("bool") and (a["bits"] < b["bits"] or a["bits"] == b["bits"] and a.get("sign") and not b.get("sign")):
                    r = self.T(ctx, c[0], env, static)
                    return r if r[0] == "c" else ("narrow", a["bits"], bool(a.get("sign")), r)
            if k == "CXXFunctionalCastExpr" or k == "CXXStdInitializerListExpr" or c: return self.T(ctx, c[0], env, static) if c else ("none",)
        if k == "CXXThisExpr": return ("this",) if ctx.this in (None, ("this",)) else ("addr", ctx.this)
        if k == "DeclRefExpr":
            if n["dk"] in ("Function", "CXXMethod"): return ("fn", n["qn"], n["fn"]["fid"])
            if n["dk"] == "EnumConstant": return ("c", n["ev"])
            if n["dk"] == "Binding":
                if "bx" in n:
                    return self.T(ctx, n["bx"], env, static)
                return ("bind", self._var(ctx, n.get("decomp"), env, static), n.get("bi"))
            if n["dk"] in ("Var", "ParmVar", "VarTemplateSpecialization", "Decomposition", "ImplicitParam"): return self._var(ctx, n["d"], env, static)
            if n["dk"] == "NonTypeTemplateParm": return ("g", n["qn"])
            return ("g", n["qn"])
        if k == "MemberExpr":
            b = self.T(ctx, c[0], env, static) if c else ("none",)
            if n["arrow"]: b = self.deref(b)
            if n["dk"] in ("Field", "IndirectField"): return ("f", b, n["m"])
            if n["dk"] in ("Var", "EnumConstant"): return ("g", n["qn"])
            return ("mth", b, n["m"])
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            if nid in ctx.inl and ctx.inl[nid]:
                cs = ctx.inl[nid]
                if len(cs) == 1:
                    key = ("ret", cs[0].id)
                    if key in env: return env[key]
                    if static: return self._static_ret(cs[0], env)
                    return key
                for cc in cs:
                    if ("ret", cc.id) in env: return env[("ret", cc.id)]
                return ("ret", cs[0].id)
            if nid in ctx.lamret:
                key = ("ret", ctx.lamret[nid].id)
                return env.get(key, key)
            cal = n.get("callee"); q = cal["qn"] if cal else "?"
            args = n.get("args", [])
            if q in IDENT and args:
                r = self.T(ctx, args[0], env, static)
                return ("addr", r) if q == "std::addressof" else r
            A = [self.T(ctx, a, env, static) for a in args]
            if k == "CXXOperatorCallExpr":
                op = n.get("op")
                if op == "*" and len(A) == 1: return self.deref(A[0])
                if op == "->" and len(A) == 1: return A[0]
                if op == "[]" and len(A) == 2: return ("idx", A[0], A[1])
                if op == "=" : return A[0]
                if op in ("==", "!=", "<", ">", "<=", ">=", "<=>", "+", "-", "/", "%", "|", "&", "^", "&&", "||") and len(A) == 2: return fold(("op", op, A[0], A[1]))
                if op == "*" and len(A) == 2: return fold(("op", "*", A[0], A[1]))
                if op == "()" and A:
                    return ("call", q, A[0], tuple(A[1:]))
                if op in ("!", "~", "-") and len(A) == 1: return fold(("un", op, A[0]))
                if op in ("++", "--", "+=", "-=", "|=", "&=", "^=", "<<", ">>"):
                    if op in ("<<", ">>"): return ("call", q, None, tuple(A))
                    return A[0]
                return ("call", q, None, tuple(A))
            if k == "CXXMemberCallExpr":
                o = self.T(ctx, n["obj"], env, static) if "obj" in n else ("none",)
                ot = fn.nodes[n["obj"]].get("t") if "obj" in n and n["obj"] in fn.nodes else None
                if ot is not None and ot >= 0 and self.P.types[ot].get("ptr"): o = self.deref(o)
                m = cal["n"] if cal else "?"
                rec = cal.get("rec") if cal else None
                if rec in SMART and m == "get": return o
                if rec == "std::reference_wrapper": return o
                if rec in ATOMIC and (m == "load" or m.startswith("operator ")): return o
                if m.startswith("operator "):
                    if rec in SMART or rec == "std::function": return ("op", "!=", o, ("null",))
                    if rec == "std::optional" or rec.endswith("expected"): return ("call", "has_value", o, ())
                    if rec and rec.startswith("std::integral_constant"): return ("call", q, o, ())
                    return ("conv", o)
                if m == "has_value": return ("call", "has_value", o, ())
                if rec in ("std::optional",) and m == "value": return self.deref(o)
                return ("call", q, o, tuple(A))
            return ("call", q, None, tuple(A))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = n.get("args", [])
            if (n.get("copy") or n.get("move")) and a: return self.T(ctx, a[0], env, static)
            A = [self.T(ctx, x, env, static) for x in a]
            return ("ctor", n["rec"], tuple(A))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.get("asg"): return self.T(ctx, c[0], env, static)
            if n["op"] == ",": return self.T(ctx, c[1], env, static)
            return fold(("op", n["op"], self.T(ctx, c[0], env, static), self.T(ctx, c[1], env, static)))
        if k == "CXXRewrittenBinaryOperator":
            return fold(("op", n["op"], self.T(ctx, n["args"][0], env, static), self.T(ctx, n["args"][1], env, static)))
        if k == "UnaryOperator":
            x = self.T(ctx, c[0], env, static)
            if n["op"] == "*": return self.deref(x)
            if n["op"] == "&":
                return x[1] if x[0] == "deref" else ("addr", x)
            if n["op"] in ("++", "--"): return x
            return fold(("un", n["op"], x))
        if k in ("ConditionalOperator",):
            cc = self.T(ctx, c[0], env, static)
            if cc[0] == "c": return self.T(ctx, c[1] if cc[1] else c[2], env, static)
            return ("ite", cc, self.T(ctx, c[1], env, static), self.T(ctx, c[2], env, static))
        if k == "ArraySubscriptExpr": return ("idx", self.T(ctx, c[0], env, static), self.T(ctx, c[1], env, static))
        if k == "LambdaExpr": return ("lam", ctx.id, n.get("fid"), tuple(n.get("spec", [])))
        if k == "StringLiteral": return ("str", n.get("str"))
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr": return ("null",)
        if k == "InitListExpr": return ("init", tuple(self.T(ctx, x, env, static) for x in c))
        if k == "CXXNewExpr": return ("new", ctx.id, nid)
        if k == "FloatingLiteral": return ("c", n["fv"])
        return ("opq", ctx.id, nid)

    def _static_ret(self, c, env):
        rs = []
        for i, n in c.fn.nodes.items():
            if n["k"] == "ReturnStmt": rs.append(n["c"][0] if n.get("c") else None)
        if len(rs) == 1 and rs[0] is not None: return self.T(c, rs[0], env, True)
        return ("ret", c.id)


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b),
       "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b), ">=": lambda a, b: int(a >= b),
       "&&": lambda a, b: int(bool(a) and bool(b)), "||": lambda a, b: int(bool(a) or bool(b)), "&": lambda a, b: a & b, "|": lambda a, b: a | b}


def fold(t):
    if t[0] == "op" and t[2][0] == "c" and t[3][0] == "c" and t[1] in OPS and not isinstance(t[2][1], str) and not isinstance(t[3][1], str):
        try: return ("c", OPS[t[1]](t[2][1], t[3][1]))
        except Exception: return t
    if t[0] == "op" and t[1] in ("&&", "||"):
        a, b = t[2], t[3]
        if a[0] == "c": return (b if a[1] else ("c", 0)) if t[1] == "&&" else (("c", 1) if a[1] else b)
        if b[0] == "c" and t[1] == "&&" and b[1]: return a
        if b[0] == "c" and t[1] == "||" and not b[1]: return a
    if t[0] == "un" and t[1] == "!":
        x = t[2]
        if x[0] == "c": return ("c", int(not x[1]))
        if x[0] == "un" and x[1] == "!": return x[2]
    return t


WRITE_STL_CONST = set()


def is_write(fn, i):
    """Does the use of the lvalue node i (possibly) modify it?  Looks upwards through the expression."""
    par = fn.parents; cur = i
    while cur in par:
        p = par[cur]; n = fn.nodes[p]; k = n["k"]
        if k == "ImplicitCastExpr":
            if n["ck"] in ("LValueToRValue",): return False
            if n["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay", "BaseToDerived"):
                t = fn.P.types[n["t"]]
                if t.get("const") or (n["ck"] == "NoOp" and t.get("ptr") and fn.P.types[t["pointee"]].get("const")): return False
                if n["ck"] == "ArrayToPointerDecay": return _ptr_write(fn, p)
                cur = p; continue
            return False
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXStaticCastExpr", "CXXConstCastExpr"):
            if k == "CXXStaticCastExpr" and fn.P.types[n["t"]].get("const"): return False
            cur = p; continue
        if k == "UnaryOperator":
            if n["op"] in ("++", "--"): return True
            if n["op"] == "&":
                t = fn.P.types[n["t"]]
                return not fn.P.types[t["pointee"]].get("const") if "pointee" in t else True
            return False
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.get("asg") and n["c"][0] == cur: return True
            return False
        if k == "MemberExpr":
            if n.get("arrow"): return False
            if "fn" in n:
                # object of a member call
                return _member_writes(fn, p, n["fn"])
            cur = p; continue
        if k == "ArraySubscriptExpr":
            cur = p; continue
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
            cal = n.get("callee")
            if not cal: return True
            args = n.get("args", [])
            if cur == n.get("obj") and cur not in args:
                t = fn.P.types[fn.nodes[cur]["t"]] if fn.nodes[cur].get("t") is not None else {}
                if t.get("ptr"): return False
                return _member_writes(fn, p, cal)
            if cur not in args: return False
            idx = args.index(cur)
            if cal["n"] in FORWARDS: return False
            if k == "CXXOperatorCallExpr" and cal.get("rec") and not cal.get("static"):
                if idx == 0:
                    if cal.get("const"): return False
                    if n.get("op") in ("*", "->"): return False
                    if n.get("op") == "[]":
                        return _result_written(fn, p)
                    return True
                idx -= 1
            pts = cal.get("pt", [])
            if idx >= len(pts): return True
            t = fn.P.types[pts[idx]]
            if cal["qn"] in ("std::as_const", "std::cref"): return False
            if cal["qn"] in ("std::move", "std::forward", "std::get"):
                return _result_written(fn, p)
            if t.get("ref"): return not t.get("const")
            return False
        if k == "DeclStmt": return False
        return False
    # root expression: initialiser of a reference variable?
    for d, v in fn.vars.items():
        if v.get("init") == cur:
            t = fn.P.types[v["t"]]
            if v["n"].startswith("__range"):      # walking over it changes it only through a loop variable that can
                if "basic_string_view" in t["s"].split("<")[0]: return False
                lv = [fn.P.types[fn.vars[m["lv"]]["t"]] for m in fn.nodes.values() if m["k"] == "CXXForRangeStmt" and m.get("lv") in fn.vars]
                if lv and all(not y.get("ref") or y.get("const") for y in lv): return False
            if t.get("ref") and not t.get("const"): return True
            return False
    for n in fn.nodes.values():
        if n["k"] == "ReturnStmt" and n.get("c") == [cur]:
            t = fn.P.types[fn.raw["ret"]]
            return bool(t.get("ref")) and not t.get("const")
    return False


def _result_written(fn, callnode):
    """Is the reference/iterator produced by this call used to modify?"""
    par = fn.parents; p = callnode
    # step from MemberExpr to its call
    if fn.nodes[p]["k"] == "MemberExpr" and p in par and fn.nodes[par[p]]["k"] == "CXXMemberCallExpr": p = par[p]
    t = fn.P.types[fn.nodes[p]["t"]]
    n = fn.nodes[p]
    if n.get("vk") in ("l", "x"):
        if n.get("vk") == "x":
            # std::move(x): written when consumed by a non-const rvalue reference/by-value construction
            q = par.get(p)
            while q is not None and fn.nodes[q]["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr"): q = par.get(q)
            return q is not None and fn.nodes[q]["k"] in ("CXXConstructExpr", "CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not (fn.P.types[n["t"]].get("bits"))
        return is_write(fn, p)
    return False   # iterators/pointers: tracked by the users of the result


def _ptr_write(fn, p): return True


# members that hand out a part of the object or a position in it, without changing it
PARTS = ("begin", "end", "data", "front", "back", "at", "find", "rbegin", "rend", "value", "get", "top", "operator[]", "operator*", "operator->")
# functions whose forwarding references only pass their arguments on to a constructor
FORWARDS = ("emplace_back", "emplace", "push_back", "make_unique", "make_shared", "make_pair", "make_tuple", "emplace_front")


def _member_writes(fn, p, cal):
    if cal.get("const") or cal.get("static"): return False
    if cal["n"] in PARTS: return _result_written(fn, p)
    return cal["n"] not in ("size", "empty")


# ---- exploration -------------------------------------------------------------
class S:
    """View of the current state handed to clients."""
    __slots__ = ("g", "env", "node")
    def __init__(self, g, env, node): self.g = g; self.env = env; self.node = node
    def T(self, nid, ctx=None): return self.g.T(ctx or self.node.ctx, nid, self.env)


class Event:
    __slots__ = ("kind", "node", "n", "qn", "m", "rec", "obj", "args", "lhs", "rhs", "op", "term", "ctx", "raw", "aids")
    def __init__(self, kind, node, **kw):
        self.kind = kind; self.node = node; self.ctx = node.ctx; self.n = node.n
        for s in ("qn", "m", "rec", "obj", "args", "lhs", "rhs", "op", "term", "raw", "aids"): setattr(self, s, kw.get(s))
    def loc(self): return self.node.loc()


def events(g, node, env):
    """Events produced by evaluating one graph node, in order."""
    ctx = node.ctx; fn = ctx.fn
    if node.kind == "init":
        x = node.x
        if "f" in x:
            return [Event("fieldinit", node, lhs=("f", ctx.this, x["f"]), rhs=g.T(ctx, x["e"], env), raw=x)]
        return []
    if node.kind == "dtor": return [Event("dtor", node, lhs=("v", ctx.id, node.x["d"], fn.vars[node.x["d"]]["n"] if node.x["d"] in fn.vars else "?"), raw=node.x, rec=g.P.types[node.x["t"]].get("rec"))]
    if node.kind == "tdtor":
        n = fn.nodes.get(node.x["e"]); t = g.P.types[n["t"]] if n else {}
        inner = node.x["e"]
        while inner in fn.nodes and fn.nodes[inner]["k"] in STRIP and fn.nodes[inner].get("c"): inner = fn.nodes[inner]["c"][0]
        return [Event("tdtor", node, lhs=("tmp", ctx.id, inner), rec=t.get("rec"), raw=node.x)]
    if node.kind == "lambegin": return [Event("lambegin", node, raw=node.x)]
    if node.kind == "lamend": return [Event("lamend", node, raw=node.x)]
    if node.kind == "leave": return [Event("leave", node)]
    if node.kind not in ("eval", "noret", "aftercall"): return []
    n = fn.nodes[node.n]; k = n["k"]
    if node.kind == "aftercall": return [Event("aftercall", node, raw=n)]
    if k == "MemberExpr" and n["dk"] == "Field": return [Event("touch", node, term=g.T(ctx, node.n, env), raw=n)]
    if k == "DeclRefExpr" and n["dk"] in ("Var",): return [Event("vtouch", node, term=g.T(ctx, node.n, env), raw=n)]
    inl = bool(ctx.inl.get(node.n))
    if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"):
        cal = n.get("callee")
        A = n.get("args", [])
        obj = None; args = A
        if k == "CXXMemberCallExpr":
            obj = g.T(ctx, n["obj"], env) if "obj" in n else None
            ot = fn.nodes[n["obj"]].get("t") if "obj" in n and n["obj"] in fn.nodes else None
            if ot is not None and ot >= 0 and g.P.types[ot].get("ptr"): obj = g.deref(obj)
        elif k == "CXXOperatorCallExpr" and cal and cal.get("rec") and not cal.get("static"):
            obj = g.T(ctx, A[0], env); args = A[1:]
        ts = [g.T(ctx, a, env) for a in args]
        if k == "CXXOperatorCallExpr" and n.get("op") == "=" and not inl:
            return [Event("assign", node, lhs=obj, rhs=ts[0] if ts else None, op="=", raw=n, qn=cal["qn"], rec=cal.get("rec"), aids=args)]
        if k == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=", "|=", "&=", "^=", "++", "--", "*=", "/=") and not inl:
            l = obj if obj is not None else ts[0]
            return [Event("assign", node, lhs=l, rhs=ts[-1] if ts else None, op=n["op"], raw=n, qn=cal["qn"], rec=cal.get("rec"), aids=args)]
        return [Event("icall" if inl else "call", node, qn=cal["qn"] if cal else "?", m=cal["n"] if cal else "?", rec=cal.get("rec") if cal else None, obj=obj, args=ts, raw=n, op=n.get("op"), aids=args)]
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return [Event("ictor" if inl else "ctor", node, rec=n["rec"], qn=n["callee"]["qn"], args=[g.T(ctx, a, env) for a in n.get("args", [])], raw=n, term=g._ctor_target(ctx, node.n), aids=n.get("args", []))]
    if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("asg"):
        return [Event("assign", node, lhs=g.T(ctx, n["c"][0], env), rhs=g.T(ctx, n["c"][1], env), op=n["op"], raw=n)]
    if k == "UnaryOperator" and n["op"] in ("++", "--"):
        return [Event("assign", node, lhs=g.T(ctx, n["c"][0], env), rhs=("c", 1), op=n["op"], raw=n)]
    if k == "DeclStmt":
        r = []
        for d in n["vars"]:
            v = fn.vars[d]
            r.append(Event("decl", node, lhs=("v", ctx.id, d, v["n"]), rhs=g.T(ctx, v["init"], env) if v.get("init", -1) is not None and v.get("init", -1) >= 0 else None, raw=v))
        return r
    if k == "ReturnStmt":
        return [Event("return", node, term=g.T(ctx, n["c"][0], env) if n.get("c") else None, raw=n)]
    if k == "CXXThrowExpr": return [Event("throw", node, raw=n)]
    if k == "CXXDeleteExpr": return [Event("delete", node, obj=g.T(ctx, n["c"][0], env), raw=n)]
    if k == "CXXNewExpr": return [Event("new", node, term=("new", ctx.id, node.n), raw=n)]
    if node.kind == "noret": return [Event("noreturn", node, raw=n)]
    return []


def assigned_var(g, ev):
    """The local variable an assignment writes, even when tracking resolved it to its value."""
    c0 = (ev.raw.get("c") or [None])[0]; fn = ev.ctx.fn; i = c0
    while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr",): i = fn.nodes[i]["c"][0]
    if i in fn.nodes and fn.nodes[i]["k"] == "DeclRefExpr" and fn.nodes[i]["dk"] in ("Var", "ParmVar"):
        return g._var(ev.ctx, fn.nodes[i]["d"], {}, False)
    return ev.lhs


MAXTERM = 60


def _size(t):
    return sum(1 for _ in subterms(t))


class Explorer:
    """transfer(event, ustate, S) -> ustate | list of ustates | None (path ends);
       branch(cond_term, polarity, ustate, S) -> ustate | None."""
    def __init__(self, g, init, transfer, branch=None, limit=400000, track=True, forget=None):
        self.eh = None
        self.forget = forget      # (event, state before, state after) -> access paths whose remembered values are stale
        self.g = g; self.transfer = transfer; self.branch = branch; self.limit = limit; self.track = track
        self.init = init; self.seen = {}; self.at_exit = []; self.at_throw = []; self.steps = 0

    def run(self):
        g = self.g
        start = (self.init, frozenset())
        work = deque([(g.entry, start)])
        self.seen = {g.entry.i: {start: None}}
        while work:
            node, st = work.popleft()
            self.steps += 1
            if self.steps > self.limit: raise Broken("state limit in %s" % g.root)
            if node is g.exit: self.at_exit.append(st[0]); continue
            if node is g.throw_exit: self.at_throw.append(st[0]); continue
            outs = self._node(node, st)
            if node.kind == "noret": continue
            for o in outs:
                env = dict(o[1])
                for (dst, cond, pol) in node.succ:
                    ns = o
                    if cond is not None:
                        cctx, tc = cond
                        if cctx == "ret":
                            if pol == ("any",): t = None
                            else: t = env.get(("ret", tc), ("ret", tc))
                        else: t = g.T(cctx, tc, env)
                        if t is not None:
                            ns = self._branch(node, t, pol, o, env, cond)
                            if ns is None: continue
                    elif isinstance(pol, tuple) and pol[0] == "eh":
                        if self.eh:
                            u = self.eh(node, pol[1], o[0])
                            if u is None: continue
                            ns = (u, o[1])
                    elif isinstance(pol, tuple) and pol[0] == "range" and self.branch:
                        u = self.branch(("range",), pol[1], o[0], S(g, env, node))
                        if u is None: continue
                        ns = (u, o[1])
                    sn = self.seen.setdefault(dst.i, {})
                    if len(sn) > 300: ns = (ns[0], frozenset())      # widen: forget local values
                    if ns not in sn:
                        sn[ns] = (node, st)
                        work.append((dst, ns))
        return self

    def _branch(self, node, t, pol, o, env, cond=None):
        if isinstance(pol, tuple):
            if t[0] == "c":
                if pol[0] == "case" and t[1] != pol[1]: return None
                if pol[0] == "default" and t[1] in pol[1]: return None
            if self.branch:
                u = self.branch(t, pol, o[0], S(self.g, env, node))
                if u is None: return None
                return (u, o[1])
            return o
        neg = False; neg0 = pol
        while t[0] == "un" and t[1] == "!": t = t[2]; neg = not neg
        if neg: pol = not pol
        if t[0] == "c": return o if bool(t[1]) == pol else None
        if t == ("null",): return o if not pol else None
        e2 = o[1]
        if self.track and cond is not None and cond[0] != "ret":
            # remember the outcome of a tested boolean local
            cctx, i = cond; fn = cctx.fn; flip = neg0
            while i in fn.nodes and (fn.nodes[i]["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") or fn.nodes[i]["k"] == "UnaryOperator" and fn.nodes[i]["op"] == "!"):
                if fn.nodes[i]["k"] == "UnaryOperator": flip = not flip
                i = fn.nodes[i]["c"][0]
            if i in fn.nodes and fn.nodes[i]["k"] == "DeclRefExpr" and fn.nodes[i]["dk"] == "Var":
                vt = self.g._var(cctx, fn.nodes[i]["d"], {}, False)
                if vt[0] == "v" and self._isbool(vt):
                    d = dict(env); d[(vt[1], vt[2])] = ("c", int(flip)); e2 = frozenset(d.items())
        if self.branch:
            u = self.branch(t, pol, o[0], S(self.g, env, node))
            if u is None: return None
            return (u, e2)
        return (o[0], e2)

    def _isbool(self, t):
        if t[1] < 0: return False
        f = self.g.ctxs[t[1]].fn
        return t[2] in f.vars and self.g.P.types[f.vars[t[2]]["t"]].get("bool")

    def _node(self, node, st):
        g = self.g; u, envf = st; env = dict(envf)
        evs = events(g, node, env)
        if not evs: return [st]
        cur = [u]
        view = S(g, env, node)
        stale = set()
        for ev in evs:
            nxt = []
            for x in cur:
                r = self.transfer(ev, x, view)
                if r is None: continue
                for y in (r if isinstance(r, list) else [r]):
                    nxt.append(y)
                    if self.forget: stale.update(self.forget(ev, x, y))
            cur = nxt
        # local value tracking
        if self.track:
            for ev in evs: self._env(ev, env)
            if stale:
                for k in [k for k, v in env.items() if v[0] != "old" and any(contains(v, q) for q in stale)]: del env[k]
        f = frozenset(env.items())
        return [(x, f) for x in cur]

    def _env(self, ev, env):
        g = self.g
        def settable(l):
            if l and l[0] == "v" and l[1] >= 0:
                f = g.ctxs[l[1]].fn; v = f.vars.get(l[2])
                if self.track == "bool": return v is not None and bool(g.P.types[v["t"]].get("bool"))
                return v is not None and scalar(g.P, v["t"])
            return False
        def drop(path):
            for k in [k for k, v in env.items() if v[0] != "old" and contains(v, path)]:
                # a remembered truth value of an older state stays usable as such
                if k[0] != "ret" and self._isbool(("v",) + k) and not (path[0] == "v"): env[k] = ("old", env[k])
                else: del env[k]
        if ev.kind == "decl":
            if settable(ev.lhs):
                key = (ev.lhs[1], ev.lhs[2])
                drop(ev.lhs)
                if ev.rhs is not None and _size(ev.rhs) < MAXTERM and not contains(ev.rhs, ev.lhs): env[key] = ev.rhs
                else: env.pop(key, None)
        elif ev.kind == "assign":
            l = ev.lhs
            # the assigned local may itself have been resolved to its value: recover the variable
            tgt = l
            raw = ev.raw
            c0 = (raw.get("c") or [None])[0]
            if c0 is not None:
                fn = ev.ctx.fn; i = c0
                while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr",): i = fn.nodes[i]["c"][0]
                if i in fn.nodes and fn.nodes[i]["k"] == "DeclRefExpr" and fn.nodes[i]["dk"] in ("Var", "ParmVar"):
                    tgt = g._var(ev.ctx, fn.nodes[i]["d"], {}, False)
            if settable(tgt):
                key = (tgt[1], tgt[2]); old = env.get(key)
                drop(tgt)
                r = ev.rhs
                if ev.op == "=" and r is not None and _size(r) < MAXTERM and not contains(r, tgt): env[key] = r
                elif ev.op in ("|=", "&=") and old is not None and old[0] == "c" and r and r[0] == "c": env[key] = ("c", (old[1] | r[1]) if ev.op == "|=" else (old[1] & r[1]))
                else: env.pop(key, None)
            elif l is not None: drop(l)
        elif ev.kind == "return":
            c = ev.ctx
            if ev.term is not None and _size(ev.term) < MAXTERM and (self.track != "bool" or g.P.types[c.fn.raw["ret"]].get("bool")):
                t = ev.term
                env[("ret", c.id)] = t
        elif ev.kind == "leave":
            c = ev.ctx
            for k in [k for k in env if k[0] == c.id]: 
                del env[k]
            for k in [k for k, v in env.items() if k != ("ret", c.id) and any(x[0] == "v" and x[1] == c.id for x in subterms(v))]: del env[k]
        elif ev.kind in ("call", "icall") and ev.obj is not None:
            cal = ev.raw.get("callee") or {}
            if not cal.get("const") and ev.m not in ("begin", "end", "data", "front", "back", "at", "find", "get", "operator*", "operator->", "operator[]"): drop(ev.obj)
        elif ev.kind == "aftercall":
            # the value of a finished call is only needed until its full expression is used; keep
            pass

    def trace(self, node_i, st, maxlen=40):
        """Source lines on a path leading to (node, state)."""
        out = []; g = self.g; cur = (g.nodes[node_i], st)
        while cur is not None:
            nd, s = cur
            if nd.kind in ("eval", "noret"):
                l = nd.loc()
                if not out or out[-1] != l: out.append(l)
            p = self.seen.get(nd.i, {}).get(s)
            cur = p
            if len(out) > 400: break
        out.reverse()
        return out[-maxlen:]


def conjuncts(t, pol):
    """Atomic (term, polarity) facts implied by t having truth value pol."""
    while t[0] == "un" and t[1] == "!": t = t[2]; pol = not pol
    if t[0] == "op" and t[1] == "&&" and pol: return conjuncts(t[2], True) + conjuncts(t[3], True)
    if t[0] == "op" and t[1] == "||" and not pol: return conjuncts(t[2], False) + conjuncts(t[3], False)
    return [(t, pol)]


NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def relation(t, pol):
    """(op, a, b) with polarity folded in, or None."""
    if t[0] == "op" and t[1] in NEG:
        return (t[1] if pol else NEG[t[1]], t[2], t[3])
    return None
