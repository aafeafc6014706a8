"""P04: the object pool (dottorrent::pool::object_pool)."""
import facts
from facts import Broken, REPO
from ir import STRIP, Graph, Explorer, conjuncts, relation, contains, show, subterms, SWAP

REC = "dottorrent::pool::object_pool"
QREC = "dottorrent::concurrent_queue"
CONSTRUCT, RECYCLE = "vf_inst::policy::construct", "vf_inst::policy::recycle"
SP = ("std::shared_ptr", "std::__shared_ptr")
WP = ("std::weak_ptr", "std::__weak_ptr")
ATOMIC = ("std::atomic", "std::__atomic_base", "std::__atomic_float")


def ncall(t):
    """Callee of a call term, looking through std::invoke."""
    if t[0] != "call": return None, ()
    if t[1] == "std::invoke" and t[3] and t[3][0][0] in ("fn", "addr"):
        f = t[3][0] if t[3][0][0] == "fn" else t[3][0][1]
        if f[0] == "fn": return f[1], t[3][1:]
    return t[1], t[3]


def ecall(ev):
    if ev.qn == "std::invoke" and ev.args and ev.args[0][0] in ("fn", "addr"):
        f = ev.args[0] if ev.args[0][0] == "fn" else ev.args[0][1]
        if f[0] == "fn": return f[1], ev.args[1:]
    return ev.qn, ev.args


def resolve(g, t, env=None):
    """A by-value parameter of a spliced-in function stands for the argument it was made from."""
    for _ in range(12):
        if t[0] == "ctor" and t[1] in SP + WP and len(t[2]) == 1: t = t[2][0]; continue
        if t[0] == "v" and t[1] >= 0:
            c = g.ctxs[t[1]]
            if t[2] in c.fn.params:
                p = c.params[c.fn.params.index(t[2])]
                if p[0] == "arg": t = g.T(g.ctxs[p[1]], p[2], env or {}); continue
                return p
        return t
    return t


class Pool:
    def __init__(self, P):
        self.P = P
        self.counter = {}; self.queue = {}
        self.fns = [f for f in P.funcs.values() if f.qn.startswith(REC + "::") and f.blocks]
        self.recs = [r for r in P.records if r["qn"].split("<")[0] == REC or facts.strip_targs(r["qn"]).startswith(REC)]
        self.cfields = set(); self.qfields = set(); self.implqn = None
        for r in self.recs:
            for f in r["fields"]:
                t = P.types[f["t"]]
                if t.get("rec") == QREC: self.qfields.add(f["n"]); self.implqn = facts.strip_targs(r["qn"]); self.impl = r
        self.casvars = set()        # locals that a failed compare-and-exchange fills with the allowance
        if not self.qfields: raise Broken("%s no longer keeps its free objects in a work queue" % REC)
        for f in self.impl["fields"]:
            t = P.types[f["t"]]
            if t.get("rec") in ATOMIC or "bits" in t: self.cfields.add(f["n"])
        if len(self.cfields) != 1: raise Broken("the allowance of %s could not be identified" % REC)

    def is_counter(self, t): return t[0] == "f" and t[2] in self.cfields
    def is_queue(self, t): return t[0] == "f" and t[2] in self.qfields
    def inline(self, f): return not f.qn.startswith(QREC)


def nonzero(pl, t, pol, fetched=True):
    """Does the outcome of a condition say that the allowance was not zero (True), was zero (False) or nothing (None)?"""
    for a, p in conjuncts(t, pol):
        x = a[1] if a[0] == "conv" else a
        if is_cval(pl, x): return p
        r = relation(a, p)
        if not r: continue
        op, x, y = r
        if not is_cval(pl, x) and is_cval(pl, y): op, x, y = SWAP[op], y, x
        if is_cval(pl, x) and y[0] == "c" and isinstance(y[1], int):
            k = y[1]
            if op == ">" and k >= 0 or op == ">=" and k >= 1 or op == "!=" and k == 0 or op == "==" and k > 0: return True
            if op == "==" and k == 0 or op == "<" and k == 1 or op == "<=" and k == 0: return False
    return None


def is_cval(pl, t):
    if pl.is_counter(t) or t in pl.casvars: return True
    if t[0] == "call" and t[2] is not None and pl.is_counter(t[2]) and t[1].split("::")[-1] in ("load", "fetch_sub", "operator--"): return True
    return False


def delta(pl, ev):
    """Change of the allowance made by an event: +n/-n, a term, or None."""
    if ev.kind in ("call", "icall") and ev.obj is not None and pl.is_counter(ev.obj):
        sgn = 1 if ev.m == "fetch_add" else -1 if ev.m == "fetch_sub" else None
        if sgn is None:
            if ev.m in ("store", "exchange", "operator="): return ("set", ev.args[0])
            if ev.m in ("operator++", "operator--"): return ("add", 1 if ev.m.endswith("++") else -1)
            return None
        a = ev.args[0]
        return ("add", sgn * a[1]) if a[0] == "c" else ("addterm", sgn, a)
    if ev.kind == "assign" and ev.lhs is not None and pl.is_counter(ev.lhs):
        if ev.op in ("++", "--"): return ("add", 1 if ev.op == "++" else -1)
        if ev.op in ("+=", "-="):
            s = 1 if ev.op == "+=" else -1
            return ("add", s * ev.rhs[1]) if ev.rhs[0] == "c" else ("addterm", s, ev.rhs)
        if ev.op == "=":
            r = ev.rhs
            if r[0] == "op" and r[1] in ("+", "-") and pl.is_counter(r[2]) and r[3][0] == "c": return ("add", r[3][1] * (1 if r[1] == "+" else -1))
            return ("set", r)
    return None


def typ(P, fn, nid):
    n = fn.nodes.get(nid)
    return P.types[n["t"]] if n and n.get("t", -1) >= 0 else {}


def check_P04(rep):
    rep.rule("Flow analysis of the instantiated pool. Handles: a handle's clean-up may own the object and a weak reference to the pool only; on every path through it, the pool is used only under the outcome of locking that reference, the object is recycled and then queued exactly once if the pool lives and not at all otherwise, and its own reference is given up. "
             "Borrowing: the returned handle owns the object it points to together with such a clean-up; an object is made only after a failed try_pop and a non-zero allowance, with the allowance reduced by exactly one. Clearing gives one back per freed object; construction leaves allowance + queued objects = capacity = queue capacity.")
    P = facts.core()
    pl = Pool(P)
    where = "%s:%d" % (pl.impl["file"].replace(REPO + "/", ""), pl.impl["line"])
    gets = [f for f in pl.fns if f.qn == REC + "::get"]
    clears = [f for f in pl.fns if f.qn == REC + "::clear"]
    if not gets or not clears: raise Broken("get or clear not found in %s" % REC)
    deleters = {}
    for f in gets: borrow(rep, P, pl, f, deleters)
    for f in clears: clear(rep, P, pl, f)
    for fid in deleters: cleanup(rep, P, pl, P.funcs[fid], deleters[fid])
    construction(rep, P, pl)
    rep.need("borrowing paths checked", 3); rep.need("clean-up functions", 1); rep.need("clean-up paths checked", 2); rep.need("constructors checked", 2)
    rep.assume("std::shared_ptr calls its deleter exactly once when the last owner goes; operations of the pool documented as not thread-safe are not called concurrently")


# ---- handing out --------------------------------------------------------------------------
def borrow(rep, P, pl, fn, deleters):
    g = Graph(P, fn, inline=pl.inline, lambda_calls=False)
    # state: (origin of locals, made, net, tried(failed), left, handle)
    def put(o, k, v): return frozenset([(a, b) for a, b in o if a != k] + [(k, v)])
    def get(o, k): return "made" if ncall(k)[0] == CONSTRUCT else dict(o).get(k)
    seen = []
    def tr(ev, s, view):
        org, made, net, failed, left, dele = s
        env = view.env
        q, args = ecall(ev) if ev.kind in ("call", "icall") else (None, ())
        if q == CONSTRUCT:
            rep.count("objects made", 1, ev.loc())
            if not failed: rep.violation("get:eager", ev.loc(), "a new object is made although no attempt to take a free one has failed on this path")
            if left is not True and not (left == "cas"): rep.violation("get:allowance", ev.loc(), "a new object is made without having established that the allowance is not used up")
            made = min(made + 1, 2)
        if ev.kind == "call" and ev.obj is not None and pl.is_queue(ev.obj):
            if ev.m == "pop": org = put(org, resolve(g, args[0], env), "popped")
            elif ev.m == "push" or ev.m == "try_push": rep.violation("get:push", ev.loc(), "borrowing puts an object into the free list")
        if ev.kind == "call" and ev.obj is not None and pl.is_counter(ev.obj) and "compare_exchange" in ev.m:
            i = ev.aids[0]; nodes = ev.ctx.fn.nodes
            if nodes[i]["k"] == "DeclRefExpr": pl.casvars.add(g._var(ev.ctx, nodes[i]["d"], {}, False))
        d = delta(pl, ev)
        if d:
            if d[0] == "add": net = max(-3, min(3, net + d[1]))
            else: net = 99
            if left is not None and ev.kind == "call" and ev.m == "fetch_sub": pass
        if ev.kind in ("assign", "decl") and ev.rhs is not None and ev.lhs is not None:
            r = ev.rhs
            while r[0] == "ctor" and r[1] in SP and len(r[2]) == 1: r = r[2][0]
            qn, _ = ncall(r)
            if qn == CONSTRUCT: org = put(org, ev.lhs, "made")
            elif r[0] == "ctor" and r[1] in SP and not r[2] or r == ("null",): org = put(org, ev.lhs, "null")
            elif get(org, resolve(g, r, env)) : org = put(org, ev.lhs, get(org, resolve(g, r, env)))
        if ev.kind == "call" and ev.m == "swap" and ev.obj is not None and ev.args:
            a, b = resolve(g, ev.obj, env), resolve(g, ev.args[0], env); oa, ob = get(org, a), get(org, b)
            org = put(put(org, a, ob), b, oa)
        if ev.kind == "call" and ev.m == "reset" and ev.rec in SP and not ev.args: org = put(org, resolve(g, ev.obj, env), "null")
        if ev.kind in ("call", "icall") and ev.qn == "std::move" and ev.args and ev.args[0][0] == "v": org = put(org, ("moved", ev.args[0]), True)
        if ev.kind in ("assign", "decl") and ev.lhs is not None: org = frozenset(x for x in org if x[0] != ("moved", ev.lhs))
        if ev.kind == "call" and ev.m == "get" and ev.rec in SP and ev.obj is not None and dict(org).get(("moved", ev.obj)):
            rep.violation("get:moved", ev.loc(), "%s is asked for its object after that was moved away from it" % show(ev.obj))
        if ev.kind == "fieldinit" and ev.lhs[0] == "f" and ev.lhs[1][0] in ("tmp", "v"):
            src = resolve(g, ev.rhs, env)
            src = dict(dele).get(src, src)          # taken over from another clean-up object
            dele = frozenset([x for x in dele if x[0] not in (ev.lhs, ("last", ev.lhs[2]))] + [(ev.lhs, src), (("last", ev.lhs[2]), src)])
        if ev.kind in ("ctor", "ictor") and ev.rec in SP and len(ev.args) >= 2:
            dt = typ(P, ev.ctx.fn, ev.aids[1])
            drec = dt.get("rec") or ""
            seen.append(ev.loc())
            rep.count("handles made", 1, ev.loc())
            obj = resolve(g, ev.args[0], env)
            if dt.get("lambda") or (drec.startswith("(lambda")):
                handle_lambda(rep, P, pl, g, ev, view, deleters, obj)
            else: handle_record(rep, P, pl, g, ev, dt, dele, deleters, obj, env)
        if ev.kind in ("call",) and ev.rec in SP and ev.m == "reset" and len(ev.args) >= 2:
            rep.count("handles made", 1, ev.loc())
        if ev.kind == "return" and ev.ctx.parent is None:
            rep.count("borrowing paths checked", 1)
            t = ev.term
            while t[0] == "ctor" and t[1] in SP and len(t[2]) == 1: t = t[2][0]
            if not (t[0] == "ctor" and t[1] in SP and len(t[2]) >= 2):
                raw = resolve(g, t, env)
                if get(org, raw) in ("popped", "made") or ncall(t)[0] == CONSTRUCT:
                    rep.violation("get:bare", ev.loc(), "the object is handed out without a clean-up that returns it to the pool")
                elif not seen: rep.violation("get:nohandle", ev.loc(), "what is handed out (%s) does not return to the pool" % show(t))
            else:
                o = get(org, resolve(g, t[2][0], env))
                if o not in ("popped", "made"): rep.violation("get:empty", ev.loc(), "a handle can be made for no object")
        if ev.kind == "leave" and ev.ctx.parent is None:
            if net != 99 and made + net != 0:
                rep.violation("get:count:%d" % (made + net), ev.loc(), "a borrowing path makes %d object(s) but changes the allowance by %d" % (made, net))
            if net == 99: rep.violation("get:set", ev.loc(), "borrowing overwrites the allowance")
        return (org, made, net, failed, left, dele)
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        org, made, net, failed, left, dele = s
        env = view.env
        t0 = t[1] if t[0] == "old" else t
        for a, p in conjuncts(t0, pol):
            if a[0] == "conv": a = a[1]
            if a[0] == "call" and a[2] is not None and pl.is_queue(a[2]) and a[1].endswith("::try_pop"):
                if p: org = put(org, resolve(g, a[3][0], env), "popped")
                else: failed = True
            if a[0] == "call" and a[2] is not None and pl.is_counter(a[2]) and "compare_exchange" in a[1]:
                if p: net -= 1; left = "cas" if left else None
                else: left = None
        nz = nonzero(pl, t0, pol)
        if nz is True: left = True
        elif nz is False:
            if left is True and net == 0: return None
            left = False
        # testing whether the local holds an object
        for a, p in conjuncts(t0, pol):
            r = relation(a, p)
            if r and r[2] == ("null",):
                o = get(org, resolve(g, r[1], env))
                if o == "null" and r[0] == "!=" or o in ("popped", "made") and r[0] == "==": return None
        return (org, made, net, failed, left, dele)
    Explorer(g, (frozenset(), 0, 0, False, None, frozenset()), tr, br).run()


def pool_ref(P, pl, t, what, rep, key, loc):
    """Classifies a member of a clean-up object by its type."""
    y = P.types[t]
    def targ(y):
        a = y.get("args") or []
        return a[0]["t"] if a and "t" in a[0] else None
    def is_impl(tt):
        return tt is not None and facts.strip_targs(P.types[tt].get("rec", "") or P.ts(tt)).startswith(REC)
    r = y.get("rec")
    if r in WP: return "weak" if is_impl(targ(y)) else "other"
    if r in SP:
        if is_impl(targ(y)):
            rep.violation(key + ":keepsalive", loc, "the clean-up of a borrowed object owns a shared_ptr to the pool (%s) and so keeps it alive" % what); return "strong"
        return "res"
    if y.get("ptr") and is_impl(y.get("pointee")) or y.get("ref") and REC.split("::")[-1] in y.get("s", "") or REC in (facts.strip_targs(r or "")):
        rep.violation(key + ":raw", loc, "the clean-up of a borrowed object refers to the pool by a plain pointer or reference (%s), which outlives the pool" % what); return "raw"
    return "other"


def is_weak_src(g, t):
    """Does the term denote a weak reference to this pool?"""
    while t[0] == "ctor" and t[1] in WP and len(t[2]) == 1: t = t[2][0]
    return t[0] == "call" and t[1].split("::")[-1] in ("weak_from_this", "shared_from_this") or t[0] == "f" and t[2] == "pool_" or t[0] == "f"


def handle_record(rep, P, pl, g, ev, dt, dele, deleters, obj, env):
    ops = [f for f in pl.fns if f.name == "operator()" and f.rec and f.rec == dt.get("rec")] or [f for f in pl.fns if f.name == "operator()" and not f.is_lambda]
    if not ops:
        rep.violation("get:nodeleter", ev.loc(), "the clean-up of the handle is not one of the pool's own"); return
    rec = [r for r in pl.recs if r["id"] == ops[0].raw.get("clsid")]
    if not rec: raise Broken("class of the clean-up not found")
    rec = rec[0]
    roles = {}
    for f in rec["fields"]:
        roles[f["n"]] = pool_ref(P, pl, f["t"], f["n"], rep, "deleter", "%s:%d" % (rec["file"].replace(REPO + "/", ""), rec["line"]))
    if "res" not in roles.values(): rep.violation("deleter:nores", ev.loc(), "the clean-up does not keep the object alive")
    if "weak" not in roles.values() and not rep.viol: rep.violation("deleter:nopool", ev.loc(), "the clean-up does not know the pool")
    src = {k[1]: v for k, v in dele if k[0] == "last"}
    a = ev.args[1]
    if a[0] == "init" or a[0] == "ctor" and a[1] == rec["qn"] and len(a[2]) == len(rec["fields"]) and not src:
        for f, x in zip(rec["fields"], a[-1]): src[f["n"]] = resolve(g, x, env)
    for n, role in roles.items():
        if n not in src: continue
        if role == "res" and src[n] != obj:
            rep.violation("get:mismatch", ev.loc(), "the handle points to %s but its clean-up owns %s" % (show(obj), show(src[n])))
        if role == "weak" and src[n][0] == "ctor" and not src[n][2]:
            rep.violation("get:noback", ev.loc(), "the clean-up of the handle is given no reference to the pool")
        if role == "weak" and not is_weak_src(g, src[n]) and not src[n][0] == "ctor":
            rep.violation("get:wrongback", ev.loc(), "the clean-up of the handle is given %s instead of a weak reference to this pool" % show(src[n]))
    for f in ops: deleters[f.fid] = {("f", ("this",), n): r for n, r in roles.items()}


def handle_lambda(rep, P, pl, g, ev, view, deleters, obj):
    t = ev.args[1]
    if t[0] != "lam": raise Broken("the clean-up of a handle is an unknown callable")
    fid = t[2] if t[2] in P.funcs else next((s for s in t[3] if s in P.funcs), None)
    if fid is None: raise Broken("body of the clean-up lambda not found")
    lex = g.ctxs[t[1]]
    caps = []
    for n in lex.fn.nodes.values():
        if n["k"] == "LambdaExpr" and n.get("fid") == t[2]: caps = n.get("caps", [])
    roles = {}; fn = P.funcs[fid]
    for c in caps:
        if "d" not in c:
            rep.violation("deleter:raw", ev.loc(), "the clean-up of a borrowed object captures the pool itself, which it can outlive"); continue
        v = fn.vars.get(c["d"]) or lex.fn.vars.get(c["d"])
        if v is None: continue
        role = pool_ref(P, pl, v["t"], v["n"], rep, "deleter", ev.loc())
        if c.get("ref") and role in ("res", "weak"): rep.violation("deleter:capref", ev.loc(), "the clean-up captures %s by reference" % v["n"])
        roles[("v", -1, c["d"], v["n"])] = role
    deleters[fid] = roles


# ---- giving back --------------------------------------------------------------------------
def cleanup(rep, P, pl, fn, roles):
    rep.count("clean-up functions", 1, fn.disp)
    res = {t for t, r in roles.items() if r == "res"}
    g = Graph(P, fn, inline=pl.inline)
    def is_lock(t):
        while t[0] == "ctor" and t[1] in SP and len(t[2]) == 1: t = t[2][0]
        return t[0] == "call" and t[1].split("::")[-1] == "lock" and t[2] is not None or t[0] == "ctor" and t[1] in SP and t[2] and t[2][0] in [k for k, r in roles.items() if r == "weak"]
    def rv(ev, i=0):
        pt = (ev.raw.get("callee") or {}).get("pt", [])
        return i < len(pt) and (P.types[pt[i]].get("rref") or P.types[pt[i]].get("s", "").endswith("&&"))
    # state: (locations owning the object, recycled, pushed, pool alive?, locals holding the lock)
    def tr(ev, s, view):
        own, rec, push, alive, lk = s; env = view.env
        q, args = ecall(ev) if ev.kind in ("call", "icall") else (None, ())
        def src(t):
            t2 = t
            if t2 in own: return t2
            if t[0] == "v" and t[1] >= 0 and t[2] in g.ctxs[t[1]].fn.params:
                c = g.ctxs[t[1]]; a = c.params[c.fn.params.index(t[2])]
                if a[0] == "arg":
                    f2 = g.ctxs[a[1]].fn; i = a[2]
                    while i in f2.nodes and f2.nodes[i]["k"] in STRIP and f2.nodes[i].get("c"): i = f2.nodes[i]["c"][0]
                    if ("tmp", a[1], i) in own: return ("tmp", a[1], i)
            t2 = resolve(g, t, env)
            return t2 if t2 in own else None
        if q == RECYCLE:
            if args and src(args[0]): rec = min(rec + 1, 2); rep.count("recycle calls", 1, ev.loc())
            if push: rep.violation("deleter:late", ev.loc(), "the object is recycled after it was put back, when another borrower may already use it")
        if ev.kind in ("call", "icall") and ev.obj is not None:
            base = [x for x in subterms(ev.obj) if is_lock(x)] + [x for x in subterms(ev.obj) if x in lk]
            if base and ev.m not in ("operator->", "operator*", "get", "reset", "swap", "use_count", "operator=") and not ev.m.startswith("operator bool") and ev.rec not in SP + WP:
                if alive is not True: rep.violation("deleter:unchecked", ev.loc(), "the pool is used without having established that it still exists")
            if pl.is_queue(ev.obj):
                if ev.m in ("push", "try_push"):
                    rep.count("returns to the pool", 1, ev.loc())
                    if ev.m == "try_push": rep.violation("deleter:trypush", ev.loc(), "the object is put back with an operation that may drop it")
                    sc = src(args[0])
                    if sc is None: rep.violation("deleter:wrongobj", ev.loc(), "something other than the object (%s) is put into the pool" % show(args[0]))
                    else:
                        if rec == 0: rep.violation("deleter:norecycle", ev.loc(), "the object is put back without having been recycled")
                        push = min(push + 1, 2)
                        if rv(ev): own = own - {sc}
            if ev.m == "reset" and ev.rec in SP:
                own = own - {ev.obj, resolve(g, ev.obj, env)}
                lk = lk - {ev.obj}
            if ev.m == "swap" and ev.args:
                a, b = ev.obj, ev.args[0]
                o2 = own - {a, b}
                if a in own: o2 |= {b}
                if b in own: o2 |= {a}
                own = o2
        if ev.kind == "call" and ev.qn == "std::exchange" and ev.args and src(ev.args[0]): own = (own - {src(ev.args[0])}) | {("x",)}
        if ev.kind == "ctor" and ev.rec in SP and ev.args and src(ev.args[0]) and len(ev.args) == 1:
            if ev.raw.get("move"): own = own - {src(ev.args[0])}
            own = own | {ev.term}
        if ev.kind == "ctor" and ev.rec in SP and ev.args and is_lock(ev.args[0]): lk = lk | {ev.term}
        if ev.kind == "decl" and ev.rhs is not None:
            if is_lock(ev.rhs): lk = lk | {ev.lhs}
            if ev.rhs[0] == "call" and ev.rhs[1] == "std::exchange" and ("x",) in own: own = (own - {("x",)}) | {ev.lhs}
        if ev.kind == "assign" and ev.op == "=" and ev.lhs is not None:
            if is_lock(ev.rhs): lk = lk | {ev.lhs}; alive = None
            sc = src(ev.rhs) if ev.rhs is not None else None
            own = own - {ev.lhs}
            if sc is not None and sc != ev.lhs:
                own = own | {ev.lhs}
                if rv(ev): own = own - {sc}
        if ev.kind in ("dtor", "tdtor"):
            own = own - {ev.lhs}
        if ev.kind == "leave":
            c = ev.ctx
            if c.parent is not None:
                own = frozenset(x for x in own if not (x[0] == "v" and x[1] == c.id))
            else:
                rep.count("clean-up paths checked", 1)
                if own & res: rep.violation("deleter:keeps", ev.loc(), "the clean-up can end while still owning the object")
                if alive is True and push == 0: rep.violation("deleter:lost", ev.loc(), "the object is not put back although the pool still exists")
                if push > 1: rep.violation("deleter:twice", ev.loc(), "the object is put back more than once")
                if rec > 1: rep.violation("deleter:recycletwice", ev.loc(), "the object is recycled more than once")
                if alive is None and push == 0: rep.violation("deleter:never", ev.loc(), "the clean-up can end without having looked whether the pool still exists")
        return (own, rec, push, alive, lk)
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        own, rec, push, alive, lk = s
        for a, p in conjuncts(t, pol):
            r = relation(a, p)
            if r and r[2] == ("null",) and (is_lock(r[1]) or r[1] in lk):
                v = r[0] == "!="
                if alive is not None and alive != v: return None
                alive = v
            if r and r[2] == ("null",) and r[1] in res and push == 0 and r[1] in own and r[0] == "==": return None   # a handle always owns an object
        return (own, rec, push, alive, lk)
    Explorer(g, (frozenset(res), 0, 0, None, frozenset()), tr, br).run()


# ---- clearing -----------------------------------------------------------------------------
def clear(rep, P, pl, fn):
    g = Graph(P, fn, inline=pl.inline)
    # state: (popped but not given back, accumulated in)
    def tr(ev, s, view):
        pend, acc = s
        if ev.kind == "call" and ev.obj is not None and pl.is_queue(ev.obj):
            if ev.m in ("push", "try_push"): rep.violation("clear:push", ev.loc(), "clearing puts objects back")
            if ev.m == "pop": pend = min(pend + 1, 3); rep.count("objects freed", 1, ev.loc())
        d = delta(pl, ev)
        if d:
            if d[0] == "add": pend = max(-3, min(3, pend - d[1]))
            elif d[0] == "addterm" and acc is not None and d[1] == 1 and (d[2] == acc or contains(d[2], acc)): acc = None
            else: pend = -3
        elif ev.kind == "assign" and ev.op in ("++", "+=") and ev.rhs == ("c", 1):
            i = (ev.raw.get("c") or [None])[0]
            if i is not None and ev.ctx.fn.nodes[i]["k"] == "DeclRefExpr" and pend == 1:
                acc = g._var(ev.ctx, ev.ctx.fn.nodes[i]["d"], {}, False); pend = 0
        if ev.kind == "leave" and ev.ctx.parent is None:
            rep.count("clearing paths checked", 1)
            if pend != 0 or acc is not None: rep.violation("clear:count", ev.loc(), "clearing does not give back exactly one allowance per freed object")
        return (pend, acc)
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        pend, acc = s
        t0 = t[1] if t[0] == "old" else t
        for a, p in conjuncts(t0, pol):
            if a[0] == "call" and a[2] is not None and pl.is_queue(a[2]) and a[1].endswith("::try_pop") and p:
                rep.count("objects freed", 1, view.node.loc())
                if pend != 0: rep.violation("clear:count", view.node.loc(), "clearing does not give back exactly one allowance per freed object")
                pend = 1
        return (pend, acc)
    Explorer(g, (0, None), tr, br).run()


# ---- construction -------------------------------------------------------------------------
def construction(rep, P, pl):
    ctors = [f for f in pl.fns if f.kind == "ctor" and f.raw.get("clsid") == pl.impl["id"] and not f.raw.get("defaulted") and f.blocks]
    for fn in ctors:
        if not fn.params or not P.types[fn.vars[fn.params[0]]["t"]].get("bits"): continue
        rep.count("constructors checked", 1, fn.sig())
        g = Graph(P, fn, inline=pl.inline)
        st = {}
        def tr(ev, s, view):
            if ev.kind == "fieldinit" and ev.lhs[1] == ("this",):
                r = ev.rhs
                while r[0] in ("ctor", "init") and len(r[-1]) == 1: r = r[-1][0]
                if ev.lhs[2] in pl.qfields: st["q"] = (resolve(g, r), ev.loc())
                if ev.lhs[2] in pl.cfields: st["c"] = (deep(g, r), ev.loc())
            d = delta(pl, ev)
            if d: st.setdefault("d", []).append(d)
            if ev.kind == "call" and ev.obj is not None and pl.is_queue(ev.obj) and ev.m == "push": st.setdefault("push", set()).add((ev.n, ev.loc()))
            return s
        def br(t, pol, s, view):
            if not isinstance(pol, tuple):
                for a, p in conjuncts(t, True):
                    r = relation(a, True)
                    if r: st.setdefault("cond", set()).add((r[0], deep(g, r[1]), deep(g, r[2])))
            return s
        Explorer(g, 0, tr, br).run()
        if "q" not in st or "c" not in st: raise Broken("queue capacity or allowance is not initialised in %s" % fn.sig())
        if st["q"][0] != ("p", 0): rep.violation("ctor%d:queue" % len(fn.params), st["q"][1], "the free list of a pool is created with capacity %s instead of the pool's capacity: returning objects would block" % show(st["q"][0]))
        c = st["c"][0]; pushes = st.get("push", set())
        if not pushes:
            if c != ("p", 0): rep.violation("ctor%d:allowance" % len(fn.params), st["c"][1], "an empty pool starts with allowance %s instead of its capacity" % show(c))
        elif len(fn.params) == 2 and "d" not in st:
            if c != ("op", "-", ("p", 0), ("p", 1)): rep.violation("ctor%d:allowance" % len(fn.params), st["c"][1], "a pre-filled pool starts with allowance %s instead of capacity minus the number of objects it holds" % show(c))
            if len(pushes) > 1: rep.violation("ctor%d:fill" % len(fn.params), sorted(pushes)[0][1], "more than one object is queued per round of the initial filling")
            if st.get("cond"):
                fill_loop(rep, P, g, fn, st["cond"])
        elif "d" in st:
            if c != ("p", 0) or st["d"] and any(d != ("add", -1) for d in st["d"]): rep.violation("ctor%d:allowance" % len(fn.params), st["c"][1], "the allowance of a pre-filled pool does not match its objects")
    outer = [f for f in pl.fns if f.qn == REC + "::object_pool" and not f.raw.get("defaulted")]
    for fn in outer:
        g = Graph(P, fn, inline=lambda f: False)
        got = []
        def tr(ev, s, view):
            if ev.kind == "call" and ev.qn in ("std::make_shared", "std::allocate_shared", "std::make_unique"): got.append((ev.loc(), [resolve(g, strip(a)) for a in ev.args]))
            return s
        Explorer(g, 0, tr).run()
        rep.count("constructors checked", 1, fn.sig())
        for loc, args in got:
            want = [("p", i) for i in range(len(fn.params))]
            if args != want and all(a[0] == "p" for a in args): rep.violation("object_pool%d:args" % len(fn.params), loc, "the pool is created with (%s) instead of its own arguments" % ", ".join(show(a) for a in args))


def strip(t):
    return t


def deep(g, t):
    t = resolve(g, t)
    return (t[0], t[1], deep(g, t[2]), deep(g, t[3])) if t[0] == "op" else t


def fill_loop(rep, P, g, fn, conds):
    """The loop that queues the initial objects runs exactly as often as asked for, when it has the shape of a counted loop."""
    ok = False; bad = None
    for op, a, b in conds:
        if b == ("p", 1) and a == ("c", 0) and op in ("!=", "<"): ok = True
        if a == ("p", 1) and b == ("c", 0) and op in ("!=", ">"): ok = True
        if b == ("p", 1) and a[0] == "c" and a[1] != 0 or b == ("p", 1) and a == ("c", 0) and op in ("<=",): bad = (op, a, b)
    for op, a, b in conds:
        if a == ("c", 1) and b == ("p", 1) and op == "<=": ok = True; bad = None
    rep.count("initial filling loops", 1)
    if bad and not ok: rep.violation("ctor2:fillcount", fn.loc(), "the initial filling does not queue exactly as many objects as asked for")
