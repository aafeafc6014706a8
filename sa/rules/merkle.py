"""P11: Merkle trees are only touched under their lock."""
import facts, locks
from facts import Broken
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

REC = "dottorrent::merkle_tree"
READERS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "data", "front", "back", "at", "operator[]", "size", "empty", "capacity", "max_size", "get_allocator"}
OUT = {"std::copy": -1, "std::copy_n": -1, "std::move": -1, "std::transform": None, "std::fill": 0, "std::fill_n": 0, "std::generate": 0, "std::generate_n": 0, "std::sort": 0, "std::reverse": 0,
       "std::rotate": 0, "std::iter_swap": 0, "std::swap_ranges": 0, "std::replace": 0, "std::iota": 0, "std::memcpy": 0, "memcpy": 0, "std::memset": 0, "memset": 0, "std::memmove": 0, "memmove": 0,
       "std::ranges::fill": 0, "std::ranges::copy": 1, "std::swap": 0, "std::exchange": 0, "std::copy_backward": -1, "std::remove": 0, "std::unique": 0}


def obj_of(term, field):
    """The tree whose node vector the access path leads through, or None."""
    for s in subterms(term):
        if isinstance(s, tuple) and s and s[0] == "f" and s[2] == field: return s
    return None


def foreign(t):
    """A tree other threads can reach: the receiver or an argument passed by reference (not a local or temporary)."""
    while t[0] in ("f", "deref", "addr", "idx"): t = t[1]
    return t[0] in ("this", "p")


def just_bound(fn, nid):
    """The member is only named to return or bind a reference to it; nothing of it is read."""
    par = fn.parents; cur = nid
    while True:
        p = par.get(cur)
        if p is None: break
        n = fn.nodes[p]
        if n["k"] in ("ParenExpr", "ExprWithCleanups") or n["k"] == "ImplicitCastExpr" and n["ck"] == "NoOp" or n["k"] == "UnaryOperator" and n["op"] == "&" \
           or n["k"] == "CallExpr" and n.get("callee", {}).get("qn") in ("std::as_const", "std::addressof", "std::ref", "std::cref"):
            cur = p; continue
        if n["k"] == "ReturnStmt": return bool(fn.P.types[fn.raw["ret"]].get("ref") or fn.P.types[fn.raw["ret"]].get("ptr"))
        return False
    for v in fn.vars.values():
        if v.get("init") == cur: return bool(fn.P.types[v["t"]].get("ref") or fn.P.types[v["t"]].get("ptr"))
    return False


def check_P11(rep):
    rep.rule("Lockset typestate over the inlined flow graph of every public member function and constructor of the tree class: each evaluation of the node vector of the receiver or of a tree passed in must happen with that same tree's mutex held, "
             "exclusively when the vector or an element is modified; a lock is never acquired while it is held; the locks of two trees are held together only when they were acquired in one std::lock/scoped_lock step and after the two objects were found to be distinct; no way out keeps a lock.")
    P = facts.full()
    recs = P.record(REC)
    if not recs: raise Broken("class %s not found" % REC)
    done = set()
    for rec in recs:
        mus = [f["n"] for f in rec["fields"] if P.types[f["t"]].get("rec") in locks.MUTEX]
        data = [f["n"] for f in rec["fields"] if P.types[f["t"]].get("rec") in ("std::vector", "std::deque", "std::array", "std::unique_ptr")]
        if len(mus) != 1 or not data: raise Broken("%s no longer has one mutex and a node container" % REC)
        mu = mus[0]
        ops = [f for f in P.methods(REC) if f.access == "public" and not f.raw.get("static") and f.raw["clsid"] == rec["id"] and not f.raw.get("defaulted") and f.blocks and f.kind in ("method", "ctor")]
        for fn in ops:
            rep.count("operations", 1, fn.sig())
            analyse(rep, P, fn, data, mu)
    rep.need("operations", 12); rep.need("node accesses checked", 15); rep.need("exclusive accesses checked", 3)
    rep.assume("references and views handed to callers are used under the caller's own responsibility; arguments other than trees do not alias tree members")


def analyse(rep, P, fn, data, mu):
    ctor = fn.kind == "ctor"
    g = Graph(P, fn, inline=lambda f: f.rec == REC or f.is_lambda or (f.rec is None and "merkle" in f.file))
    def mutex_of(acc): return ("f", acc[1], mu)
    def check(ev, acc, write, L, what):
        if not foreign(acc): return
        if ctor and acc[1] == ("this",): return
        m = mutex_of(acc)
        who = "its own" if acc[1] == ("this",) else "the other tree's"
        rep.count("exclusive accesses checked" if write else "node accesses checked", 1, "%s %s" % (fn.name, ev.loc()))
        if not locks.holds(L, m):
            rep.violation("%s:unlocked:%s" % (fn.qn, "this" if acc[1] == ("this",) else "other"), ev.loc(), "%s %s %s nodes without holding %s mutex" % (fn.disp, what, who, who))
        elif write and not locks.holds(L, m, True):
            rep.violation("%s:sharedwrite" % fn.qn, ev.loc(), "%s modifies %s nodes while holding the mutex only in shared mode" % (fn.disp, who))
    def tr(ev, s, view):
        L, distinct, batch = s
        L2, notes = locks.step(ev, L)
        acq = []
        for k, m in notes:
            if k == "double": rep.violation("%s:double" % fn.qn, ev.loc(), "%s locks %s while it already holds it" % (fn.disp, show(m)))
            elif k == "notheld": rep.violation("%s:notheld" % fn.qn, ev.loc(), "%s unlocks a mutex it does not hold" % fn.disp)
            elif k == "acquire": acq.append(m)
        if acq:
            rep.count("acquisitions checked", 1, "%s %s" % (fn.name, ev.loc()))
            old = {h[0] for h in L[0] if h[0][0] == "f" and h[0][2] == mu}
            trees = {m for m in acq if m[0] == "f" and m[2] == mu and foreign(m)} 
            if trees and {m for m in old if foreign(m)} - trees and not ctor:
                rep.violation("%s:order" % fn.qn, ev.loc(), "%s takes the lock of one tree while holding another's: two threads doing so crosswise block forever" % fn.disp)
            both = trees | {m for m in old if foreign(m)}
            if len(both) > 1 and not distinct and not ctor:
                rep.violation("%s:self" % fn.qn, ev.loc(), "%s locks two trees without having made sure that they are not the same object" % fn.disp)
        L = L2
        if ev.kind == "touch" or ev.kind == "vtouch" and P.types[ev.ctx.fn.vars[ev.raw["d"]]["t"]].get("ref"):
            for d in data:
                acc = obj_of(ev.term, d)
                if acc is not None and not just_bound(ev.ctx.fn, ev.n): check(ev, acc, False, L, "reads")
        w = None
        if ev.kind in ("assign",) and ev.lhs is not None:
            w = [ev.lhs]
            # the source of a move is modified too
            if ev.aids and any(moved(ev.ctx.fn, a) for a in ev.aids): w.append(ev.rhs)
        elif ev.kind == "call":
            w = []
            if ev.obj is not None and not ev.raw["callee"].get("const") and ev.m not in READERS:
                # a mutating member function of the vector or of an element
                if any(ev.obj[0] == "f" and ev.obj[2] == d for d in data) or elem(ev.obj, data): w.append(ev.obj)
            if ev.qn in OUT and ev.args:
                i = OUT[ev.qn]
                w += [a for a in (ev.args if i is None else [ev.args[i]])] if i is not None else ([ev.args[2]] if len(ev.args) == 4 else [ev.args[3]] if len(ev.args) > 4 else [])
                if ev.qn in ("std::swap", "std::swap_ranges"): w = w + ev.args[1:]
            for a, aid in zip(ev.args or [], ev.aids or []):
                if moved(ev.ctx.fn, aid) and ev.qn not in ("std::move", "std::forward", "std::swap"): w.append(a)
            if ev.m == "swap" and ev.obj is not None: w += ev.args or []
        elif ev.kind in ("ctor", "fieldinit", "decl"):
            w = [a for a, aid in zip(ev.args or [], ev.aids or []) if moved(ev.ctx.fn, aid)]
        for t in w or []:
            if t is None: continue
            for d in data:
                acc = obj_of(t, d)
                if acc is not None: check(ev, acc, True, L, "modifies")
        if ev.kind == "leave" and ev.ctx.parent is None:
            rep.count("ways out checked", 1)
            if L[0]: rep.violation("%s:leak" % fn.qn, ev.loc(), "%s can return with %s still locked" % (fn.disp, show(sorted(L[0], key=str)[0][0])))
        return (L, distinct, batch)
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        L = locks.branch(t, pol, s[0]); d = s[1]
        for a, p in conjuncts(t, pol):
            r = relation(a, p)
            if r and r[0] == "!=" and {x for x in (strip(r[1]), strip(r[2]))} >= {("this",)} and any(strip(x)[0] == "p" for x in r[1:]): d = True
            if r and r[0] == "==" and {x for x in (strip(r[1]), strip(r[2]))} >= {("this",)} and any(strip(x)[0] == "p" for x in r[1:]) and d: return None
        return (L, d, s[2])
    Explorer(g, (locks.EMPTY, False, None), tr, br, track=False).run()


def strip(t):
    while t[0] in ("addr", "deref"): t = t[1]
    return t


def elem(t, data):
    return t[0] in ("idx", "deref", "call") and any(obj_of(t, d) for d in data)


def moved(fn, nid):
    while nid in fn.nodes and fn.nodes[nid]["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups") and fn.nodes[nid].get("c"): nid = fn.nodes[nid]["c"][0]
    n = fn.nodes.get(nid)
    if not n: return False
    if n["k"] == "CallExpr" and n.get("callee", {}).get("qn") in ("std::move", "std::exchange"): return True
    return n["k"] == "CXXStaticCastExpr" and n.get("vk") == "x"
