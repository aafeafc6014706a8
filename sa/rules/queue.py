"""P01-P03: the bounded work queue (dottorrent::concurrent_queue)."""
import facts, locks, loops, texts
from facts import Broken
from ir import Graph, Explorer, conjuncts, relation, contains, show, SWAP, subterms

REC = "dottorrent::concurrent_queue"
CONT = {"std::queue", "std::deque", "std::list", "std::vector", "std::stack", "std::forward_list", "std::priority_queue"}
# container operations: name -> (kind, end)
OPS = {
    ("std::queue", "push"): ("ins", "back"), ("std::queue", "emplace"): ("ins", "back"), ("std::queue", "pop"): ("rem", "front"),
    ("std::queue", "front"): ("read", "front"), ("std::queue", "back"): ("read", "back"),
    ("std::stack", "push"): ("ins", "back"), ("std::stack", "emplace"): ("ins", "back"), ("std::stack", "pop"): ("rem", "back"), ("std::stack", "top"): ("read", "back"),
    ("std::priority_queue", "push"): ("ins", "any"), ("std::priority_queue", "emplace"): ("ins", "any"), ("std::priority_queue", "pop"): ("rem", "top"), ("std::priority_queue", "top"): ("read", "top"),
}
for c in ("std::deque", "std::list", "std::vector", "std::forward_list"):
    OPS.update({(c, "push_back"): ("ins", "back"), (c, "emplace_back"): ("ins", "back"), (c, "push_front"): ("ins", "front"), (c, "emplace_front"): ("ins", "front"),
                (c, "pop_front"): ("rem", "front"), (c, "pop_back"): ("rem", "back"), (c, "front"): ("read", "front"), (c, "back"): ("read", "back")})
BULK = {"clear", "swap", "resize", "assign", "erase", "insert", "emplace", "splice", "operator="}


class Q:
    """The queue class, recognised by the types of its members."""
    def __init__(self, P, rec):
        self.P = P; self.rec = rec; self.mutex = []; self.cvs = []; self.items = []; self.scalars = []; self.other = []
        for f in rec["fields"]:
            t = P.types[f["t"]]; r = t.get("rec", "")
            if r in locks.MUTEX: self.mutex.append(f["n"])
            elif r in locks.CVS: self.cvs.append(f["n"])
            elif r in CONT: self.items.append(f["n"])
            elif "bits" in t or r in ("std::atomic",): self.scalars.append(f["n"])
            else: self.other.append(f["n"])
        if len(self.mutex) != 1 or len(self.items) != 1 or not self.scalars or not self.cvs:
            raise Broken("%s no longer has one mutex, one item container, a capacity and condition variables" % REC)
        self.m = ("f", ("this",), self.mutex[0]); self.q = ("f", ("this",), self.items[0])
        self.protected = set(self.items + self.scalars + self.other)
        self.ops = [f for f in P.methods(REC) if f.access == "public" and f.kind == "method" and not f.raw.get("static") and f.raw["clsid"] == rec["id"] and not f.raw.get("defaulted") and f.blocks]


def load(rep):
    P = facts.core()
    rs = P.record(REC)
    if not rs: raise Broken("class %s not found" % REC)
    qs = [Q(P, r) for r in rs]
    for q in qs:
        for f in q.ops: rep.count("operations", 1, f.disp)
    rep.need("operations", 5)
    return P, qs


def cap_fields(q):
    """Fields compared with the number of items anywhere in the class."""
    return [("f", ("this",), n) for n in q.scalars]


def is_size(q, t):
    return t[0] == "call" and t[2] == q.q and t[1].endswith("::size")


def facts_of(q, t, pol):
    """Facts about the queue implied by a condition: room, full, nonempty, empty."""
    out = set()
    for a, p in conjuncts(t, pol):
        if a[0] == "call" and a[2] == q.q and a[1].endswith("::empty"): out.add("empty" if p else "nonempty"); continue
        if a[0] == "conv": continue
        if is_size(q, a): out.add("nonempty" if p else "empty"); continue
        r = relation(a, p)
        if not r: continue
        op, x, y = r
        if not is_size(q, x) and is_size(q, y): op, x, y = SWAP[op], y, x
        if is_size(q, x):
            if y in cap_fields(q):
                if op == "<": out.add("room")
                elif op in (">=", ">", "=="): out.add("full")
                elif op == "!=": out.add("notequal")
            elif y[0] == "c" and isinstance(y[1], int):
                k = y[1]
                if op == ">" and k >= 0 or op == ">=" and k >= 1 or op == "!=" and k == 0: out.add("nonempty")
                if op == "==" : out.add("empty" if k == 0 else "nonempty" if k > 0 else "x")
                if op == "<" and k <= 1 or op == "<=" and k <= 0: out.add("empty")
        # capacity - size > 0 written the other way round
        if x[0] == "op" and x[1] == "-" and x[2] in cap_fields(q) and is_size(q, x[3]) and y == ("c", 0) and op in (">", "!="): out.add("notequal")
    return frozenset(out)


# state: (L, facts, (ins, rem, taken), owed, sig, retest, deliver, pre)
def explore(P, q, fn, on, waits=None):
    g = Graph(P, fn)
    INIT = (locks.EMPTY, frozenset(), (0, 0, 0), frozenset(), frozenset(), None, None)
    def tr(ev, s, view):
        L, fa, cnt, owed, sig, retest, hold = s
        L2, notes = locks.step(ev, L)
        for k, m in notes:
            if k == "double" and m == q.m: on("double", ev, s, g)
            if k == "notheld": on("notheld", ev, s, g)
            if k == "release" and m == q.m: fa = frozenset(); sig = frozenset()
        L = L2
        ins, rem, taken = cnt
        if ev.kind == "touch" and ev.term[0] == "f" and ev.term[1] == ("this",) and ev.term[2] in q.protected:
            on("access", ev, (L, fa, cnt, owed, sig, retest, hold), g)
        rec = ev.rec
        if ev.kind in ("call", "icall"):
            if rec in locks.CVS and ev.m.startswith("wait"):
                has_pred = len(ev.aids or []) >= 2 and ev.node.ctx.fn.P.types[ev.node.ctx.fn.nodes[ev.aids[-1]]["t"]].get("lambda")
                on("wait", ev, (L, fa, cnt, owed, sig, retest, hold), g)
                fa = frozenset(); sig = frozenset()
                retest = (ev.obj, ev.loc())
            elif rec in locks.CVS and ev.m in ("notify_one", "notify_all"):
                on("notify", ev, s, g)
                owed = frozenset(o for o in owed if not (o[0] == ev.obj and (ev.m == "notify_all" or o[1] == "one")))
                if locks.holds(L, q.m): sig = sig | {(ev.obj, ev.m)}
            elif ev.obj == q.q:
                op = OPS.get((rec, ev.m))
                if op and op[0] == "ins":
                    on("insert", ev, (L, fa, cnt, owed, sig, retest, hold), g, op[1])
                    owed = owe(owed, sig, "nonempty", "one", fa, q)
                    ins = min(ins + 1, 2); fa = (fa - {"empty", "room", "notequal", "full"}) | {"nonempty"}
                elif op and op[0] == "rem":
                    on("remove", ev, (L, fa, cnt, owed, sig, retest, hold), g, op[1])
                    owed = owe(owed, sig, "room", "one", fa, q)
                    rem = min(rem + 1, 2); fa = fa - {"nonempty", "full", "empty", "notequal"}
                    if taken > rem - 1 and False: pass
                elif op and op[0] == "read":
                    on("front", ev, (L, fa, cnt, owed, sig, retest, hold), g, op[1])
                elif ev.m in BULK or (not ev.raw["callee"].get("const") and ev.m not in ("begin", "end", "cbegin", "cend", "size", "empty", "reserve", "shrink_to_fit", "get_allocator", "max_size")):
                    on("bulk", ev, (L, fa, cnt, owed, sig, retest, hold), g)
                    owed = owe(owed, sig, "room", "all", frozenset(), q); fa = frozenset()
        if ev.kind == "assign":
            l = ev.lhs
            if l in cap_fields(q):
                on("setcap", ev, s, g); owed = owe(owed, sig, "room", "all", frozenset(), q); fa = fa - {"room", "full", "notequal"}
            if l == q.q:
                on("bulk", ev, s, g); owed = owe(owed, sig, "room", "all", frozenset(), q); fa = frozenset()
        if ev.kind == "decl" and ev.rhs is not None and contains(ev.rhs, ("p", 0)) and ev.ctx.parent is None and not P.types[ev.raw["t"]].get("ref"):
            F = ev.ctx.fn
            if any((F.nodes[i].get("callee") or {}).get("n") in ("move", "forward") for i in loops.subtree(F, ev.raw["init"])): hold = ("moved",)
        # where does the value at the head of the queue go?
        if ev.kind in ("assign", "decl") and ev.rhs is not None:
            if is_head(q, ev.rhs):
                taken = min(taken + 1, 2)
                hold = "out" if ev.lhs and ev.lhs[0] in ("p", "deref") or ev.kind == "assign" and ev.lhs[0] != "v" else ev.lhs
            elif hold not in (None, "out") and contains(ev.rhs, hold):
                hold = "out" if ev.kind == "assign" and ev.lhs[0] != "v" else ev.lhs
        if ev.kind == "return" and ev.term is not None:
            if is_head(q, ev.term) : taken = min(taken + 1, 2); hold = "out"
            elif hold not in (None, "out") and contains(ev.term, hold): hold = "out" if ev.ctx.parent is None else hold
        if ev.kind in ("call", "icall") and ev.obj != q.q and any(is_head(q, a) for a in (ev.args or [])) and ev.qn not in ("std::move", "std::forward"):
            taken = min(taken + 1, 2)
            hold = "out" if any(a[0] == "p" for a in ev.args if isinstance(a, tuple)) or (ev.obj and ev.obj[0] == "p") else hold or "out"
        st = (L, fa, (ins, rem, taken), owed, sig, retest, hold)
        if ev.kind == "return" and ev.ctx.parent is None: on("return", ev, st, g)
        if ev.kind == "leave" and ev.ctx.parent is None: on("exit", ev, st, g)
        if ev.kind in ("ctor", "call", "assign", "icall"): on("any", ev, st, g)
        return st
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        L = locks.branch(t, pol, s[0])
        if t[0] == "old":
            f0 = facts_of(q, t[1], pol); ow = s[3]
            for c in f0:
                for cv in (waits or {}).get(c, ()): ow = frozenset((o[0], o[1], "was") if o[0] == cv and o[1] == "one" else o for o in ow)
            return (L,) + s[1:3] + (ow,) + s[4:]
        fs = facts_of(q, t, pol) if locks.holds(L, q.m) else frozenset()
        # contradictory facts cannot both hold
        cur = s[1]
        for a, b in (("room", "full"), ("empty", "nonempty")):
            if a in fs and b in cur or b in fs and a in cur: return None
        rt = s[5]
        if fs and rt is not None: rt = None; on("retested", None, s, g, (s[5], fs))
        return (L, cur | fs, s[2], s[3], s[4], rt, s[6])
    def forget(ev, a, b):
        return [q.q] + cap_fields(q) if locks.holds(a[0], q.m) and not locks.holds(b[0], q.m) or ev.kind == "call" and ev.rec in locks.CVS and ev.m.startswith("wait") else ()
    def owe(owed, sig, cond, how, fa, q):
        r = set(owed)
        for cv in (waits or {}).get(cond, ()):
            if any(s[0] == cv and (s[1] == "notify_all" or how == "one") for s in sig): continue   # signalled earlier in this critical section
            r.add((cv, how, "was" if cond in fa else ""))
        return frozenset(r)
    x = Explorer(g, INIT, tr, br, forget=forget)
    x.run()
    # a function without a return statement ends in 'leave'
    return g, x


def is_head(q, t):
    while t[0] in ("ctor", "init") and t[-1] and len(t[-1]) == 1: t = t[-1][0]
    return t[0] == "call" and t[2] == q.q and t[1].split("::")[-1] in ("front", "back", "top") or t[0] == "deref" and t[1][0] == "call" and t[1][2] == q.q and t[1][1].split("::")[-1] in ("begin", "cbegin")


def nothing(*a): pass


def waiters(P, q, rep):
    """condition -> condition variables on which some operation waits for it; and per cv the conditions."""
    w = {}; percv = {}
    for fn in q.ops:
        def on(kind, ev, s, g, extra=None):
            if kind == "retested":
                (cv, loc), fs = extra
                for c in fs:
                    if c in ("room", "nonempty", "notequal"):
                        c = "room" if c == "notequal" else c
                        w.setdefault(c, set()).add(cv); percv.setdefault(cv, set()).add(c)
        explore(P, q, fn, on)
    return w, percv


# ---------------------------------------------------------------------------
def check_P01(rep):
    rep.rule("Lockset typestate over the inlined flow graph of every public operation of the queue class: each evaluation of a member that holds items or capacity must occur with the class's mutex held; "
             "facts tested under the lock die when it is released, so acting on a stale answer is an access without a fresh test; every way out must have released the mutex, manual lock()/unlock() must not enclose an operation that may throw.")
    P, qs = load(rep)
    for q in qs:
        for fn in q.ops:
            touched = []
            def on(kind, ev, s, g, extra=None):
                L = s[0]
                if kind == "access":
                    touched.append(1)
                    rep.count("member accesses checked", 1, "%s %s" % (fn.name, ev.loc()))
                    if not locks.holds(L, q.m):
                        rep.violation("%s:unlocked:%s" % (fn.qn, ev.term[2]), ev.loc(), "%s accesses %s without holding %s" % (fn.disp, ev.term[2], q.mutex[0]))
                    elif not locks.holds(L, q.m, True):
                        rep.violation("%s:shared:%s" % (fn.qn, ev.term[2]), ev.loc(), "%s holds %s only in shared mode" % (fn.disp, q.mutex[0]))
                elif kind == "double":
                    rep.violation("%s:double" % fn.qn, ev.loc(), "%s locks %s while already holding it" % (fn.disp, q.mutex[0]))
                elif kind == "notheld":
                    rep.violation("%s:notheld" % fn.qn, ev.loc(), "%s unlocks a mutex it does not hold" % fn.disp)
                elif kind == "exit":
                    rep.count("ways out checked", 1)
                    if locks.held(L, q.m):
                        rep.violation("%s:leak" % fn.qn, ev.loc(), "%s can return with %s still locked" % (fn.disp, q.mutex[0]))
                elif kind in ("insert", "remove", "front"):
                    need = "room" if kind == "insert" else "nonempty"
                    rep.count("acts on a tested condition", 1, "%s %s" % (fn.name, ev.loc()))
                    if not (s[1] & ({"room", "notequal"} if kind == "insert" else {"nonempty"})):
                        rep.violation("%s:gap:%s" % (fn.qn, kind), ev.loc(), "%s acts on the queue (%s) without having tested in the same critical section that it may" % (fn.disp, ev.m))
                elif kind == "any":
                    if any(h[2] == "manual" for h in locks.held(L, q.m)) and may_throw(ev, q):
                        rep.violation("%s:manual" % fn.qn, ev.loc(), "%s locks %s by hand around an operation that may throw, which would leave it locked" % (fn.disp, q.mutex[0]))
            explore(P, q, fn, on)
            rep.count("operations that touch the state", 1 if touched else 0, fn.disp)
    rep.need("member accesses checked", 10); rep.need("operations that touch the state", 5)
    rep.assume("standard-library locks, condition variables and containers behave as specified; the element type's own operations do not touch the queue")


def may_throw(ev, q):
    if ev.kind == "ctor": return ev.rec not in locks.GUARDS and not ev.raw["callee"].get("nothrow")
    if ev.kind == "assign": return ev.qn is not None and not ev.raw["callee"].get("nothrow")
    if ev.rec in locks.MRECS or ev.rec in locks.GUARDS or ev.rec in locks.CVS: return False
    if ev.kind == "icall": return False
    return ev.m not in ("size", "empty", "front", "back", "pop", "top", "pop_front", "pop_back", "move", "forward", "begin", "end") and not ev.raw["callee"].get("nothrow")


def check_P02(rep):
    rep.rule("For every wait on a condition variable, the flow graph must re-evaluate the waited-for condition under the lock before any use of the queue or return; every path on which an operation inserts, removes or changes the capacity "
             "must afterwards (or earlier in the same critical section) notify each condition variable on which some operation waits for the condition that the change may make true, with notify_all where several waiters can be enabled or where one condition variable serves different conditions.")
    P, qs = load(rep)
    for q in qs:
        w, percv = waiters(P, q, rep)
        if "nonempty" not in w or "room" not in w:
            # blocking operations must exist and wait for these conditions; see which wait is without test
            pass
        nwaits = 0
        conditional = []
        allones = {}
        for fn in q.ops:
            def on(kind, ev, s, g, extra=None):
                nonlocal nwaits
                if kind == "wait":
                    nwaits += 1
                    rep.count("waits checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if not locks.holds(s[0], q.m):
                        rep.violation("%s:waitunlocked" % fn.qn, ev.loc(), "%s waits without holding %s" % (fn.disp, q.mutex[0]))
                elif kind in ("insert", "remove", "bulk", "setcap", "front"):
                    if kind != "front": rep.count("state changes checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if s[5] is not None:
                        rep.violation("%s:noretest" % fn.qn, ev.loc(), "%s proceeds after the wait at %s without testing its condition again" % (fn.disp, s[5][1]))
                elif kind == "notify": allones.setdefault(ev.obj, set()).add(ev.m); rep.count("notifications", 1, "%s %s" % (fn.disp, ev.loc())); 
                elif kind == "exit":
                    if s[5] is not None:
                        rep.violation("%s:noretest" % fn.qn, ev.loc(), "%s returns after the wait at %s without testing its condition again" % (fn.disp, s[5][1]))
                    for (cv, how, was) in s[3]:
                        if was: conditional.append((fn, cv, ev.loc())); continue
                        rep.violation("%s:nonotify:%s:%s" % (fn.qn, cv[2], how), ev.loc(),
                                      "%s can return after changing the queue without %s on %s, although threads may be waiting there for this change" % (fn.disp, "notify_all" if how == "all" else "a notification", cv[2]))
            explore(P, q, fn, on, w)
        for cv, conds in percv.items():
            if len(conds) > 1 and "notify_one" in allones.get(cv, ()):
                rep.violation("cv:%s:mixed" % cv[2], "%s:%d" % (q.rec["file"].replace(facts.REPO + "/", ""), q.rec["line"]), "notify_one on %s, on which threads wait for different conditions, can wake the wrong one" % cv[2])
        for fn, cv, loc in conditional:
            if "notify_one" in allones.get(cv, ()):
                rep.violation("%s:conditional:%s" % (fn.qn, cv[2]), loc, "%s signals %s only on some paths although single wake-ups are used on it" % (fn.disp, cv[2]))
        for c in ("nonempty", "room"):
            if c not in w: rep.violation("waitfor:%s" % c, "%s:%d" % (q.rec["file"].replace(facts.REPO + "/", ""), q.rec["line"]), "no blocking operation waits, with a re-test under the lock, for the queue to be %s" % ("non-empty" if c == "nonempty" else "below its capacity"))
            else: rep.count("waited-for conditions", 1, "%s on %s" % (c, ", ".join(sorted(x[2] for x in w[c]))))
        # every cv has waiters; a notify on a cv nobody waits on is harmless
    rep.need("waits checked", 2); rep.need("state changes checked", 4)
    rep.assume("a thread waiting on a condition variable with a predicate re-evaluates it under the lock (C++ standard)")


def from_item(g, t, depth=6):
    """Is the value the caller's item, possibly through local copies?"""
    if contains(t, ("p", 0)): return True
    if depth == 0: return False
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "v":
            i = texts.init_of(g, x)
            if i is not None and from_item(g, i, depth - 1): return True
    return False


def check_P03(rep):
    rep.rule("Every insertion into the item container must be dominated, within one critical section, by the fact size < capacity (size != capacity does not exclude an overfull queue after the capacity was lowered), every removal or look at the head by non-empty; "
             "insertions and removals use opposite ends; each removal is paired with exactly one read of the head that flows to the caller; a blocking push/pop transfers exactly once on every way out; an operation returning bool returns true exactly on the paths that transferred.")
    P, qs = load(rep)
    for q in qs:
        ends = {"ins": set(), "rem": set(), "read": set()}; lowers = []
        for fn in q.ops:
            res = {"exits": [], "kinds": set()}
            def on(kind, ev, s, g, extra=None):
                if kind == "setcap": lowers.append(fn); res["cap"] = True
                if kind == "return" and ev.term is not None and fn.name in ("size", "capacity"): told(rep, q, fn, ev)
                if kind == "insert":
                    res["kinds"].add("ins"); ends["ins"].add(extra)
                    rep.count("insertions checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if "room" not in s[1]:
                        rep.violation("%s:overfull" % fn.qn, ev.loc(), "%s inserts an item without having established, under the lock, that the queue holds fewer items than its capacity%s" % (fn.disp, " (it only excluded equality)" if "notequal" in s[1] else ""))
                    if not any(from_item(g, a) for a in ev.args):
                        rep.violation("%s:wrongitem" % fn.qn, ev.loc(), "%s inserts something other than the item it was given" % fn.disp)
                elif kind == "remove":
                    res["kinds"].add("rem"); ends["rem"].add(extra)
                    rep.count("removals checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if "nonempty" not in s[1]: rep.violation("%s:underflow" % fn.qn, ev.loc(), "%s removes from a queue that may be empty" % fn.disp)
                elif kind == "front":
                    ends["read"].add(extra)
                    rep.count("reads of the head checked", 1)
                    if "nonempty" not in s[1]: rep.violation("%s:emptyhead" % fn.qn, ev.loc(), "%s looks at the head of a queue that may be empty" % fn.disp)
                elif kind == "bulk": res["kinds"].add("bulk")
                elif kind == "return": res["exits"].append((ev, s))
                elif kind == "exit" : res["exits"].append((ev, s))
            explore(P, q, fn, on)
            K = res["kinds"]
            if fn.name == "set_capacity" and "cap" not in res:
                if not any(n["k"] == "MemberExpr" and n.get("m") in {c[2] for c in cap_fields(q)} for n in fn.nodes.values()): rep.violation("%s:capacity" % fn.qn, fn.loc(), "%s does not change the capacity" % fn.disp)
            if "bulk" in K and K != {"bulk"}:
                rep.violation("%s:bulk" % fn.qn, fn.loc(), "%s discards items as a side effect" % fn.disp)
            if not (K & {"ins", "rem"}):      # what its name promises
                if fn.raw.get("pt") and fn.name in ("push", "try_push", "emplace", "try_emplace"): K.add("ins")
                elif fn.name in ("pop", "try_pop"): K.add("rem")
                else: continue
            rep.count("transferring operations", 1, fn.disp)
            boolean = P.types[fn.raw["ret"]].get("bool")
            for ev, s in res["exits"]:
                ins, rem, taken = s[2]; hold = s[6]
                if ev.kind == "return" and boolean:
                    n = ins if "ins" in K else rem
                    rep.count("reported outcomes checked", 1)
                    t = ev.term
                    if t == ("c", 0) and not n and hold == ("moved",):
                        rep.violation("%s:takenaway" % fn.qn, ev.loc(), "%s reports failure after it has moved the caller's item away" % fn.disp)
                    if t[0] == "c":
                        if bool(t[1]) != (n == 1):
                            rep.violation("%s:status:%d" % (fn.qn, bool(t[1])), ev.loc(), "%s reports %s although it %s an item" % (fn.disp, "success" if t[1] else "failure", "transferred" if n else "did not transfer"))
                    else:
                        rep.violation("%s:status:unknown" % fn.qn, ev.loc(), "%s returns %s, which does not say whether an item was transferred" % (fn.disp, show(t)))
                if ev.kind != "leave": continue
                if ins > 1 or rem > 1: rep.violation("%s:twice" % fn.qn, ev.loc(), "%s can transfer more than one item" % fn.disp)
                if not boolean and not is_opt(P, fn) and ((ins == 0 and "ins" in K) or (rem == 0 and "rem" in K)):
                    rep.violation("%s:notransfer" % fn.qn, ev.loc(), "%s can return without having transferred an item" % fn.disp)
                if rem and not taken: rep.violation("%s:lost" % fn.qn, ev.loc(), "%s removes an item without taking its value" % fn.disp)
                if taken and not rem: rep.violation("%s:dup" % fn.qn, ev.loc(), "%s takes the value of an item but leaves the item in the queue" % fn.disp)
                if rem and taken and hold != "out" : rep.violation("%s:undelivered" % fn.qn, ev.loc(), "%s does not hand the removed item to its caller" % fn.disp)
        where = "%s:%d" % (q.rec["file"].replace(facts.REPO + "/", ""), q.rec["line"])
        if len(ends["ins"]) > 1 or len(ends["rem"]) > 1 or ends["ins"] & ends["rem"] or "any" in ends["ins"] or ends["read"] - ends["rem"]:
            rep.violation("fifo", where, "items are not inserted at one end and read and removed at the other (insert: %s, read: %s, remove: %s)" % tuple("/".join(sorted(ends[k])) for k in ("ins", "read", "rem")))
    rep.need("insertions checked", 2); rep.need("removals checked", 2); rep.need("transferring operations", 4)


def told(rep, q, fn, ev):
    """size() and capacity() report the number of items and the bound that insertions respect."""
    t = ev.term
    while t[0] == "conv": t = t[1]
    rep.count("reported numbers checked", 1)
    is_size = t[0] == "call" and t[1].split("::")[-1] in ("size", "ssize") and (t[2] == q.q or q.q in t[3])
    is_cap = t in cap_fields(q)
    if t[0] in ("c", "op") or is_size and fn.name == "capacity" or is_cap and fn.name == "size":
        rep.violation("%s:number" % fn.qn, ev.loc(), "%s does not report the %s of the queue" % (fn.disp, "number of items" if fn.name == "size" else "capacity"))


def is_opt(P, fn): return P.types[fn.raw["ret"]].get("rec") == "std::optional"
