"""P14: stages stop from producer to consumer, and every worker is joined."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, show, subterms, events

STOPS = ("request_stop", "request_cancellation", "stop", "cancel")
WAITS = ("wait", "join")


def key(t): return t[:3] if t[0] == "v" else t


def field_of(g, t):
    """(field, is an element of it) a stage expression denotes."""
    el = False
    for _ in range(20):
        if t is None: return None
        if t[0] == "f" and t[1] == ("this",): return (t[2], el)
        if t[0] in ("deref", "addr", "conv"): t = t[1]; continue
        if t[0] in ("idx",): el = True; t = t[1]; continue
        if t[0] == "call" and texts.fname(t[1]) in ("get", "operator->", "operator*", "value", "begin", "end", "size", "front", "at", "emplace_back"):
            el = el or texts.fname(t[1]) in ("begin", "front", "at", "emplace_back"); t = t[2] if t[2] is not None else (t[3][0] if t[3] else None); continue
        if t[0] in ("v", "lamarg", "ret"):
            b, ops = texts.origin(g, t)
            if b == t: return None
            el = el or "elem" in ops; t = b; continue
        return None
    return None


def check_P14(rep):
    rep.rule("Which stage feeds which is taken from the registrations in start(). In every function of a job that stops or waits for stages, on all paths: a stage is told to stop only after every stage that feeds it was waited for, and on every normal return of a function that stopped or waited for one stage, every started stage was waited for. "
             "In a class with worker threads: waiting joins every thread on all paths after the start, threads are never detached, waking workers never blocks on the queue they may have stopped emptying, the workers report their end on every normal path, and after a cancellation nothing is asserted about work that was left undone.")
    P = facts.full()
    bad = {}
    jobs(rep, P, bad); workers(rep, P, bad)
    for (q, k), (loc, msg) in bad.items(): rep.violation("%s:%s" % (q, k), loc, msg)
    rep.need("jobs", 2); rep.need("feeding relations", 4); rep.need("functions that stop a job", 4); rep.need("classes with worker threads", 2); rep.need("functions that join", 2); rep.need("worker functions", 3)


def jobs(rep, P, bad):
    recs = {}
    for f in P.funcs.values():
        if f.name == "start" and f.rec and f.blocks and f.file.startswith(REPO + "/") and any(n.get("callee", {}).get("n", "").startswith("register_") for n in f.nodes.values()): recs[f.rec] = f
    for rec, start in recs.items():
        rep.count("jobs", 1, rec)
        methods = [f for f in P.funcs.values() if f.rec == rec and f.blocks and not f.is_lambda]
        g = Graph(P, start, inline=lambda x: x.is_lambda or x.rec == rec)
        feeds = {}; started = set()
        for n in g.nodes:
            for ev in events(g, n, {}):
                if ev.kind != "call" or ev.obj is None: continue
                if ev.m.startswith("register_") and ev.args:
                    a = field_of(g, ev.obj); q = None
                    for x in subterms(ev.args[0]):
                        if x[0] == "call" and "queue" in texts.fname(x[1]) and x[2] is not None: q = field_of(g, x[2])
                    if q is None and ev.args[0][0] == "v":
                        r = texts.init_of(g, ev.args[0])
                        if r is not None and r[0] == "call" and r[2] is not None: q = field_of(g, r[2])
                    if a and q: feeds.setdefault(q[0], set()).add(a[0]); rep.count("feeding relations", 1, "%s: %s -> %s" % (rec, a[0], q[0]))
                    else: rep.count("registrations not followed", 1, ev.loc())
                if ev.m == "start":
                    a = field_of(g, ev.obj)
                    if a: started.add(a[0])
        for y in set(feeds) | {x for v in feeds.values() for x in v}:
            if y not in started: bad.setdefault((rec, "start:" + y), (start.loc(), "%s registers %s but does not start it" % (start.disp, y)))
        order_starts(rep, P, g, start, feeds, bad)
        for f in methods:
            if f.fid == start.fid: continue
            gg = Graph(P, f, inline=lambda x: x.is_lambda or x.rec == rec and x.kind not in ("ctor", "dtor") and x.fid != f.fid)
            if not any(ev.kind == "call" and ev.obj is not None and ev.m in STOPS + ("wait",) and (field_of(gg, ev.obj) or ("",))[0] in started for n in gg.nodes for ev in events(gg, n, {})): continue
            rep.count("functions that stop a job", 1, f.disp)
            stop_order(rep, P, gg, f, feeds, started, bad)


def order_starts(rep, P, g, start, feeds, bad):
    """Consumers exist before what feeds them is started: nothing to decide beyond registration (queues are made with the stage)."""
    return


def heads(g, fields):
    """Loop tests over a container: {node: (field, operations in the body)}"""
    out = {}
    for n in g.nodes:
        for d, c, pol in n.succ:
            if c is None or c[0] == "ret" or isinstance(pol, tuple): continue
            r = relation(g.T(c[0], c[1], {}), True)
            if not r or "c" in (r[1][0], r[2][0]): continue
            for x in r[1:]:
                z = texts.init_of(g, x) if x[0] == "v" and not g._mutated(g.ctxs[x[1]].fn, x[2]) else None
                for y in list(subterms(x)) + (list(subterms(z)) if z is not None else []):
                    q = field_of(g, y) if y[0] in ("v", "call", "f") else None
                    if q and q[0] in fields: out.setdefault(n.i, q[0])
    return out


def stop_order(rep, P, g, f, feeds, started, bad):
    H = heads(g, started)
    many = {fl["n"] for r in P.records if r.get("qn") == f.rec for fl in r.get("fields", []) if fl["t"] >= 0 and P.ts(fl["t"]).split("<")[0].split("::")[-1] in ("vector", "list", "deque", "array", "set", "map")}
    # operations done on elements of a container anywhere in the function
    may = {}
    for n in g.nodes:
        for ev in events(g, n, {}):
            if ev.kind == "call" and ev.obj is not None and ev.m in STOPS + ("wait",):
                q = field_of(g, ev.obj)
                if q and q[0] in started and q[0] in many:
                    # the nearest loop test it is under
                    may.setdefault(q[0], {}).setdefault(loop_of(g, n, H, q[0]), set()).add("wait" if ev.m == "wait" else "stop")
    def note(k, loc, msg): bad.setdefault((f.disp, k), (loc, msg))
    def stop(y, s, loc):
        for x in feeds.get(y, ()):
            if x not in s[0]: note("order:" + y, loc, "%s tells %s to stop while %s can still feed it" % (f.disp, y, x))
        return s
    def tr(ev, s, view):
        if ev.kind == "call" and ev.obj is not None and ev.m in STOPS + ("wait",):
            q = field_of(g, ev.obj)
            if q and q[0] in started:
                rep.count("stops and waits", 1, ev.loc())
                if q[0] not in many:
                    if ev.m == "wait": return (s[0] | {q[0]}, True, s[2])
                    stop(q[0], s, ev.loc()); return (s[0], True, s[2])
                if ev.m != "wait": stop(q[0], s, ev.loc())
                return (s[0], True, s[2] | {(q[0], "wait" if ev.m == "wait" else "stop")})
        if ev.kind == "call" and "for_each" in ev.qn:
            for y in started:
                for a in ev.args[:1]:
                    q = field_of(g, a)
                    if q and q[0] == y and any("wait" in v for v in may.get(y, {}).values()): return (s[0] | {y}, True, s[2])
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        y = H.get(view.node.i)
        if y is None: return s
        r = relation(t, pol)
        if not r: return s
        ops = may.get(y, {}).get(view.node.i, set())
        if r[0] in ("!=", "<", ">"):
            for op in ops:
                if (y, "round:" + op) in s[2] and (y, op) not in s[2]: note("skips:" + y, view.node.loc(), "%s leaves out an element of %s" % (f.disp, y))
            return (s[0], s[1], frozenset(x for x in s[2] if not (x[0] == y and x[1] in ops)) | {(y, "round:" + op) for op in ops})
        for op in ops:
            if (y, "round:" + op) in s[2] and (y, op) not in s[2]: note("skips:" + y, view.node.loc(), "%s leaves out an element of %s" % (f.disp, y))
        s = (s[0] | ({y} if "wait" in ops else set()), s[1], frozenset(x for x in s[2] if x[0] != y))
        return s
    for s in Explorer(g, (frozenset(), False, frozenset()), tr, br, track="bool").run().at_exit:
        if s[1]:
            for y in sorted(started - s[0]): note("unwaited:" + y, f.loc(), "%s can return without having waited for %s" % (f.disp, y))


def loop_of(g, n, H, fld):
    """The loop test over fld that controls node n (nearest backwards)."""
    seen = {n.i}; todo = [n]
    while todo:
        x = todo.pop(0)
        if x.i in H and H[x.i] == fld: return x.i
        for p in x.pred:
            if p.i not in seen: seen.add(p.i); todo.append(p)
    return None


def workers(rep, P, bad):
    def note(q, k, loc, msg): bad.setdefault((q, k), (loc, msg))
    own = {}
    for r in P.records:
        for fl in r.get("fields", []):
            s = P.ts(fl["t"]) if fl["t"] >= 0 else ""
            if "std::jthread" in s or s in ("std::thread", "class std::thread") or "std::thread>" in s.replace("std::thread,", "std::thread>") or "vector<std::thread" in s:
                own.setdefault(r["qn"], {})[fl["n"]] = ("jthread" in s, "vector" in s.split("<")[0] or "array" in s.split("<")[0] or "list" in s.split("<")[0])
    derived = {}
    for r in P.records:
        for b in r.get("bases", []): derived.setdefault(b["qn"], set()).add(r["qn"])
    def below(q):
        out = {q}; todo = [q]
        while todo:
            for d in derived.get(todo.pop(), ()):
                if d not in out: out.add(d); todo.append(d)
        return out
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO + "/"): continue
        for n in f.nodes.values():
            if n.get("callee", {}).get("n") == "detach" and "thread" in n["callee"].get("qn", ""): note(f.disp, "detach", "%s:%s" % (f.file.replace(REPO + "/", ""), n.get("l", f.line)), "%s detaches a thread" % f.disp)
    seen = set()
    for rec, flds in own.items():
        if not (rec.startswith("dottorrent::")): continue
        rep.count("classes with worker threads", 1, rec)
        fam = below(rec)
        base = rec.split("<")[0]
        methods = [f for f in P.funcs.values() if f.rec and (f.rec in fam or f.rec.split("<")[0] == base) and f.blocks and not f.is_lambda]
        popped = set(); blocking = set()
        runs = []
        for f in methods:
            gg = None
            if f.name == "run" or any(n.get("callee", {}).get("n") in ("pop", "try_pop") for n in f.nodes.values()):
                gg = Graph(P, f, inline=lambda x: False)
                for n in gg.nodes:
                    for ev in events(gg, n, {}):
                        if ev.kind == "call" and ev.m in ("pop", "try_pop") and ev.obj is not None:
                            q = field_of(gg, ev.obj)
                            if q:
                                popped.add(q[0])
                                if ev.m == "pop": blocking.add(q[0])
            if f.name == "run": runs.append(f)
        called = {y.fid for f in methods for n in f.nodes.values() if n.get("callee") and f.kind != "dtor" for y in [P.fn_of(n["callee"])] if y is not None and y.fid != f.fid}
        for fld, (j, many) in flds.items():
            joins = []
            for f in methods:
                if f.kind in ("ctor",): continue
                if not any(n.get("callee", {}).get("n") == "join" for n in f.nodes.values()) and not (f.name == "wait"): continue
                if (f.fid, fld) in seen: continue
                seen.add((f.fid, fld))
                joined(rep, P, f, fld, many, popped, blocking, f.fid in called, note); joins.append(f)
            if not joins: note(rec, "join", methods[0].loc() if methods else rec, "no function of %s joins %s" % (rec, fld))
            if not j:
                d = [f for f in methods if f.kind == "dtor" and f.rec == rec]
                if not d or not any(n.get("callee", {}).get("n") in ("join", "wait") for n in d[0].nodes.values()): note(rec, "dtor", d[0].loc() if d else rec, "%s can be destroyed with a thread that was not joined" % rec)
        for f in runs:
            if f.fid not in seen: seen.add(f.fid); worker(rep, P, f, fam, note)


def joined(rep, P, f, fld, many, popped, blocking, helper, note):
    g = Graph(P, f, inline=lambda x: x.is_lambda or x.rec == f.rec and x.kind not in ("ctor", "dtor") and x.fid != f.fid and x.name not in ("push", "started", "done", "cancelled"))
    H = heads(g, {fld})
    body = {}
    for n in g.nodes:
        for ev in events(g, n, {}):
            if ev.kind == "call" and ev.m == "join" and ev.obj is not None and (field_of(g, ev.obj) or ("",))[0] == fld: body.setdefault(loop_of(g, n, H, fld), 0)
    rounds = cycle(g, [n for n in g.nodes if loop_of(g, n, H, fld) is None and any(ev.kind == "call" and ev.m == "join" and ev.obj is not None and (field_of(g, ev.obj) or ("",))[0] == fld for ev in events(g, n, {}))])
    if not body and not (f.name == "wait"): return
    rep.count("functions that join", 1, f.disp)
    if blocking and body and not helper and not any(ev.kind in ("call", "icall") and ev.obj is not None and (field_of(g, ev.obj) or ("",))[0] in blocking and ev.m not in ("pop", "try_pop", "size", "empty", "get") for n in g.nodes for ev in events(g, n, {})):
        note(f.disp, "wakes", f.loc(), "%s joins workers that may be waiting for an item of %s without waking them" % (f.disp, "/".join(sorted(blocking))))
    def tr(ev, s, view):
        if ev.kind == "call" and ev.obj is not None:
            if ev.m == "join" and (field_of(g, ev.obj) or ("",))[0] == fld: return ("in" if many and s[0] != "done" else "done", s[1])
            q = field_of(g, ev.obj)
            if ev.m in ("push", "emplace") and q and q[0] in popped: note(f.disp, "blocks", ev.loc(), "%s waits for room in %s, which the workers may no longer empty" % (f.disp, q[0]))
        if ev.kind == "call" and "for_each" in ev.qn and any((field_of(g, a) or ("",))[0] == fld for a in ev.args) and body: return ("done", s[1])
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        if view.node.i in rounds: return ("done", s[1])   # a round over the threads in a form that is not followed
        for a, p in conjuncts(t, pol):
            nm = texts.fname(a[1]) if a[0] == "call" else ""
            if (nm == "started" or nm in ("load", "operator bool") and a[2] is not None and "started" in show(a[2])) and not p: s = ("none", s[1])
            if nm == "joinable" and not p: s = ("in" if many else "done", s[1])
            if nm == "empty" and p and a[2] is not None and (field_of(g, a[2]) or ("",))[0] == fld: s = ("done", s[1])
        if H.get(view.node.i) == fld and view.node.i in body:
            r = relation(t, pol)
            if r:
                if r[0] in ("!=", "<", ">"):
                    if s[0] == "round": note(f.disp, "skips", view.node.loc(), "%s leaves out a thread when joining" % f.disp)
                    for x in r[1:]:
                        z = texts.init_of(g, x) if x[0] == "v" else None
                        if z is not None and z[0] == "c" and z[1] != 0 and g._mutated(g.ctxs[x[1]].fn, x[2]): note(f.disp, "skips", view.node.loc(), "%s leaves out a thread when joining" % f.disp)
                    if short(g, r, fld): note(f.disp, "skips", view.node.loc(), "%s ends its round over %s before the last thread" % (f.disp, fld))
                    s = ("round", s[1])
                else:
                    if s[0] == "round": note(f.disp, "skips", view.node.loc(), "%s leaves out a thread when joining" % f.disp)
                    s = ("done", s[1])
        return s
    for s in Explorer(g, ("no", 0), tr, br, track="bool").run().at_exit:
        if s[0] not in ("done", "none"): note(f.disp, "join", f.loc(), "%s can return without having joined every thread of %s" % (f.disp, fld))


def cycle(g, nodes):
    """Nodes on a cycle through one of these."""
    out = set()
    for n in nodes:
        def reach(nxt):
            seen = set(); todo = list(nxt(n))
            while todo:
                x = todo.pop()
                if x.i in seen: continue
                seen.add(x.i); todo += nxt(x)
            return seen
        byi = {x.i: x for x in g.nodes}
        fw = reach(lambda x: [byi[d] if d in byi else d for d in (y[0] if isinstance(y[0], int) else y[0].i for y in x.succ)])
        if n.i in fw: out |= fw & reach(lambda x: list(x.pred)) | {n.i}
    return out


def short(g, r, fld):
    """An index that counts up from 0 is kept below something less than the number of threads."""
    op, a, b = r
    if op == ">": op, a, b = "<", b, a
    if op not in ("<", "!="): return False
    def whole(t): return t[0] == "call" and texts.fname(t[1]) in ("size", "ssize") and any((field_of(g, x) or ("",))[0] == fld for x in ([t[2]] if t[2] is not None else list(t[3])))
    def index(t):
        if t[0] != "v" or not g._mutated(g.ctxs[t[1]].fn, t[2]): return False
        z = texts.init_of(g, t); return z is not None and z[0] == "c" and z[1] == 0
    def split(t):
        while t[0] == "conv": t = t[-1] if isinstance(t[-1], tuple) else t[1]
        if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4 and t[3][0] == "c": return t[2], t[3][1] if t[1] == "+" else -t[3][1]
        if t[0] == "op" and t[1] == "+" and len(t) == 4 and t[2][0] == "c": return t[3], t[2][1]
        return t, 0
    def clean(t):
        while t[0] == "conv": t = t[-1] if isinstance(t[-1], tuple) else t[1]
        if t[0] == "v" and not index(t):
            z = texts.init_of(g, t)
            if z is not None and not g._mutated(g.ctxs[t[1]].fn, t[2]): return clean(z)
        return t
    (x, i), (y, j) = split(clean(a)), split(clean(b))
    x, y = clean(x), clean(y)
    if op == "!=" and index(y): x, i, y, j = y, j, x, i
    return index(x) and whole(y) and j - i < 0


def worker(rep, P, f, fam, note):
    rep.count("worker functions", 1, f.disp)
    g = Graph(P, f, inline=lambda x: x.is_lambda or x.rec in fam and x.kind not in ("ctor", "dtor") and x.name not in ("push",) and len(x.nodes) < 400)
    assigned = set(); flags = False
    for n in g.nodes:
        for ev in events(g, n, {}):
            if ev.kind == "assign" and ev.lhs is not None: assigned.add(key(ev.lhs))
            if ev.kind == "call" and ev.m in ("pop", "try_pop"):
                for a in ev.args:
                    if a[0] in ("v", "f"): assigned.add(key(a))
    uses_done = any(fl["n"].startswith("done") for r in P.records if r["qn"] in fam | {f.rec} for fl in r.get("fields", []))
    def canc(a): return a[0] == "call" and (texts.fname(a[1]) == "cancelled" or texts.fname(a[1]) in ("load", "operator bool") and a[2] is not None and "cancel" in show(a[2])) or a[0] in ("f", "conv") and "cancel" in show(a)
    def tr(ev, s, view):
        if ev.kind == "assign" and ev.lhs is not None and "done" in show(ev.lhs): return (s[0], ev.rhs is None or ev.rhs[0] != "c" or bool(ev.rhs[1]), s[2])
        if ev.kind == "call" and ev.m == "store" and ev.obj is not None and "done" in show(ev.obj): return (s[0], not ev.args or ev.args[0][0] != "c" or bool(ev.args[0][1]), s[2])
        if ev.kind in ("call", "noreturn") and s[0] and s[2] and (ev.kind == "noreturn" or "fail_fast" in ev.qn or texts.fname(ev.qn) in ("terminate", "abort")):
            note(f.disp, "asserts", ev.loc(), "%s ends the program after a cancellation, because of work that was left undone: %s" % (f.disp, s[2]))
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        for a, p in resolve(t, pol, s):
            if canc(a):
                if s[0] and not p: return None
                if p: s = (True, s[1], s[2])
                continue
            if any(key(x) in assigned for x in subterms(a) if x[0] in ("v", "f")): s = (s[0], s[1], show(a)[:80])
            else: s = (s[0], s[1], "")
        return s
    def resolve(t, pol, s):
        out = []
        for a, p in conjuncts(t, pol):
            if a[0] == "op" and a[1] in ("&&", "||") and p == (a[1] == "||"): 
                if s[0] and a[1] == "&&" and any(canc(x) for x in (a[2], a[3])): out += resolve(a[3] if canc(a[2]) else a[2], False, s)
                continue
            out.append((a, p))
        return out
    for s in Explorer(g, (False, False, ""), tr, br, track="bool").run().at_exit:
        if uses_done and not s[1] and f.rec and any(x.startswith("done") for x in done_fields(P, fam | {f.rec})): note(f.disp, "done", f.loc(), "%s can end without reporting that it is done" % f.disp)


def done_fields(P, recs):
    return {fl["n"] for r in P.records if r["qn"] in recs for fl in r.get("fields", [])}
