"""P15: state written by workers is atomic or locked; no hidden shared state."""
import facts, texts, locks
from facts import Broken, REPO
from ir import Graph, Explorer, is_write, events, show
from rules.shutdown import STOPS

SYNC = ("std::atomic", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::once_flag", "std::condition_variable", "std::jthread", "std::thread", "std::stop_source", "std::stop_token", "std::counting_semaphore", "std::latch", "std::barrier", "dottorrent::concurrent_queue")


def synced(P, t):
    """A type whose own operations may be used from several threads."""
    s = P.ts(t).replace("const ", "").replace("class ", "").strip()
    if any(s.startswith(x) for x in SYNC): return True
    for c in ("std::vector<", "std::array<", "std::unique_ptr<", "std::shared_ptr<", "std::deque<", "std::list<"):
        if s.startswith(c) and any(s[len(c):].startswith(x) for x in SYNC): return True
    rec = P.types[t].get("rec", "") if t is not None and t >= 0 else ""
    return any(fl["t"] >= 0 and P.types[fl["t"]].get("rec", "").startswith(("std::mutex", "std::shared_mutex")) for r in P.records if r["qn"] == rec for fl in r.get("fields", []))


def lib(f): return f.file.startswith((REPO + "/include/", REPO + "/src/"))


class Uses:
    """Fields of the own object a function touches: [(field, node, write)]."""
    def __init__(self, P): self.P = P; self.memo = {}

    def of(self, f):
        if f.fid in self.memo: return self.memo[f.fid]
        out = []
        for i, n in f.nodes.items():
            if n["k"] == "MemberExpr" and n.get("dk") == "Field" and n.get("c") and self.own(f, n["c"][0]): out.append((n["qn"], i, is_write(f, i)))
        self.memo[f.fid] = out
        return out

    def own(self, f, i):
        for _ in range(6):
            n = f.nodes.get(i)
            if n is None: return False
            if n["k"] == "CXXThisExpr": return True
            if n["k"] in ("ImplicitCastExpr", "ParenExpr") or n["k"] == "UnaryOperator" and n.get("op") == "*": i = n["c"][0]; continue
            return False
        return False


def check_P15(rep):
    rep.rule("For every class that owns worker threads or gives a worker its work: the fields of the own object that the worker's functions write and that a const member function or a stop function touches, or that a stop function writes and the worker reads, are of a synchronised type or under one mutex at every such access; with several workers, a field they write is of such a type, under a mutex, or written by element of a container whose elements are separate objects. "
             "A field that is changed under a mutex of its object is under it at every access through the object. No function of the library changes a static or global variable, or a mutable field in a const function that workers call, unless it is synchronised, thread-local or under a lock.")
    P = facts.full(); U = Uses(P); bad = {}
    pipeline(rep, P, U, bad); guarded(rep, P, U, bad); statics(rep, P, bad); mutables(rep, P, U, bad)
    for (q, k), (loc, msg) in bad.items(): rep.violation("%s:%s" % (q, k), loc, msg)
    rep.need("worker functions", 10); rep.need("fields written by workers", 8); rep.need("observers", 20); rep.need("classes with a mutex", 1); rep.need("functions examined for static state", 100)


def roots(P):
    """Functions that run on threads of their own: [(function, several at a time, where)]."""
    out = {}
    def target(f, i, depth=0):
        n = f.nodes.get(i)
        if n is None or depth > 12: return []
        if n["k"] == "LambdaExpr": return [P.funcs[x] for x in [P.alias.get(y, y) for y in [n.get("fid")] + list(n.get("spec", []))] if x in P.funcs]
        if n["k"] == "DeclRefExpr":
            if n.get("fn"):
                y = P.fn_of(n["fn"])
                return [z for z in ([y] if y else []) + list(P.overriders.get(y.fid if y else n["fn"].get("fid"), [])) if z.blocks]
            v = f.vars.get(n.get("d"))
            if v and v.get("init") is not None: return target(f, v["init"], depth + 1)
            return []
        r = []
        for c in list(n.get("c", [])) + list(n.get("args", [])): r += target(f, c, depth + 1)
        return r
    def many(f, i):
        """Is the thread kept in a container?"""
        par = f.parents
        for _ in range(12):
            if i not in par: break
            i = par[i]; n = f.nodes[i]
            if n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n.get("args"):
                d = n["args"][0]; m = f.nodes[d]
                return not (m["k"] == "MemberExpr" and m.get("dk") == "Field")
        return True
    for f in P.funcs.values():
        if not lib(f) or not f.blocks: continue
        for i, n in f.nodes.items():
            c = n.get("callee") or {}
            thread = c.get("rec", "") in ("std::jthread", "std::thread") and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")
            if not thread and c.get("n") not in ("set_work_function", "async", "emplace_back"): continue
            if c.get("n") == "emplace_back" and not ("obj" in n and "thread" in P.ts(f.nodes[n["obj"]].get("t", -1))): continue
            for a in n.get("args", []):
                for y in target(f, a):
                    if y.blocks: out[y.fid] = (y, f, not thread or many(f, i))
    return list(out.values())


def closure(P, U, f, within=None):
    """Functions called on the same object from f (f included)."""
    seen = {f.fid: f}; todo = [f]
    while todo:
        x = todo.pop()
        for n in x.nodes.values():
            c = n.get("callee")
            if n["k"] == "LambdaExpr":
                y = P.funcs.get(P.alias.get(n.get("fid"), n.get("fid")))
                if y and y.blocks and y.fid not in seen: seen[y.fid] = y; todo.append(y)
            if not c or n["k"] != "CXXMemberCallExpr" or n.get("obj") is None or not U.own(x, n["obj"]): continue
            y = P.fn_of(c)
            for z in ([y] if y else []) + list(P.overriders.get(y.fid if y else c.get("fid"), [])):
                if z.blocks and z.fid not in seen and (within is None or z.rec is None or z.is_lambda or z.rec in within): seen[z.fid] = z; todo.append(z)
    return seen


class Access:
    __slots__ = ("q", "loc", "write", "elem", "held", "f", "t")
    def __init__(self, q, loc, write, elem, held, f, t): self.q = q; self.loc = loc; self.write = write; self.elem = elem; self.held = held; self.f = f; self.t = t


def accesses(P, root, within):
    """Accesses to fields of the own object, with the mutexes certainly held at each."""
    g = Graph(P, root, inline=lambda x: x.fid in within or x.is_lambda and lib(x))
    got = {}
    def tr(ev, s, view):
        if ev.kind == "touch" and ev.term[0] == "f" and ev.term[1] == ("this",):
            f = ev.node.ctx.fn; i = ev.node.n
            k = (f.fid, i); h = frozenset(show(x[0]) for x in s[0])
            if k in got: got[k].held &= h
            else: w, e = written(f, i); got[k] = Access(ev.raw["qn"], ev.loc(), w, e, h, f, ev.raw["t"])
        return locks.step(ev, s)[0]
    def br(t, pol, s, view): return s if isinstance(pol, tuple) else locks.branch(t, pol, s)
    Explorer(g, locks.EMPTY, tr, br, track=False).run()
    return list(got.values())


def written(f, i):
    """(is the field changed here, only one of its elements)"""
    par = f.parents; p = par.get(i)
    n = f.nodes[p] if p is not None else {}
    if n.get("k") in ("CallExpr",) and (n.get("callee") or {}).get("qn") in ("std::invoke", "std::invoke_r"): return (False, False)
    w = is_write(f, i)
    if bits(f.P, f.nodes[i]["t"]):
        x = p
        for _ in range(5):
            if x is None or x not in par: break
            y = f.nodes[par[x]]
            if y["k"] in ("CXXOperatorCallExpr", "BinaryOperator", "CompoundAssignOperator") and y.get("op", "").endswith("=") and y.get("op") not in ("==", "!=", "<=", ">=") and (y.get("args") or y.get("c"))[0] == x or y["k"] == "MemberExpr" and y.get("m") == "flip": w = True; break
            x = par[x]
    e = n.get("k") == "CXXOperatorCallExpr" and n.get("op") == "[]" or n.get("k") == "ArraySubscriptExpr" or n.get("k") == "MemberExpr" and n.get("m") in ("at", "data", "begin", "end", "front", "back")
    if n.get("k") == "ImplicitCastExpr" and p in par and f.nodes[par[p]]["k"] == "ArraySubscriptExpr": e = True
    return (w, e)


def single(P, rec):
    """Every constructor of the class hands its base the thread count 1."""
    cs = [f for f in P.funcs.values() if f.rec == rec and f.kind == "ctor" and f.blocks and not f.raw.get("copy") and not f.raw.get("move")]
    ok = False
    for f in cs:
        hit = False
        for n in f.nodes.values():
            if n["k"] == "CXXConstructExpr" and "chunk_processor_base" in n.get("rec", "") and n.get("args"):
                a = n["args"][-1]; m = f.nodes[a]
                while m["k"] in ("ImplicitCastExpr",): m = f.nodes[m["c"][0]]
                hit = str(m.get("val", m.get("v", ""))) == "1"
        if not hit: return False
        ok = True
    return ok


def pipeline(rep, P, U, bad):
    def note(q, k, loc, msg): bad.setdefault((q, k), (loc, msg))
    W = {}; R = {}
    jobs = []
    for y, host, many in roots(P):
        cl = closure(P, U, y)
        # virtual targets are examined one class at a time
        tops = [z for z in cl.values() if z.name == "run" and not z.is_lambda] or [y]
        for z in tops: jobs.append((z, many and not (z.rec and single(P, z.rec))))
    recs = set()
    done = set()
    for z, many in jobs:
        if z.fid in done: continue
        done.add(z.fid)
        cl = closure(P, U, z)
        rep.count("worker functions", len(cl), z.disp)
        for x in cl.values():
            for a in (accesses(P, z, set(cl)) if x is z else []):
                d = W if a.write else R
                d.setdefault(a.q, []).append((a, many))
                recs.add(a.q.rsplit("::", 1)[0])
    for q in W: rep.count("fields written by workers", 1, q)
    # observers
    fams = set(recs)
    for r in P.records:
        if any(b["qn"] in fams for b in r.get("bases", [])): fams.add(r["qn"])
    O = {}
    seen = set()
    for f in P.funcs.values():
        if not f.rec or f.rec not in fams and f.raw.get("rec") not in fams or not f.blocks or f.is_lambda or f.kind in ("ctor", "dtor"): continue
        if not (f.raw.get("const") or f.name in STOPS): continue
        if (f.disp, f.line) in seen: continue
        seen.add((f.disp, f.line))
        rep.count("observers", 1, f.disp)
        for a in accesses(P, f, set(closure(P, U, f))): O.setdefault(a.q, []).append(a)
    for q in sorted(set(W) | set(R)):
        ws = W.get(q, []); rs = R.get(q, []); os = O.get(q, [])
        t = (ws or rs)[0][0].t
        if sync(P, t): rep.count("synchronised fields", 1, q); continue
        short = q.split("::")[-1]
        pairs = [(w, o) for w, _ in ws for o in os] + [(o, r) for o in os if o.write for r, _ in ws + rs]
        for a, b in pairs:
            if not (a.held & b.held): note(q, "observed", a.loc, "%s is changed by %s while %s (%s) may use it, neither atomic nor under a common lock" % (short, a.f.disp, b.f.disp, b.loc)); break
        for w, many in ws:
            if not many: continue
            if w.elem and not bits(P, w.t): continue
            for o, m2 in ws + rs:
                if not (w.held & o.held): note(q, "workers", w.loc, "%s is changed by %s, which several workers run at a time, neither atomic nor under a common lock" % (short, w.f.disp)); break


def sync(P, t):
    if synced(P, t): return True
    e = P.types[t]
    s = P.ts(t)
    if not s.startswith(("std::vector", "std::array", "std::deque")): return False
    inner = s.split("<", 1)[1].split("<")[0].split(",")[0].strip()
    return any(r["qn"] == inner and any(fl["t"] >= 0 and P.types[fl["t"]].get("rec", "") in ("std::mutex", "std::shared_mutex") for fl in r.get("fields", [])) for r in P.records)


def bits(P, t): return P.ts(t).replace("const ", "").startswith(("std::vector<bool", "std::bitset"))


def guarded(rep, P, U, bad):
    def note(q, k, loc, msg): bad.setdefault((q, k), (loc, msg))
    for rec in sorted({r["qn"] for r in P.records if r["qn"].startswith("dottorrent") for fl in r.get("fields", []) if fl["t"] >= 0 and P.types[fl["t"]].get("rec", "") in ("std::mutex", "std::shared_mutex", "std::recursive_mutex")}):
        if rec.split("<")[0] in ("dottorrent::concurrent_queue", "dottorrent::merkle_tree"): continue      # decided by P01 and P11
        rep.count("classes with a mutex", 1, rec)
        fns = [f for f in P.funcs.values() if f.rec == rec and f.blocks and not f.is_lambda and f.kind not in ("ctor", "dtor") and f.name != "operator="]
        A = []
        helpers = set()
        for f in fns:
            cl = closure(P, U, f, within={rec})
            if f.raw.get("access") == "private": helpers.add(f.fid); continue
            A += accesses(P, f, set(cl))
        rep.count("accesses in classes with a mutex", len(A), rec)
        for q in sorted({a.q for a in A}):
            here = [a for a in A if a.q == q]
            if synced(P, here[0].t): continue
            if not any(a.write for a in here): continue
            with_ = {}
            for a in here:
                for m in a.held: with_.setdefault(m, set()).add(a.f.disp)
            if not with_: continue
            m = max(sorted(with_), key=lambda x: len(with_[x]))
            users = {a.f.disp for a in here}
            if 2 * len(with_[m]) <= len(users) and not any(a.write and m in a.held for a in here): continue      # touched under it only by chance
            for a in here:
                if m not in a.held: note(a.f.disp, "unlocked:" + q.split("::")[-1], a.loc, "%s %s %s without %s, under which it is used elsewhere" % (a.f.disp, "changes" if a.write else "uses", q.split("::")[-1], m))


def statics(rep, P, bad):
    def note(q, k, loc, msg): bad.setdefault((q, k), (loc, msg))
    for f in P.funcs.values():
        if not lib(f) or not f.blocks: continue
        rep.count("functions examined for static state", 1)
        hot = {}
        for d, v in f.vars.items():
            if v["k"] not in ("static", "global") or v.get("tls"): continue
            t = P.types[v["t"]]
            if t.get("const") or synced(P, v["t"]): continue
            if t.get("ref"): continue
            hot[d] = v
        if not hot: continue
        uses = [(i, n["d"]) for i, n in f.nodes.items() if n["k"] == "DeclRefExpr" and n.get("d") in hot and is_write(f, i)]
        for i, d in uses:
            if std_name(hot[d]): continue
            if v_returned(f, i): continue
            rep.count("changes of static state", 1, f.loc(i))
            if not locked_at(P, f, i): note(f.disp, "static:" + hot[d]["n"], f.loc(i), "%s changes %s, which all threads share, without a lock" % (f.disp, hot[d]["n"]))


def std_name(v): return str(v.get("qn", "")).startswith("std::")


def v_returned(f, i):
    """Handing out a reference to the static object is not a change of it."""
    par = f.parents; p = i
    while p in par and f.nodes[par[p]]["k"] in ("ImplicitCastExpr", "ParenExpr"): p = par[p]
    return p in par and f.nodes[par[p]]["k"] == "ReturnStmt"


def locked_at(P, f, i):
    g = Graph(P, f, inline=lambda x: x.is_lambda)
    ok = [True]; seen = [False]
    def tr(ev, s, view):
        if ev.kind == "vtouch" and ev.node.ctx.fn.fid == f.fid and ev.node.n == i:
            seen[0] = True
            if not s[0]: ok[0] = False
        return locks.step(ev, s)[0]
    def br(t, pol, s, view): return s if isinstance(pol, tuple) else locks.branch(t, pol, s)
    Explorer(g, locks.EMPTY, tr, br, track=False).run()
    return seen[0] and ok[0]


def reach(P, fs):
    """Everything the given functions may call."""
    seen = {f.fid: f for f in fs}; todo = list(fs)
    while todo:
        x = todo.pop()
        for n in x.nodes.values():
            c = n.get("callee"); ys = []
            if n["k"] == "LambdaExpr": ys = [P.funcs.get(P.alias.get(n.get("fid"), n.get("fid")))]
            if c:
                y = P.fn_of(c); ys += [y] + list(P.overriders.get(y.fid if y else c.get("fid"), []))
            for y in ys:
                if y and y.blocks and y.fid not in seen and lib(y): seen[y.fid] = y; todo.append(y)
    return seen


def mutables(rep, P, U, bad):
    mut = {r["qn"] + "::" + fl["n"] for r in P.records for fl in r.get("fields", []) if fl.get("mutable") and not synced(P, fl["t"])}
    rep.count("mutable fields", len(mut))
    rs = reach(P, [y for y, h, m in roots(P)])
    rep.count("functions workers may call", len(rs))
    for f in rs.values():
        if not f.raw.get("const") or f.is_lambda: continue
        ws = {q for q, i, w in U.of(f) if w and q in mut}
        if not ws: continue
        for a in accesses(P, f, set()):
            if a.write and a.q in ws and not a.held: bad.setdefault((f.disp, "mutable:" + a.q.split("::")[-1]), (a.loc, "%s, which workers call on an object they share, changes %s without a lock" % (f.disp, a.q.split("::")[-1])))
