"""P13: what a reader reads reaches every queue that was registered, once."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, events

PUSHES = ("push", "emplace", "try_push", "push_back", "try_emplace")
FILLS = ("fill_n", "fill", "memset", "memcpy", "copy", "copy_n", "generate_n", "memmove")
SHAPE = ("resize", "clear", "assign", "shrink_to_fit", "push_back", "insert", "erase")


def callname(t): return texts.fname(t[1]) if t[0] == "call" else None


def queue_fields(P):
    """Members of the readers that hold queues of chunks."""
    out = {}
    for r in P.records:
        if not r.get("qn", "").startswith("dottorrent::"): continue
        for f in r.get("fields", []):
            s = P.ts(f["t"])
            if "vector" in s.split("<")[0] and "concurrent_queue<" in s and "data_chunk" in s or f["t"] >= 0 and "queue_vector" in s: out.setdefault(r["qn"], {})[f["n"]] = s
    return out


def readers(P, rec):
    """Classes derived from rec."""
    out = set(); grew = True
    while grew:
        grew = False
        for r in P.records:
            if r.get("qn") in out: continue
            if any(b.get("rec", b.get("qn")) in out | {rec} if isinstance(b, dict) else b in out | {rec} for b in r.get("bases", [])): out.add(r["qn"]); grew = True
    return out


def of_queue(g, t, Q):
    """The queue container an element, iterator or size belongs to."""
    for x in subterms(t):
        if x[0] == "f" and x[1] == ("this",) and x[2] in Q: return x[2]
    for x in subterms(t):
        if x[0] in ("v", "lamarg", "ret"):
            b, ops = texts.origin(g, x)
            for y in subterms(b):
                if y[0] == "f" and y[1] == ("this",) and y[2] in Q: return y[2]
    return None


def check_P13(rep):
    rep.rule("The function that hands a chunk on is explored on all paths: it runs through every container of queues to its end, and in each round hands the unchanged item to that element exactly once. "
             "The functions that read are explored with a typestate for the buffer (fresh, filled, handed on): a filled buffer is handed on before it is released or replaced, unless nothing was read or the job was cancelled; a buffer that was handed on is neither written nor handed on again; every read and every file passed over advances the count of bytes, by the amount read; and the place a chunk is labelled with changes between two chunks.")
    P = facts.full()
    Q = queue_fields(P)
    if not Q: raise Broken("no class holds queues of chunks")
    for base, fields in Q.items():
        recs = readers(P, base) | {base}
        names = set(fields)
        rep.count("containers of queues", len(names), ", ".join(sorted(names)))
        fans = {}; users = []
        methods = [f for f in P.funcs.values() if f.rec in recs and f.blocks and not f.is_lambda]
        for f in methods:
            g = Graph(P, f, inline=lambda x: x.is_lambda or x.kind == "func" and x.file == f.file)
            got = set(); alias = set()
            for n in g.nodes:
                for ev in events(g, n, {}):
                    if ev.kind == "call" and ev.m in PUSHES and ev.obj is not None and not (ev.obj[0] == "f" and ev.obj[2] in names):
                        q = of_queue(g, ev.obj, names)
                        if q: got.add(q)
            if got: fans[f.fid] = (f, got)
        if not fans: raise Broken("no function hands chunks to the queues of %s" % base)
        fan_ids = set(fans)
        # a function that calls others which together serve all containers counts as one
        for f in methods:
            if f.fid in fan_ids: continue
            sub = {P.fn_of(n["callee"]).fid for n in f.nodes.values() if "callee" in n and P.fn_of(n["callee"]) is not None} & fan_ids
            if len(sub) > 1 and not any(n.get("callee", {}).get("n") == "read" for n in f.nodes.values()): fans[f.fid] = (f, set())
        top = {fid: v for fid, v in fans.items() if not any(fid in {(P.fn_of(n["callee"]) or f).fid for n in f.nodes.values() if "callee" in n} and f.fid != fid and f.fid in fans for f, _ in fans.values())}
        for fid, (f, got) in top.items(): fan(rep, P, f, names, recs)
        runs = [f for f in methods if any(n.get("callee", {}).get("n") == "read" for n in f.nodes.values()) or f.name == "run"]
        if not runs: raise Broken("no function of a reader reads")
        called = set()
        for f in methods:
            for n in f.nodes.values():
                c = P.fn_of(n["callee"]) if "callee" in n else None
                if c is not None and c.fid != f.fid: called.add(c.fid)
        roots = [f for f in methods if f.name == "run" or f.fid in {r.fid for r in runs} and f.fid not in called]
        for f in roots: chunks(rep, P, f, set(top), names, recs)
    rep.need("containers of queues", 2); rep.need("functions that hand chunks on", 1); rep.need("rounds over queues", 2); rep.need("functions that read", 2); rep.need("places that hand a chunk on", 3); rep.need("counts of bytes", 2)


def fan(rep, P, f, names, recs):
    g = Graph(P, f, inline=lambda x: x.is_lambda or x.rec in recs or x.kind == "func" and x.file == f.file)
    rep.count("functions that hand chunks on", 1, f.disp)
    bad = {}; rounds = set(); unknown = set()
    heads = {}
    for n in g.nodes:
        for d, c, pol in n.succ:
            if c is not None and c[0] != "ret" and not isinstance(pol, tuple):
                r = relation(g.T(c[0], c[1], {}), True)
                if r and "c" not in (r[1][0], r[2][0]):
                    q = of_queue(g, r[1], names) or of_queue(g, r[2], names)
                    if q: heads.setdefault(q, set()).add(n.i); rounds.add((n.i, q))
        for ev in events(g, n, {}):
            if ev.kind == "call" and texts.fname(ev.qn) in ("for_each", "for_each_n", "transform"):
                for a in ev.args:
                    q = of_queue(g, a, names)
                    if q: unknown.add(q); rounds.add((n.i, q)); break
    for n_, q in rounds: rep.count("rounds over queues", 1, "%s: %s" % (f.disp, q))
    for q in names:
        if q not in heads and q not in unknown:
            bad[("missing", q)] = (f.loc(), "%s does not run through %s" % (f.disp, q))
    def note(k, q, loc, msg): bad.setdefault((k, q), (loc, msg))
    # state: ((queue, rounds done?, pushed in this round or None), ...)
    qs = sorted(q for q in names if q in heads)
    def get(s, q): return s[qs.index(q)]
    def put(s, q, v): i = qs.index(q); return s[:i] + (v,) + s[i + 1:]
    def tr(ev, s, view):
        if ev.kind == "call" and ev.m in PUSHES and ev.obj is not None and not (ev.obj[0] == "f" and ev.obj[2] in names):
            q = of_queue(g, ev.obj, names)
            if q in qs:
                st = get(s, q)
                if st[1] is None: note("outside", q, ev.loc(), "%s hands a chunk to one queue of %s outside a round over all" % (f.disp, q))
                elif st[0] or st[1] >= 1: note("twice", q, ev.loc(), "%s hands a chunk twice to a queue of %s" % (f.disp, q))
                else: s = put(s, q, (st[0], 1))
                a = ev.args[0] if ev.args else None
                if a is not None and ev.aids:
                    i = ev.aids[0]; fn = ev.ctx.fn
                    for _ in range(6):
                        n = fn.nodes.get(i)
                        if n is None: break
                        if n["k"] == "CallExpr" and n.get("callee", {}).get("n") == "move":
                            t = g.T(ev.ctx, n["args"][0], {})
                            y = f.raw["pt"][t[1]] if t[0] == "p" and t[1] < len(f.raw["pt"]) else g.ctxs[t[1]].fn.vars.get(t[2], {}).get("t") if t[0] == "v" and t[1] >= 0 else None
                            if y is not None and not P.ts(y).startswith("const "): note("moved", q, ev.loc(), "%s moves the chunk into a queue while further queues follow" % f.disp)
                            break
                        c = n.get("c") or n.get("args") or []
                        if len(c) != 1: break
                        i = c[0]
                    if a == ("ctor", "x", ()): pass
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        for a, p in conjuncts(t, pol):
            if a[0] == "call" and texts.fname(a[1]) == "empty" and p and a[2] is not None and of_queue(g, a[2], names) in qs: s = put(s, of_queue(g, a[2], names), (True, None))
        r = relation(t, pol)
        if r and "c" not in (r[1][0], r[2][0]):
            q = of_queue(g, r[1], names) or of_queue(g, r[2], names)
            if q in qs:
                st = get(s, q)
                if st[1] == 0: note("skipped", q, view.node.loc(), "%s leaves out a queue of %s in some round" % (f.disp, q))
                more = r[0] in ("!=", "<", ">")
                s = put(s, q, (st[0], 0)) if more else put(s, q, (True, None))
        return s
    for s in Explorer(g, tuple((False, None) for _ in qs), tr, br, track="bool").run().at_exit:
        for q in qs:
            if not get(s, q)[0]: note("ends", q, f.loc(), "%s can end without having run through all of %s" % (f.disp, q))
    for (k, q), (loc, msg) in bad.items(): rep.violation("%s:%s:%s" % (f.disp, q, k), loc, msg)


def chunks(rep, P, f, fans, names, recs):
    g = Graph(P, f, inline=lambda x: (x.is_lambda or x.rec in recs or x.kind == "func" and x.file == f.file) and x.fid not in fans)
    rep.count("functions that read", 1, f.disp)
    bufs = set(); derived = set(); caps = set(); labels = set(); assigned = set()
    def key(t): return t[:3] if t[0] == "v" else t
    evs = [(n, ev) for n in g.nodes for ev in events(g, n, {})]
    def fresh(t): return any(x[0] == "call" and "object_pool" in x[1] and texts.fname(x[1]) == "get" for x in subterms(t))
    def isfan(ev):
        if ev.kind != "call": return False
        c = ev.raw.get("callee"); x = P.fn_of(c) if c else None
        return x is not None and x.fid in fans
    for n, ev in evs:
        if ev.kind in ("assign", "decl") and ev.rhs is not None and ev.lhs is not None and fresh(ev.rhs): bufs.add(key(ev.lhs))
        if ev.kind == "assign" and ev.lhs is not None: assigned.add(key(ev.lhs))
    if not bufs: raise Broken("%s takes no buffer from a pool" % f.disp)
    def dep(t):
        for x in subterms(t):
            if x[0] == "call" and texts.fname(x[1]) in ("gcount", "readsome"): return True
            if x[0] in ("v", "f") and key(x) in derived: return True
        return False
    for _ in range(4):
        for n, ev in evs:
            if ev.kind in ("assign", "decl") and ev.lhs is not None and ev.rhs is not None and (not ev.op or ev.op in ("=", "+=")) and dep(ev.rhs) and key(ev.lhs) not in bufs: derived.add(key(ev.lhs))
    def opened(t, d=0):
        """Subterms, those of the values of local copies included."""
        for x in subterms(t):
            yield x
            if x[0] == "v" and d < 4 and x[1] >= 0 and key(x) not in bufs and key(x) not in assigned:
                r = texts.init_of(g, x)
                if r is not None: yield from opened(r, d + 1)
    def has(t, b): return t is not None and any(key(x) == b for x in opened(t) if x[0] in ("v", "f"))
    for n, ev in evs:
        if isfan(ev):
            for a in ev.args:
                for x in opened(a):
                    if x[0] in ("v", "f") and key(x) in assigned and key(x) not in bufs: labels.add(key(x))
        if ev.kind == "call" and ev.m == "read" and len(ev.args) == 2: caps |= {ev.args[1]} | {x for x in subterms(ev.args[1]) if x[0] == "f"}
    B = sorted(bufs, key=str); bad = {}
    def note(k, ev, msg): bad.setdefault(k, (ev if isinstance(ev, str) else ev.loc(), msg))
    # per buffer: None (none), "fresh", "filled", "done"; then cancelled, count due, label used, file counted
    def tr(ev, s, view):
        st, canc, due, used, filec = s
        st = list(st)
        k = ev.kind
        if k in ("assign", "decl") and ev.lhs is not None:
            lk = key(ev.lhs)
            if lk in labels: used = False
            if lk in bufs and (k == "assign" or ev.rhs is not None):
                i = B.index(lk)
                if st[i] == "filled" and not canc: note("dropped", ev, "%s releases a buffer with data that was not handed on" % f.disp)
                st[i] = "fresh" if ev.rhs is not None and fresh(ev.rhs) else None
            if lk == ("f", ("this",), "bytes_read_") and ev.op in ("+=", "++"): due = False; filec = True; amount(ev, ev.rhs)
        elif k == "call":
            m = ev.m if ev.obj is not None else texts.fname(ev.qn)
            args = list(ev.args)
            if ev.obj is not None and m == "read" and any(has(a, b) for a in args for b in B):
                if due and not canc: note("uncounted", ev, "%s reads again before the bytes of the last read were counted" % f.disp)
                for i, b in enumerate(B):
                    if any(has(a, b) for a in args):
                        if st[i] == "done": note("overwritten", ev, "%s reads into a buffer that was already handed on" % f.disp)
                        st[i] = "filled"
                due = True
            elif m in FILLS and args and any(has(a, b) for a in args[:1] for b in B):
                for i, b in enumerate(B):
                    if has(args[0], b):
                        if st[i] == "done": note("overwritten", ev, "%s writes to a buffer that was already handed on" % f.disp)
                        st[i] = "filled"
            elif isfan(ev):
                rep.count("places that hand a chunk on", 1, ev.loc())
                if used: note("label", ev, "%s hands on two chunks under the same place" % f.disp)
                used = True
                some = False
                for i, b in enumerate(B):
                    if any(has(a, b) for a in args):
                        some = True
                        if st[i] == "done": note("twice", ev, "%s hands the same buffer on twice" % f.disp)
                        st[i] = "done"
                if some and due and not canc: note("uncounted", ev, "%s hands on a chunk before its bytes were counted" % f.disp)
            elif ev.obj is not None and m in ("reset", "swap") and any(key(ev.obj) == b for b in B):
                i = B.index(key(ev.obj))
                if st[i] == "filled" and not canc: note("dropped", ev, "%s releases a buffer with data that was not handed on" % f.disp)
                st[i] = None
            elif ev.obj is not None and m in SHAPE:
                for i, b in enumerate(B):
                    if has(ev.obj, b) and st[i] == "done": note("overwritten", ev, "%s changes a buffer that was already handed on" % f.disp)
            elif ev.obj is not None and m in ("fetch_add", "operator+=", "operator++") and ev.obj == ("f", ("this",), "bytes_read_"):
                due = False; filec = True
                if args: amount(ev, args[0])
            elif ev.obj is not None and m in ("fetch_sub", "store", "exchange") and ev.obj == ("f", ("this",), "bytes_read_"): note("count", ev, "%s sets back the count of bytes read" % f.disp)
        return (tuple(st), canc, due, used, filec)
    def amount(ev, a):
        rep.count("counts of bytes", 1, "%s: %s" % (ev.loc(), show(a)))
        while a[0] in ("conv", "narrow"): a = a[1] if a[0] == "conv" else a[3]
        if a[0] == "c" or a in caps or a[0] == "op" and a in caps: note("amount", ev, "%s counts %s bytes, not the number read" % (f.disp, show(a)))
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        st, canc, due, used, filec = s
        for a, p in conjuncts(t, pol):
            if a[0] == "call" and (texts.fname(a[1]) == "cancelled" or texts.fname(a[1]) in ("load", "operator bool") and a[2] is not None and "cancel" in show(a[2])) or a[0] == "f" and "cancel" in a[2]:
                if p: canc = True
                continue
            r = relation(a, p)
            zero = r and r[0] in ("==", "<=") and r[2] == ("c", 0) and dep(r[1]) or r and r[0] in ("==", ">=") and r[1] == ("c", 0) and dep(r[2]) or not r and not p and a[0] in ("v", "f") and dep(a) or r and r[0] == "<" and r[2] == ("c", 1) and dep(r[1])
            if zero:
                st = tuple("fresh" if x == "filled" else x for x in st)
                if due: filec = True             # nothing was read: nothing to count
                due = False
            if r and view.node.ctx.id == 0 and any(x[0] == "v" and (x[3].startswith("__begin") or x[3].startswith("__end")) or x[0] == "call" and texts.fname(x[1]) in ("end", "size", "cend") for y in r[1:] for x in subterms(y)) and "c" not in (r[1][0], r[2][0]):
                if filec is False and not canc: note("file", view.node.loc(), "%s passes over a file without advancing the count of bytes" % f.disp)
                filec = False if r[0] in ("!=", "<", ">") else None
        return (st, canc, due, used, filec)
    for s in Explorer(g, (tuple(None for _ in B), False, False, False, None), tr, br, track="bool").run().at_exit:
        st, canc, due, used, filec = s
        if canc: continue
        if "filled" in st: note("dropped", f.loc(), "%s can end with data that was not handed on" % f.disp)
        if due: note("uncounted", f.loc(), "%s can end before the bytes of the last read were counted" % f.disp)
    for k, (loc, msg) in bad.items(): rep.violation("%s:%s" % (f.disp, k), loc, msg)
