"""P25: the outcome of input and output is looked at before data is used or success reported."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, show, subterms, events

PASS = ("fill_n", "fill", "memset", "next", "advance", "move", "data", "begin", "forward", "addressof")
TESTS = {"fail": ("fail", True), "operator!": ("fail", True), "operator bool": ("fail", False), "good": ("fail", False), "is_open": ("open", True), "bad": ("bad", True), "eof": ("eof", True)}
WRITES = ("write", "put", "operator<<")


def key(t): return t[:3] if t[0] == "v" else t


def stream_kind(P, t):
    s = P.ts(t).replace("class ", "").replace("const ", "").strip(" &*")
    for k in ("ifstream", "ofstream", "fstream"):
        if s.startswith(("std::basic_" + k, "std::" + k, "basic_" + k)): return k
    return None


def check_P25(rep):
    rep.rule("Every function that opens, reads or writes a file is explored on all paths with a typestate per stream. Data read into a buffer may be passed on only after a test of the stream that succeeded (or the end of the file, or a full count) following the read, and a stream that was opened may be used as a source only after such a test. "
             "A file that was written must be closed or flushed and tested afterwards on every way to a normal return. A function that gets a stream to write to must use it, and not through an iterator whose failure nobody asks for.")
    P = facts.full()
    bad = {}
    fns = [f for f in P.funcs.values() if f.blocks and f.file.startswith(REPO + "/") and not f.is_lambda and "/tests/" not in f.file]
    fields = {}
    for r in P.records:
        for fl in r.get("fields", []):
            if fl["t"] >= 0 and stream_kind(P, fl["t"]): fields.setdefault(r["qn"], {})[fl["n"]] = stream_kind(P, fl["t"])
    called = set()
    for f in fns:
        for n in f.nodes.values():
            c = P.fn_of(n["callee"]) if "callee" in n else None
            if c is not None and c.fid != f.fid and c.file == f.file: called.add(c.fid)
    for f in fns:
        mine = {n: k for n, k in fields.get(f.rec, {}).items()} if f.rec else {}
        touches = [n for n in f.nodes.values() if n.get("callee", {}).get("n") in ("read", "open", "close", "get", "getline", "readsome") and n.get("callee", {}).get("qn", "").startswith("std::basic_")]
        local = [v for v in f.vars.values() if v["k"] == "local" and v["t"] >= 0 and stream_kind(P, v["t"]) and not P.types[v["t"]].get("ref")]
        if local or mine and touches:
            if f.fid in called and not local and not f.name == "run": continue       # seen from its callers
            explore(rep, P, f, mine, bad)
        # streams given by the caller
        for i, t in enumerate(f.raw["pt"]):
            s = P.ts(t)
            if not (("std::basic_ostream<" in s or "std::ostream" in s) and "&" in s and "const" not in s.split("basic_ostream")[0]): continue
            rep.count("streams given to write to", 1, f.disp)
            g = Graph(P, f, inline=lambda x: x.is_lambda)
            used = False; it = None; asked = False
            for n in g.nodes:
                for ev in events(g, n, {}):
                    for a in list(ev.args or []) + [ev.obj, ev.term, ev.rhs]:
                        if a is None: continue
                        if any(x == ("p", i) for x in subterms(a)):
                            used = True
                            if any(x[0] == "ctor" and "ostreambuf_iterator" in x[1] for x in subterms(a)) or ev.kind == "ctor" and "ostreambuf_iterator" in (ev.rec or ""): it = ev.loc()
                    if ev.kind == "call" and ev.m == "failed": asked = True
            if not used and f.raw.get("pnames", [None] * 9)[i:i + 1] != [""]:
                bad.setdefault((f.disp, "unused"), (f.loc(), "%s does not write to the stream it is given" % f.disp))
            if it and not asked: bad.setdefault((f.disp, "iterator"), (it, "%s writes through an iterator and does not ask whether that failed; the stream does not record it" % f.disp))
    for (q, k), (loc, msg) in bad.items(): rep.violation("%s:%s" % (q, k), loc, msg)
    rep.need("functions with streams", 3); rep.need("reads", 1); rep.need("tests of streams", 3); rep.need("uses of data read", 1); rep.need("files written", 1); rep.need("streams given to write to", 1)


def explore(rep, P, f, mine, bad):
    cls = f.rec
    g = Graph(P, f, inline=lambda x: x.is_lambda or cls and x.rec == cls and x.kind not in ("ctor", "dtor") and not uses_queues(x) or x.kind == "func" and x.file == f.file and takes_stream(P, x))
    evs = [(n, ev) for n in g.nodes for ev in events(g, n, {})]
    S = {}
    for c in g.ctxs:
        for d, v in c.fn.vars.items():
            if v["k"] == "local" and v["t"] >= 0 and stream_kind(P, v["t"]) and not P.types[v["t"]].get("ref"): S[("v", c.id, d)] = stream_kind(P, v["t"])
    for n_, k in mine.items(): S[("f", ("this",), n_)] = k
    def stream(t):
        for _ in range(8):
            if t is None: return None
            if key(t) in S: return key(t)
            if t[0] == "call" and texts.fname(t[1]) in ("read", "write", "open", "close", "flush", "get", "put", "operator<<", "operator>>", "seekg", "ignore", "peek", "move", "getline"):
                t = t[2] if t[2] is not None else (t[3][0] if t[3] else None); continue
            if t[0] in ("conv", "deref", "addr"): t = t[1]; continue
            return None
        return None
    if not any(stream(ev.obj) for n, ev in evs if ev.kind == "call" and ev.obj is not None) and not any(ev.kind == "decl" and key(ev.lhs) in S for n, ev in evs): return
    rep.count("functions with streams", 1, f.disp)
    bufs = {}; derived = set(); assigned = set()
    for n, ev in evs:
        if ev.kind == "assign" and ev.lhs is not None: assigned.add(key(ev.lhs))
        if ev.kind == "call" and ev.m in ("read", "readsome", "get", "getline") and stream(ev.obj) and ev.args:
            a = ev.args[0]; got = [x[2] for x in subterms(a) if x[0] == "call" and texts.fname(x[1]) in ("data", "begin", "front") and x[2] is not None] or [a]
            for b in got:
                for x in subterms(b):
                    if x[0] in ("v", "f") and key(x) not in S and not (x[0] == "v" and x[1] >= 0 and P.types[g.ctxs[x[1]].fn.vars[x[2]]["t"]].get("bits")) and x != ("this",): bufs[key(x)] = stream(ev.obj)
    def dep(t):
        return any(x[0] == "call" and texts.fname(x[1]) in ("gcount", "readsome") or x[0] in ("v", "f") and key(x) in derived for x in subterms(t))
    for _ in range(4):
        for n, ev in evs:
            if ev.kind in ("assign", "decl") and ev.lhs is not None and ev.rhs is not None and (not ev.op or ev.op in ("=", "+=")) and dep(ev.rhs): derived.add(key(ev.lhs))
    def opened(t, d=0):
        for x in subterms(t):
            yield x
            if x[0] == "v" and d < 4 and x[1] >= 0 and key(x) not in bufs and key(x) not in assigned:
                r = texts.init_of(g, x)
                if r is not None: yield from opened(r, d + 1)
    ids = sorted(S, key=str)
    def note(k, loc, msg): bad.setdefault((f.disp, k), (loc, msg))
    # per stream: (phase, fail, eof, bad, exceptions)
    def ok(x):
        ph, fail, eof, bd, full = x
        if fail is False or full: return True
        if ph == "read": return eof is True or bd is False
        return False
    def tr(ev, s, view):
        s = dict(zip(ids, s[0])), s[1], s[2]
        st, canc, exc = s
        k = ev.kind
        if k == "decl" and key(ev.lhs) in S:
            r = ev.rhs
            has = r is not None and r[0] == "ctor" and len(r[2]) > 0
            st[key(ev.lhs)] = ("out" if S[key(ev.lhs)] == "ofstream" else "open", None, None, None, False) if has else (None,) + (None,) * 3 + (False,)
            if has: rep.count("files opened", 1, ev.loc())
        if k in ("assign", "decl") and ev.lhs is not None and dep(ev.lhs) is False: pass
        if k == "call":
            o = stream(ev.obj) if ev.obj is not None else None
            m = ev.m
            if o:
                x = st[o]
                if m == "open": st[o] = ("out" if S[o] == "ofstream" else "open", None, None, None, False); rep.count("files opened", 1, ev.loc())
                elif m in ("read", "readsome", "get", "getline"):
                    rep.count("reads", 1, ev.loc())
                    if x[0] == "read" and not ok(x) and not canc and o not in exc: pass       # what was read before is judged when it is used
                    st[o] = ("read", None, None, None, False)
                elif m in WRITES: st[o] = ("dirty", None, None, None, False)
                elif m in ("close", "flush"):
                    if x[0] == "dirty":
                        st[o] = ("flushed", None, None, None, False)
                        if o in exc: st[o] = ("clean", False, None, None, False)
                    elif x[0] == "open" or x[0] == "read": pass
                elif m == "clear":
                    if x[0] == "read" and not ok(x) and not canc and o not in exc: note("cleared", ev.loc(), "%s clears the state of a stream after a read whose outcome was not looked at" % f.disp)
                    if x[0] in ("dirty", "flushed") and o not in exc: note("cleared", ev.loc(), "%s clears the state of a stream after a write whose outcome was not looked at" % f.disp)
                    st[o] = (x[0] if x[0] in ("dirty", "flushed") else None, None, None, None, x[4])
                elif m == "exceptions" and ev.args: exc = exc | {o}
            else:
                ss = {q for a in ev.args for q in [stream(a)] if q}
                for q in ss:
                    x = st[q]
                    if S[q] == "ofstream" or x[0] in ("out", "dirty", "flushed", "clean"): st[q] = ("dirty", None, None, None, False)
                    elif x[0] == "open" and not ok(x) and q not in exc and not canc: note("unopened", ev.loc(), "%s uses a file without having looked whether it could be opened" % f.disp)
                if ev.qn.startswith("dottorrent::") or ev.raw.get("callee") and P.fn_of(ev.raw["callee"]) is not None and P.fn_of(ev.raw["callee"]).file.startswith(REPO + "/"):
                    hit = {bufs[key(x)] for a in ev.args for x in opened(a) if x[0] in ("v", "f") and key(x) in bufs}
                    for q in hit:
                        x = st[q]
                        rep.count("uses of data read", 1, ev.loc())
                        if x[0] == "read" and not ok(x) and q not in exc: note("unread", ev.loc(), "%s passes data on before the outcome of reading it was looked at" % f.disp)
        if k == "ctor" and ev.args:
            for a in ev.args:
                q = stream(a)
                if q:
                    x = st[q]
                    if x[0] == "open" and not ok(x) and q not in exc: note("unopened", ev.loc(), "%s uses a file without having looked whether it could be opened" % f.disp)
                    if "ostreambuf_iterator" in (ev.rec or "") and q not in exc: note("iterator", ev.loc(), "%s writes through an iterator, whose failures the stream does not record" % f.disp)
                    if S[q] == "ofstream": st[q] = ("dirty", None, None, None, False)
        return (tuple(st[i] for i in ids), canc, exc)
    def atoms(t, pol, s):
        """Facts implied, a compound whose other parts are known resolved to the remaining one."""
        out = []
        for a, p in conjuncts(t, pol):
            if a[0] == "op" and a[1] in ("&&", "||") and p == (a[1] == "||"):
                parts = []; work = [a]
                while work:
                    x = work.pop()
                    if x[0] == "op" and x[1] == a[1]: work += [x[2], x[3]]
                    else: parts.append(x)
                left = [x for x in parts if truth(x, s) is None or truth(x, s) == p]
                if len(left) == 1: out += atoms(left[0], p, s)
                continue
            out.append((a, p))
        return out
    def test(a):
        if a[0] == "call" and a[2] is not None and texts.fname(a[1]) in TESTS:
            q = stream(a[2])
            if q: return (q,) + TESTS[texts.fname(a[1])]
        if a[0] in ("v", "f", "call", "conv"):
            q = stream(a)
            if q: return (q, "fail", False)
        return None
    def truth(a, s):
        pol = True
        while a[0] == "un" and a[1] == "!": a = a[2]; pol = not pol
        t = test(a)
        if not t: return None
        x = s[0][ids.index(t[0])]
        v = {"fail": x[1], "eof": x[2], "bad": x[3], "open": None if x[1] is None else not x[1]}[t[1]]
        return None if v is None else (v == t[2]) == pol
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        for a, p in atoms(t, pol, s):
            if a[0] == "call" and (texts.fname(a[1]) == "cancelled" or texts.fname(a[1]) in ("load", "operator bool") and a[2] is not None and "cancel" in show(a[2])):
                if p: s = (s[0], True, s[2])
                continue
            q = test(a)
            if q:
                i = ids.index(q[0]); x = s[0][i]; v = p == q[2]
                rep.count("tests of streams", 1, view.node.loc())
                if truth(a, s) is not None and truth(a, s) != p: return None
                if q[1] == "fail": x = (x[0], v, x[2] if v or x[0] != "read" else (x[2] if x[2] else x[2]), False if not v else x[3], x[4])
                elif q[1] == "open": x = (x[0], (not v) if x[0] in ("open", "out") else x[1], x[2], x[3], x[4])
                elif q[1] == "eof": x = (x[0], x[1], v, x[3], x[4])
                elif q[1] == "bad": x = (x[0], True if v else x[1], x[2], v, x[4])
                if x[0] == "flushed" and x[1] is False: x = ("clean",) + x[1:]
                s = (s[0][:i] + (x,) + s[0][i + 1:],) + s[1:]
                continue
            r = relation(a, p)
            if r and r[0] in ("==", ">=", "<=") and "c" not in (r[1][0], r[2][0]) and (dep(r[1]) and r[0] != "<=" or dep(r[2]) and r[0] != ">="):
                s = (tuple((x[0], x[1], x[2], x[3], True) if x[0] == "read" else x for x in s[0]),) + s[1:]
        return s
    init = (tuple((None, None, None, None, False) for _ in ids), False, frozenset())
    seen_out = set()
    for s in Explorer(g, init, tr, br, track="bool").run().at_exit:
        for i, x in zip(ids, s[0]):
            if x[0] in ("dirty", "flushed", "clean"):
                seen_out.add(i)
                if x[0] != "clean":
                    note("unwritten", f.loc(), "%s can return normally without having looked whether the file could be written%s" % (f.disp, "" if x[0] == "flushed" else " (after closing it)"))
    for i in seen_out: rep.count("files written", 1, f.disp)
    # the end of a file is accepted as the end of its data
    if derived and any(ev.kind == "call" and ev.m == "file_size" for n, ev in evs) | any(ev.kind == "call" and ev.m == "eof" for n, ev in evs) and "reader" in f.disp:
        cmp_ = False
        for n in g.nodes:
            for d, c, pol in n.succ:
                if c is None or c[0] == "ret" or isinstance(pol, tuple): continue
                t = g.T(c[0], c[1], {})
                if any(x[0] == "call" and texts.fname(x[1]) == "file_size" for x in opened(t)) and (dep(t) or any(x[0] == "call" and texts.fname(x[1]) in ("tellg", "gcount") for x in opened(t))): cmp_ = True
        rep.count("readers compared with recorded sizes", 1, f.disp)
        if not cmp_: note("size", f.loc(), "%s takes the end of a file for the end of its data without comparing with the recorded size" % f.disp)


def takes_stream(P, x):
    return any("stream" in P.ts(t) for t in x.raw["pt"])


def uses_queues(x):
    return x.name == "push"
