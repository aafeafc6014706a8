"""P12: verification marks a piece as valid only by the outcome of comparing digests of that piece."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, events
from rules.malformed import Canon, subst, recanon

STORED = ("get_piece_hash", "pieces_root", "piece_layer", "piece_layers")
COMPUTED = ("root", "get_layer", "get_node", "node", "layer")
BYTES = ("first", "last", "truncated_v2", "truncate", "front", "back")
CMPS = ("memcmp", "strncmp", "equal", "bcmp")


def callname(t): return texts.fname(t[1]) if t[0] == "call" else None


class Side:
    """Where one operand of a comparison comes from."""
    def __init__(self, t, more=()):
        self.t = t; self.kinds = set(); self.sel = set(); self.elem = None; self.whole = True
        if t[0] in ("idx", "at"): self.elem = t[2]
        for x in [x for u in (t,) + tuple(more) for x in subterms(u)]:
            m = callname(x)
            if m in STORED:
                self.kinds.add("stored")
                if m == "get_piece_hash" and x[3]: self.sel.add(x[3][0])
            elif m in COMPUTED and x[2] is not None: self.kinds.add("computed")
            elif x[0] == "f" and x[2] == "hash" and x[1][0] in ("p", "lamarg"): self.kinds.add("computed"); self.sel.add(("f", x[1], "index"))
            if x[0] in ("idx", "at") and len(x) == 3 and x[1][0] == "f" and "tree" in str(x[1][2]): self.sel.add(x[2]); self.kinds.add("computed")
            if x[0] in ("idx", "at") and len(x) == 3 and "storage" in show_(x[1]) and not any(callname(y) in STORED for y in subterms(x[1])): self.sel.add(x[2])


def show_(t):
    try: return show(t)
    except Exception: return str(t)


def comparison(t):
    """The two operands when t compares two digests in full; ("partial", why) when it compares a part."""
    if t[0] == "op" and t[1] in ("==", "!="): return t[1], t[2], t[3]
    return None


def check_P12(rep):
    rep.rule("In every class that reports verification results, each place that stores into the reported map is followed along all paths of the (inlined) function: what is stored is zero, the outcome of comparing a recorded digest with a computed one, or a mark on a way where such a comparison succeeded. "
             "The recorded digest, the computed one and the entry of the map must be selected by the same piece or file index, and a tree's hashes are used only after it was completed. Forms the rule cannot follow are accepted and counted.")
    P = facts.full()
    maps = {}
    for f in P.funcs.values():
        if f.name == "result" and f.blocks and f.rec and "vector<unsigned char" in P.ts(f.raw["ret"]).replace("std::", ""):
            g = Graph(P, f, inline=lambda x: False)
            for n in g.nodes:
                for ev in events(g, n, {}):
                    if ev.kind == "return" and ev.term is not None and ev.term[0] == "f" and ev.term[1] == ("this",): maps[f.rec] = ev.term[2]
    if len(maps) < 2: raise Broken("classes that report verification results not found (%d)" % len(maps))
    for rec, fld in maps.items():
        rep.count("result maps", 1, "%s::%s" % (rec, fld))
        M = ("f", ("this",), fld)
        funs = [f for f in P.funcs.values() if f.rec == rec and f.blocks and not f.is_lambda and f.kind != "dtor"]
        targets = {f.fid for f in funs}
        called = set()
        for f in funs:
            for n in f.nodes.values():
                if "callee" in n:
                    c = P.fn_of(n["callee"])
                    if c is not None and c.fid in targets and c.access != "public": called.add(c.fid)
        for f in funs:
            if f.fid in called and f.kind != "ctor": continue       # seen from its callers
            judge(rep, P, rec, f, M)
    rep.need("result maps", 2); rep.need("stores into a result map", 4); rep.need("comparisons of digests", 3); rep.need("leaves stored", 1)


def judge(rep, P, rec, fn, M):
    g = Graph(P, fn, inline=lambda x: x.rec == rec or x.is_lambda or x.kind == "func" and x.file.startswith(REPO + "/src") and len(x.nodes) < 200)
    C = Canon(g); bad = {}
    def base_is(t):
        for x in subterms(t):
            if x == M: return True
        return False
    assigned = {}
    for n in g.nodes:
        for ev in events(g, n, {}):
            if ev.kind in ("assign", "decl") and ev.lhs is not None and ev.rhs is not None and ev.lhs[0] == "v": assigned.setdefault(ev.lhs[:3], []).append(ev.rhs)
    def side(t):
        """A side, with everything its variables were given."""
        more = []; todo = [t]; seen = set()
        while todo:
            for z in subterms(todo.pop()):
                if z[0] == "v" and z[:3] not in seen and z[1] >= 0:
                    v = g.ctxs[z[1]].fn.vars.get(z[2])
                    if v is None or P.types[v["t"]].get("bits"): continue
                    seen.add(z[:3])
                    for r in assigned.get(z[:3], []): more.append(C(r)); todo.append(C(r))
        return Side(t, more)
    def digest(t, pol):
        """(stored side, computed side, in full) for facts about equal digests."""
        out = []
        for a, p in conjuncts(C(t), pol):
            r = relation(a, p)
            if r and r[0] == "==" and "c" not in (r[1][0], r[2][0]):
                x, y = side(r[1]), side(r[2])
                if x.kinds or y.kinds: out.append((x, y, a))
            if a[0] == "call" and callname(a) == "equal" and p and len(a[3]) >= 3:
                x, y = side(a[3][0]), side(a[3][2]); x.whole = not any(z[0] == "op" and z[1] in ("+", "-") and z[3][0] == "c" for z in subterms(a[3][1])); out.append((x, y, a))
            if r and r[0] == "==" and r[2] == ("c", 0) and r[1][0] == "call" and callname(r[1]) in CMPS and len(r[1][3]) == 3:
                x, y, n = side(r[1][3][0]), side(r[1][3][1]), r[1][3][2]
                if x.kinds or y.kinds:
                    x.whole = not (n[0] == "c" and isinstance(n[1], int) and n[1] < (20 if any(callname(z) == "get_piece_hash" for s_ in (x, y) for z in subterms(s_.t)) else 32))
                    out.append((x, y, a))
        return out
    def good(x, y, idx, ev, what):
        rep.count("comparisons of digests", 1, "%s: %s against %s" % (ev.loc(), show_(x.t), show_(y.t)))
        if not ("stored" in x.kinds and "computed" in y.kinds and "stored" not in y.kinds or "stored" in y.kinds and "computed" in x.kinds and "stored" not in x.kinds):
            if x.kinds and y.kinds: note(ev, "source", "%s compares %s with %s: not a recorded digest with a computed one" % (fn.disp, show_(x.t), show_(y.t)))
            return
        if not x.whole or not y.whole: note(ev, "partial", "%s compares only a part of a digest" % fn.disp)
        for s in (x, y):
            if any(callname(z) in BYTES for z in subterms(s.t)): note(ev, "partial", "%s compares only a part of a digest: %s" % (fn.disp, show_(s.t)))
        sels = {norm(s) for s in x.sel | y.sel}
        ids = set()
        for z in subterms(idx):
            if z[0] in ("idx", "at") and len(z) == 3 and "offset" in show_(z[1]): ids.add(norm(z[2]))
        if not ids and idx[0] in ("f", "p", "v", "c"): ids = {norm(idx)} if idx[0] != "v" else index_source(idx)
        allof = sels | ids
        if len(allof) > 1 and all(known(s) for s in allof): note(ev, "index", "%s: digests and result are not those of the same piece: %s" % (fn.disp, ", ".join(sorted(show_(s) for s in allof))))
        if x.elem is not None and y.elem is not None and x.elem != y.elem and known(x.elem) and known(y.elem): note(ev, "index", "%s compares element %s with element %s" % (fn.disp, show_(x.elem), show_(y.elem)))
        if x.elem is not None and x.elem[0] == "v" and idx[0] != "none" and stepped(x.elem) and not any(z[0] == "v" and stepped(z) for z in subterms(idx)):
            note(ev, "index", "%s: the position in the result does not advance with the compared element" % fn.disp)
    def stepped(v):
        return any(ev.kind == "assign" and ev.lhs is not None and ev.lhs[:3] == v[:3] for n in g.nodes for ev in events(g, n, {}))
    def index_source(v):
        r = texts.init_of(g, v)
        if r is None: return set()
        return {norm(z[2]) for z in subterms(C(r)) if z[0] in ("idx", "at") and len(z) == 3 and "offset" in show_(z[1])}
    def norm(t):
        while t[0] in ("conv", "narrow"): t = t[1] if t[0] == "conv" else t[3]
        return t
    def known(t): return t[0] in ("p", "c") or t[0] == "f" and t[1][0] in ("p", "lamarg") or t[0] == "v"
    def note(ev, kind, msg): bad.setdefault((ev.ctx.fn.qn, kind), (ev.loc(), msg))
    def store(ev, idx, val, s):
        v = C(val)
        rep.count("stores into a result map", 1, "%s: %s" % (ev.loc(), show_(v)))
        while v[0] == "un" and v[1] == "!" and v[2][0] == "un" and v[2][1] == "!": v = v[2][2]
        if v[0] == "ite": 
            cs = [v[2], v[3]]
            if v[2][0] == "c" and v[3] == ("c", 0) and v[2][1]: v = v[1]
            elif v[3][0] == "c" and v[2] == ("c", 0) and v[3][1]: v = ("un", "!", v[1])
        if v[0] == "c":
            if not v[1]: return
            facts_ = [f for f in s[0]]
            if not facts_: note(ev, "unconditional", "%s marks a piece as valid on a way where no digests were compared" % fn.disp); return
            for x, y, a in (FACTS[f] for f in facts_): good(x, y, C(idx), ev, "mark")
            return
        pol = True
        while v[0] == "un" and v[1] == "!": v = v[2]; pol = not pol
        parts = conjuncts(v, pol)
        ds = digest(v, pol)
        if not ds:
            if v[0] == "op" and v[1] == "||": note(ev, "weak", "%s marks a piece as valid when one of several conditions holds: %s" % (fn.disp, show_(v)))
            elif v[0] == "op" and v[1] in ("!=",) and pol and digest(v, False): note(ev, "inverted", "%s marks a piece as valid when the digests differ" % fn.disp)
            elif v[0] == "op" and v[1] == "==" and not pol: note(ev, "inverted", "%s marks a piece as valid when the digests differ" % fn.disp)
            elif v[0] == "op" and v[1] in ("<=", ">=", "<", ">"): note(ev, "order", "%s marks a piece as valid by an order, not by equality" % fn.disp)
            elif v[0] in ("p",) or v[0] == "f" and v[1][0] in ("p", "lamarg"): note(ev, "passed", "%s stores a value it was given without comparing digests" % fn.disp)
            else: rep.count("stores not followed", 1, "%s %s" % (ev.loc(), show_(v)))
            return
        for x, y, a in ds: good(x, y, C(idx), ev, "store")
    FACTS = {}
    def tr(ev, s, view):
        k = ev.kind
        if k == "assign" and ev.lhs is not None and ev.lhs[0] in ("idx", "deref") and base_is(ev.lhs) and ev.op in ("=", "|="):
            store(ev, C(ev.lhs[2]) if ev.lhs[0] == "idx" else C(ev.lhs[1]), ev.rhs, s)
        elif k == "assign" and ev.lhs is not None and ev.lhs[0] == "call" and callname(ev.lhs) == "at" and ev.lhs[2] is not None and base_is(ev.lhs[2]) and ev.op == "=": store(ev, C(ev.lhs[3][0]), ev.rhs, s)
        elif k == "call" and callname(("call", ev.qn)) in ("fill", "fill_n") and ev.args and base_is(C(ev.args[0])):
            idx = next((a for x in subterms(C(ev.args[0])) if x[0] == "call" and callname(x) in ("next", "operator+") and len(x[3]) == 2 for a in [x[3][1]]), None)
            if idx is None:
                a = C(ev.args[0]); idx = a[3] if a[0] == "op" and a[1] == "+" else ("none",)
            store(ev, idx, ev.args[-1], s)
        elif k == "call" and ev.obj is not None and C(ev.obj) == M and ev.m in ("assign", "resize", "push_back", "emplace_back", "insert"):
            a = [C(x) for x in ev.args]
            v = a[0] if ev.m in ("push_back", "emplace_back") and a else a[1] if len(a) > 1 else ("c", 0)
            store(ev, ("none",), v, s)
        elif k == "fieldinit" and ev.lhs == M:
            a = C(ev.rhs)
            if a[0] == "ctor" and len(a[2]) == 2: store(ev, ("none",), a[2][1], s)
        elif k == "call" and ev.m == "set_leaf" and ev.obj is not None and len(ev.args) == 2:
            i, h = C(ev.args[0]), C(ev.args[1]); o = C(ev.obj)
            rep.count("leaves stored", 1, ev.loc())
            if h[0] == "f" and h[1][0] in ("p", "lamarg"):
                if i[0] == "f" and i[1] == h[1] and "leaf" not in i[2]: note(ev, "leaf", "%s stores a digest as leaf %s" % (fn.disp, show_(i)))
                for z in subterms(o):
                    if z[0] in ("idx", "at") and len(z) == 3 and "tree" in show_(z[1]) and z[2][0] in ("f", "c") and z[2] != ("f", h[1], "file_index"): note(ev, "leaf", "%s stores the digest of a block in the tree of file %s" % (fn.disp, show_(z[2])))
                s = (s[0], frozenset())
        elif k == "call" and ev.m == "update" and ev.obj is not None: s = (s[0], s[1] | {C(ev.obj)})
        if k == "call" and ev.m in ("root", "get_layer") and ev.obj is not None and "tree" in show_(C(ev.obj)):
            rep.count("uses of a tree", 1, ev.loc())
            if C(ev.obj) not in s[1]: note(ev, "tree", "%s uses %s of a tree that was not completed before" % (fn.disp, ev.m))
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple): return s
        for d in digest(t, pol):
            key = (d[2], pol); FACTS[key] = d
            s = (s[0] | {key}, s[1])
        # a comparison that failed is not a reason for a mark
        for a, p in conjuncts(C(t), pol):
            r = relation(a, p)
            if r and r[0] == "!=": s = (frozenset(f for f in s[0] if f[0] != a and f[0] != ("op", "==", r[1], r[2])), s[1])
        return s
    E = Explorer(g, (frozenset(), frozenset()), tr, br, track="bool")
    E.run()
    for (q, k), (loc, msg) in bad.items(): rep.violation("%s:%s" % (q, k), loc, msg)
    rep.count("functions", 1, fn.disp)
