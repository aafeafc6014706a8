"""P23: magnet links carry every field both ways."""
import re
import facts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, scalar
from texts import origin, flatten, fmt, fname, is_end_of, vtype, init_of

REC = "dottorrent::magnet_uri"
KEYS = {"topics": "xt", "display_name": "dn", "size": "xl", "web_seeds": "ws", "trackers": "tr", "acceptable_sources": "as",
        "exact_source": "xs", "keywords": "kt", "peer_adresses": "x.pe", "manifest": "mt"}
PLAIN = {"xt"}          # URNs are written as they are
CONT = {"std::vector", "std::unordered_set", "std::set", "std::list", "std::deque"}
LOOKS = {"empty", "size", "begin", "end", "cbegin", "cend", "length", "operator bool", "operator basic_string_view"}


def check_P23(rep):
    rep.rule("The encoder is followed along every path of its flow graph (its helpers and accessors included) as a sequence of text fragments and values: a value is written only behind its parameter name, separated from what was written before, percent-encoded once; "
             "a path leaves a field out only if it found the field empty, and a loop over a field writes every element. "
             "The parser is followed along every path: a part with a known parameter name ends up, decoded once, in one field. "
             "Both must relate the same names and fields, and the names are those under which the public accessors of the class are known. "
             "Links made from a metafile are followed likewise: info hashes under the URN of their kind, name, trackers and web seeds. "
             "Compile-fail witnesses over the encoder's and parser's own code: some three hundred links (each field alone with six values, every pair of fields, all fields) against a reference writer and reader.")
    P = facts.full()
    recs = P.record(REC)
    if not recs: raise Broken("class %s not found" % REC)
    ftype = {f["n"]: P.types[f["t"]] for f in recs[0]["fields"]}
    names = {}
    for m in P.methods(REC):
        if m.name in KEYS and not m.params and m.blocks:
            g = Graph(P, m)
            rs = [g.T(g.ctxs[0], n["c"][0], {}, True) for n in m.nodes.values() if n["k"] == "ReturnStmt" and n.get("c")]
            if len(rs) == 1 and rs[0][0] == "f" and rs[0][1] == ("this",): names[rs[0][2]] = names.get(rs[0][2], []) + [KEYS[m.name]]
            rep.count("accessors", 1, m.name)
    for f, ks in names.items():
        if len(ks) > 1: rep.violation("accessor:%s" % f, P.methods(REC)[0].loc(), "the accessors of %s hand out the same field %s" % (" and ".join(ks), f))
    if len(names) < 5: raise Broken("the accessors of %s were not recognised" % REC)
    key_of = {f: ks[0] for f, ks in names.items()}
    def own(f): return f.rec == REC or f.is_lambda or f.file.startswith(REPO) and "magnet" in f.file and not f.name.startswith("split_") and not f.kind == "ctor"
    encs = [f for f in P.by_qn("dottorrent::encode_magnet_uri") if f.blocks] if hasattr(P, "by_qn") else [f for f in P.funcs.values() if f.qn == "dottorrent::encode_magnet_uri" and f.blocks]
    encs = [f for f in encs if not any(f is not o and calls(P, f, o) for o in encs)]
    if not encs: raise Broken("encode_magnet_uri not found")
    enc = {}
    for e in encs:
        for f in ftype: encoder(rep, P, e, own, f, ftype, enc)
    pars = [f for f in P.funcs.values() if f.qn == "dottorrent::make_magnet_uri" and f.blocks]
    dec = {}
    for p in pars:
        t = P.types[p.vars[p.params[0]]["t"]]
        if "metafile" in t["s"]: from_metafile(rep, P, p, own, ftype, key_of)
        else: parser(rep, P, p, own, ftype, dec, enc.get("", set()))
    enc.pop("", None)
    for f in ftype:
        ks = {k for k, fs in enc.items() if f in fs}; ds = {k for k, fs in dec.items() if f in fs}
        rep.count("fields", 1, "%s: written as %s, read from %s" % (f, sorted(ks), sorted(ds)))
        if ks and ds and not ks <= ds:
            rep.violation("names:%s" % f, encs[0].loc(), "the field %s is written under %s and read back from %s" % (f, sorted(ks), sorted(ds)))
        for k in ds:
            if len(dec[k]) > 1: rep.violation("names:%s" % f, pars[0].loc(), "the parameter %s is stored in more than one field: %s" % (k, sorted(dec[k])))
        if not ds: rep.violation("names:%s" % f, pars[0].loc(), "the parser restores no field %s" % f)
        if f in key_of:
            for k in ks | ds:
                if k != key_of[f]: rep.violation("names:%s" % f, encs[0].loc(), "the field %s, which is the parameter %s, goes by the name %s" % (f, key_of[f], k))
    splitters(rep, P)
    import loops
    for fn in P.funcs.values():
        if fn.blocks and fn.file.startswith(REPO) and "magnet_uri" in fn.file: loops.check(rep, P, fn)
    rep.need("accessors", 8); rep.need("fields", 8); rep.need("values written", 9); rep.need("values stored", 9); rep.need("loops", 5)
    from rules import magnetwit
    magnetwit.run(rep)
    rep.assume("percent_encode and percent_decode are inverses (P06); topics are URNs and are written as they are")


def calls(P, f, o):
    return any(n.get("callee") and P.fn_of(n["callee"]) is o for n in f.nodes.values())


class Cover:
    """Per path: is every value of one source consumed?  States: none, loop, elem, done."""
    def __init__(self, g, src, container): self.g = g; self.src = src; self.cont = container
    def mentions(self, t): return origin(self.g, t)[0] == self.src
    def decl(self, ev, st):
        if ev.rhs is None: return st, None
        nm = ev.lhs[3]
        if nm.startswith("__range") and self.mentions(ev.rhs): return "loop", None
        if not nm.startswith("__") and ev.rhs[0] == "deref":
            b, ops = origin(self.g, ev.rhs)
            if b == self.src and ev.rhs[1][0] == "v" and ev.rhs[1][3].startswith("__begin"): return "elem", None
        return st, None
    def wrote(self, st): return "loop" if self.cont else "done"
    def whole(self, ev, st):
        """The container is handed to something as a whole."""
        if not self.cont or ev.kind != "call": return st
        if fname(ev.qn) in LOOKS or ev.op in ("==", "!=", "*", "++"): return st
        for a in list(ev.args or []) + ([ev.obj] if ev.obj is not None else []):
            if a == self.src or a[0] in ("v", "ret", "call") and not (a[0] == "v" and a[3].startswith("__")) and origin(self.g, a) == (self.src, []) and not self._iter(a): return "done"
        return st
    def step(self, more, st):
        if not more: return "done", ("skip" if st == "elem" else None)
        return "elem", ("skip" if st == "elem" else None)
    def after(self, ev, st):
        n = ev.raw
        if not self.cont or ev.ctx.inl.get(ev.n) or "callee" not in n: return st
        for a in n.get("args", []):
            if origin(self.g, self.g.T(ev.ctx, a, {}, True)) == (self.src, []): return "done"
        return st
    def _iter(self, a):
        if a[0] == "call" and fname(a[1]) in ("begin", "end", "cbegin", "cend"): return False
        return a[0] == "v" and "iterator" in vtype(self.g, a).get("s", "")
    def branch(self, c, pol, st):
        """-> new state, problem"""
        g = self.g
        for t, p in conjuncts(c, pol):
            if t[0] == "call" and fname(t[1]) == "empty" and p:
                o = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
                if o is not None and self.mentions(o): return "done", None
            r = relation(t, p)
            if not r: continue
            for op, a, b in (r, ({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(r[0], r[0]), r[2], r[1])):
                if b in (("c", 0), ("c", 1)):
                    zero = op in ("==", "<=") and b[1] == 0 or op == "<" and b[1] == 1
                    if zero:
                        x = a
                        if x[0] == "call" and fname(x[1]) in ("size", "ssize", "length"): x = x[2] if x[2] is not None else (x[3][0] if x[3] else x)
                        if origin(g, x)[0] == self.src: return "done", None
                if b[0] == "str" and b[1] == "" and op == "==" and origin(g, a)[0] == self.src: return "done", None
                if op in ("==", "!=") and is_end_of(g, b, self.src): return self.step(op == "!=", st)
                if op in ("<", ">=", "!=", "==") and b[0] == "call" and fname(b[1]) in ("size", "ssize", "length") and a[0] == "v" and self.cont:
                    o = b[2] if b[2] is not None else (b[3][0] if b[3] else None)
                    if o is not None and origin(g, o) == (self.src, []):
                        i = init_of(g, a)
                        n, p2 = self.step(op in ("<", "!="), st)
                        return n, p2 or ("skip" if i is not None and i[0] == "c" and i[1] not in (0, "0") else None)
        return st, None


def encoder(rep, P, fn, own, field, ftype, enc):
    g = Graph(P, fn, inline=own)
    src = ("f", ("p", 0), field)
    isc = ftype[field].get("rec") in CONT
    cov = Cover(g, src, isc)
    outs = {("p", i) for i in range(1, len(fn.params))} | {("v", 0, d, fn.vars[d]["n"]) for d in fn.params[1:]}
    def sink(t):
        if t is None: return False
        if any(x in outs for x in subterms(t)): return True
        b = t
        while b[0] in ("deref", "ctor", "call") and b not in outs:
            if b[0] == "deref": b = b[1]
            elif b[0] == "ctor" and len(b[2]) == 1: b = b[2][0]
            elif b[0] == "call" and fname(b[1]) in ("back_inserter", "inserter") and b[3]: b = b[3][0]
            else: return False
        if b in outs: return True
        return b[0] == "v" and b[1] >= 0 and vtype(g, b).get("rec") == "std::basic_string" and g._mutated(g.ctxs[b[1]].fn, b[2])
    # state: (text since the last value, something written?, field written last, coverage, how the field is written)
    def emit(ev, s, frs):
        txt, started, lastf, st = s
        for fr in frs:
            if fr[0] == "t": txt = (txt + fr[1])[-40:]
            elif fr[0] == "u": txt = "\0"
            else:
                b, ops = fr[1], fr[2]
                if b[0] == "f" and b[1] == ("p", 0) and b[2] in ftype:
                    if b == src: st = value(ev, txt, started, lastf, b[2], ops, st)
                    txt, started, lastf = "", True, b[2]
                else: txt = "\0"
        return txt, started, lastf, st
    def value(ev, txt, started, lastf, f, ops, st):
        rep.count("values written", 1, "%s %s" % (f, ev.loc()))
        bad = None
        if "\0" not in txt:
            m = re.fullmatch(r"(magnet:\?)?(?:&[^&=?]+=)*(&?)([^&=?]+)=(\+?)", txt)
            if m:
                if m.group(4) and not isc: bad = "behind %r" % txt
                if not m.group(2) and not m.group(1): bad = "without a separator before its parameter name %r" % txt
                enc.setdefault(m.group(3), set()).add(f)
                if m.group(1) and m.group(2): enc.setdefault("", set()).add(f)
                if "enc" not in ops and m.group(3) not in PLAIN and "num" not in ops and not scalar_num(f): bad = "without percent-encoding"
            elif isc and lastf == f and txt in ("+",):
                if "enc" not in ops and "num" not in ops: bad = "without percent-encoding"
            else: bad = "behind %r, which is not a parameter name" % txt
        if ops.count("enc") > 1: bad = "percent-encoded twice"
        if bad: rep.violation("encode:%s" % f, ev.loc(), "%s writes the field %s %s" % (fn.disp, f, bad))
        return cov.wrote(st)
    def scalar_num(f): return bool(ftype[f].get("bits"))
    def tr(ev, s, view):
        txt, started, lastf, st = s
        if ev.kind == "decl":
            st, p = cov.decl(ev, st)
            if p: rep.violation("skip:%s" % field, ev.loc(), "%s can go on to the next element of %s without having written the last one" % (fn.disp, field))
            if ev.rhs is not None and vtype(g, ev.lhs).get("rec") == "std::basic_string" and sink(ev.lhs) and not ev.lhs[3].startswith("__") and ev.lhs[1] == 0: return emit(ev, (txt, started, lastf, st), flatten(g, ev.rhs) if ev.rhs[0] != "ctor" or ev.rhs[2] else [])
            return txt, started, lastf, st
        if ev.kind == "call":
            m = fname(ev.qn); A = [g.T(ev.ctx, a, view.env, True) for a in ev.aids or []]
            if m == "copy" and A and any(sink(a) for a in A[1:]):
                if len(A) == 2 and whole_sink(A[0]): return s
                return emit(ev, s, flatten(g, A[0]))
            if m in ("percent_encode",) and len(A) == 3 and sink(A[2]): return emit(ev, s, [("v",) + (lambda o: (o[0], ("enc",) + tuple(o[1])))(origin(g, A[0]))])
            if m in ("format_to",) and A and sink(A[0]): return emit(ev, s, fmt(g, A[1:]))
            if m in ("append", "push_back", "append_range") and ev.obj is not None and sink(ev.obj): return emit(ev, s, flatten(g, A[0]))
            return txt, started, lastf, cov.whole(ev, st)
        if ev.kind == "aftercall": return txt, started, lastf, cov.after(ev, st)
        if ev.kind == "assign" and ev.lhs is not None:
            if ev.op == "+=" and sink(ev.lhs) and ev.rhs is not None: return emit(ev, s, flatten(g, g.T(ev.ctx, ev.aids[-1], view.env, True) if ev.aids else ev.rhs))
            if ev.op == "=" and ev.lhs[0] == "deref" and sink(ev.lhs): return emit(ev, s, flatten(g, ev.rhs))
        return s
    def whole_sink(t): return t[0] == "v" and sink(t)
    def br(c, pol, s, view):
        if isinstance(pol, tuple) or c == ("range",): return s
        for t, p in conjuncts(stat(g, c), pol):
            r = relation(t, p)
            if r and r[0] in ("==", "!=") and isc:
                for a, b in ((r[1], r[2]), (r[2], r[1])):
                    # is this the first element?
                    if a[0] == "v" and b[0] == "call" and fname(b[1]) in ("begin", "cbegin") and origin(g, b) == (src, []):
                        if (r[0] == "==") == (s[2] == field): return None
        st, p = cov.branch(stat(g, c), pol, s[3])
        if p: rep.violation("skip:%s" % field, fn.loc(), "%s can go on to the next element of %s without having written the last one" % (fn.disp, field))
        return s[:3] + (st,)
    ex = Explorer(g, ("", False, None, "none"), tr, br, limit=400000, track="bool").run()
    rep.count("paths", len(ex.at_exit))
    for s in ex.at_exit:
        if s[3] != "done":
            rep.violation("omit:%s" % field, fn.loc(), "%s has a path that %s" % (fn.disp, "leaves out the field %s although it is set" % field if s[3] == "none" else "ends before every element of %s was written" % field)); break


def stat(g, t):
    """Resolve accessor results inside a condition."""
    if t[0] == "ret":
        r = g._static_ret(g.ctxs[t[1]], {})
        return r if r == t else stat(g, r)
    out = []
    for x in t:
        if isinstance(x, tuple) and x and isinstance(x[0], str): out.append(stat(g, x))
        elif isinstance(x, tuple): out.append(tuple(stat(g, y) if isinstance(y, tuple) and y else y for y in x))
        else: out.append(x)
    return tuple(out)


def parser(rep, P, fn, own, ftype, dec, leading):
    g = Graph(P, fn, inline=own)
    known = set(KEYS.values())
    keyvars = set()
    def cmpkey(c, pol):
        for t, p in conjuncts(c, pol):
            r = relation(t, p)
            if r and r[0] in ("==", "!="):
                for a, b in ((r[1], r[2]), (r[2], r[1])):
                    kb = origin(g, b)[0]
                    if kb[0] == "str" and kb[1] in known and origin(g, a)[0][0] != "str": return kb[1], r[0] == "==", a
        return None
    def scan(c, pol, s, view):
        if isinstance(pol, tuple) or c == ("range",): return s
        k = cmpkey(c, pol)
        if k:
            for x in subterms(k[2]):
                if x[0] == "v": keyvars.add(x)
        return s
    Explorer(g, 0, lambda e, s, v: s, scan, track="bool").run()
    rep.count("parameter comparisons", len(keyvars))
    if not keyvars: raise Broken("%s: no comparison with a parameter name was found" % fn.disp)
    numvars = {}
    # state: (current parameter, stored?, text of the excluded names is not needed)
    def end(ev_loc, s):
        if s[0] and not s[1]: rep.violation("dropped:%s" % s[0], ev_loc, "%s has a path that recognises the parameter %s and stores nothing" % (fn.disp, s[0]))
    def store(ev, s, field, val, replace):
        key = s[0]
        if key is None: return s
        rep.count("values stored", 1, "%s <- %s %s" % (field, key, ev.loc()))
        b, ops = origin(g, val)
        dec.setdefault(key, set()).add(field)
        if ftype[field].get("bits"):
            if b[0] == "v" and vtype(g, b).get("bits"):
                if vtype(g, b)["bits"] < ftype[field]["bits"]: rep.violation("decode:%s" % field, ev.loc(), "%s reads %s through a narrower type than the field's" % (fn.disp, field))
                if b in numvars and numvars[b] not in (None, 10): rep.violation("decode:%s" % field, ev.loc(), "%s reads the number in base %s, it is written in base 10" % (fn.disp, numvars[b]))
            elif b[0] == "call" and fname(b[1]) in ("stoi", "atoi", "strtol", "stol"): rep.violation("decode:%s" % field, ev.loc(), "%s reads %s with %s, which cannot hold every value" % (fn.disp, field, fname(b[1])))
        else:
            n = ops.count("dec")
            if n != 1 and not (n == 0 and b[0] in ("v", "opq", "call", "ret") and not reaches_key(b)):
                rep.violation("decode:%s" % field, ev.loc(), "%s stores %s %s" % (fn.disp, field, "without percent-decoding" if n == 0 else "decoded %d times" % n))
            if "split" in ops and "dec" in ops and ops.index("split") < ops.index("dec"):
                rep.violation("decode:%s" % field, ev.loc(), "%s decodes %s before it splits them, so an encoded separator splits a value" % (fn.disp, field))
        if replace and ftype[field].get("rec") in CONT: rep.violation("decode:%s" % field, ev.loc(), "%s replaces the values of %s instead of adding one" % (fn.disp, field))
        return (s[0], True)
    def reaches_key(b): return any(x in keyvars for x in subterms(b))
    def tr(ev, s, view):
        if ev.kind == "decl":
            if ev.lhs in keyvars: end(ev.loc(), s); return (None, False)
            if ev.lhs[3].startswith("__range") and s[0] and not s[1]: return (s[0], True)
            if ev.lhs in numvars: numvars.pop(ev.lhs)
            return s
        if ev.kind == "call" and fname(ev.qn) == "from_chars" and len(ev.args) >= 3:
            v = ev.args[2]; numvars[v] = ev.args[3][1] if len(ev.args) > 3 and ev.args[3][0] == "c" else None
        if ev.kind == "call" and ev.obj is not None and ev.obj[0] == "f" and ev.obj[2] in ftype and fname(ev.qn) in ("emplace_back", "push_back", "emplace", "insert", "assign") and ev.args:
            return store(ev, s, ev.obj[2], g.T(ev.ctx, ev.aids[-1], view.env, True), fname(ev.qn) == "assign")
        if ev.kind == "assign" and ev.lhs is not None and ev.lhs[0] == "f" and ev.lhs[2] in ftype and ev.op == "=":
            a = ev.aids[-1] if ev.aids else ev.raw["c"][1]
            return store(ev, s, ev.lhs[2], g.T(ev.ctx, a, view.env, True), True)
        return s
    def br(c, pol, s, view):
        if isinstance(pol, tuple) or c == ("range",): return s
        k = cmpkey(c, pol)
        if k:
            if k[1]:
                if s[0] and s[0] != k[0]: return None
                return (k[0], s[1])
            if s[0] == k[0]: return None
        for t, p in conjuncts(c, pol):
            if t[0] == "call" and fname(t[1]) == "empty" and p and s[0]: return (s[0], True)
        return s
    ex = Explorer(g, (None, False), tr, br, track="bool").run()
    for s in ex.at_exit: end(fn.loc(), s)
    if leading: empty_part(rep, P, fn, g, leading)


def empty_part(rep, P, fn, g, leading):
    """The encoder can start with a separator, so the parser has to get past an empty first part."""
    for f in P.funcs.values():
        if f.blocks and f.qn.startswith("dottorrent::detail::split") and "pair" not in P.types[f.raw["ret"]]["s"]:
            n = sum(1 for b in f.blocks.values() if b.get("tc") is not None)
            if "query" in f.name and n > 2: return
    def throws(q): return any(f.qn == q and any(n["k"] == "CXXThrowExpr" for n in f.nodes.values()) for f in P.funcs.values())
    def tr(ev, s, view):
        if ev.kind == "decl" and ev.rhs is not None and ev.rhs[0] == "deref": return False
        if ev.kind == "call" and ev.qn.startswith("dottorrent::detail::split") and "pair" in ev.qn and throws(ev.qn):
            rep.count("parts taken apart", 1, ev.loc())
            if not s: rep.violation("emptypart", ev.loc(), "%s rejects an empty part, and the encoder writes one when the link begins with %s" % (fn.disp, sorted(leading)[0]))
        return s
    def br(c, pol, s, view):
        if isinstance(pol, tuple) or c == ("range",): return s
        for t, p in conjuncts(c, pol):
            if t[0] == "call" and fname(t[1]) == "empty" and not p: return True
            r = relation(t, p)
            if r and any(x[0] == "call" and fname(x[1]) in ("size", "length", "find") for x in (r[1], r[2])): return True
        return s
    Explorer(g, False, tr, br, track="bool").run()


def from_metafile(rep, P, fn, own, ftype, key_of):
    g = Graph(P, fn, inline=own)
    rev = {k: f for f, k in key_of.items()}
    def stored(ev, view):
        if ev.kind == "call" and ev.obj is not None and ev.obj[0] == "f" and ev.obj[2] in ftype and fname(ev.qn) in ("emplace_back", "push_back", "emplace", "insert") and ev.args: return ev.obj[2], g.T(ev.ctx, ev.aids[-1], view.env, True)
        if ev.kind == "assign" and ev.lhs is not None and ev.lhs[0] == "f" and ev.lhs[2] in ftype and ev.op == "=": return ev.lhs[2], g.T(ev.ctx, ev.aids[-1] if ev.aids else ev.raw["c"][1], view.env, True)
        return None
    V = {"v1": None, "v2": None, "hybrid": None}
    for k, n in fn.nodes.items():
        if n["k"] == "DeclRefExpr" and n["dk"] == "EnumConstant" and n["qn"].split("::")[-1] in V: V[n["qn"].split("::")[-1]] = n["ev"]
    # topics
    def tr(ev, s, view):
        st = stored(ev, view)
        if st and st[0] == rev.get("xt"):
            fr = flatten(g, st[1])
            txt = "".join(x[1] for x in fr if x[0] == "t"); src = None
            for x in fr:
                if x[0] == "v":
                    for q in subterms(x[1]):
                        if q[0] == "call" and fname(q[1]) in ("info_hash_v1", "info_hash_v2", "info_hash"): src = fname(q[1])
            if src is None: return s
            rep.count("topics", 1, "%s%s %s" % (txt, src, ev.loc()))
            want = {"info_hash_v1": "urn:btih:", "info_hash_v2": "urn:btmh:1220"}.get(src)
            if want and txt != want: rep.violation("topic:%s" % src, ev.loc(), "%s writes the hash of %s under %r instead of %r" % (fn.disp, src, txt, want))
            if not any(q[0] == "call" and fname(q[1]) == "hex_string" for x in fr if x[0] == "v" for q in subterms(x[1])): rep.violation("topic:%s" % src, ev.loc(), "%s does not write the hash of %s as hexadecimal text" % (fn.disp, src))
            return (s[0], s[1] | {src})
        return s
    def br(c, pol, s, view):
        if isinstance(pol, tuple) or c == ("range",): return s
        f = set(s[0])
        for t, p in conjuncts(c, pol):
            r = relation(t, p)
            if not r or r[0] not in ("==", "!="): continue
            for a, b in ((r[1], r[2]), (r[2], r[1])):
                if b[0] != "c": continue
                if a[0] == "call" and fname(a[1]) == "protocol":
                    if r[0] == "==" and any(x[0] == "is" and x[1] != b[1] for x in f): return None
                    if r[0] == "==" and ("isnt", b[1]) in f: return None
                    f.add(("is" if r[0] == "==" else "isnt", b[1]))
                if a[0] == "op" and a[1] == "&" and ("p", 1) in (a[2], a[3]):
                    m = a[3] if a[2] == ("p", 1) else a[2]
                    if m[0] == "c":
                        on = r[0] == "==" and b == m or r[0] == "!=" and b[1] == 0
                        off = r[0] == "!=" and b == m or r[0] == "==" and b[1] == 0
                        if on: f.add(("want", m[1]))
                        if off: f.add(("nowant", m[1]))
        return (frozenset(f), s[1])
    ex = Explorer(g, (frozenset(), frozenset()), tr, br, track="bool").run()
    for fx, topics in ex.at_exit:
        need = set()
        if ("is", V["v1"]) in fx: need.add("info_hash_v1")
        if ("is", V["v2"]) in fx: need.add("info_hash_v2")
        if ("is", V["hybrid"]) in fx:
            if any(x[0] == "want" for x in fx):
                if ("nowant", V["v1"]) not in fx: need.add("info_hash_v1")
                if ("nowant", V["v2"]) not in fx: need.add("info_hash_v2")
        rep.count("metafile paths", 1)
        if V["v1"] is not None and need - topics: rep.violation("topic:missing:%s" % sorted(need - topics)[0], fn.loc(), "%s has a path that leaves out the topic of %s" % (fn.disp, sorted(need - topics)[0]))
        if V["v1"] is not None and topics - need and any(x[0] == "is" for x in fx) and not any(x[0] == "is" and x[1] == V["hybrid"] for x in fx): rep.violation("topic:extra:%s" % sorted(topics - need)[0], fn.loc(), "%s names an info hash (%s) that a metafile of this kind does not have" % (fn.disp, sorted(topics - need)[0]))
    # the rest of the metafile
    for acc, key in (("name", "dn"), ("trackers", "tr"), ("web_seeds", "ws")):
        if key not in rev: continue
        src = ("call", "dottorrent::metafile::" + acc, ("p", 0), ())
        cont = acc != "name"
        cov = Cover(g, src, cont)
        def tr2(ev, s, view):
            if ev.kind == "decl":
                s, p = cov.decl(ev, s)
                if p: rep.violation("meta:%s" % acc, ev.loc(), "%s can skip an element of %s()" % (fn.disp, acc))
                return s
            if ev.kind == "aftercall": return cov.after(ev, s)
            st = stored(ev, view)
            if st:
                base = st[1]
                if any(x == src or origin(g, x)[0] == src for x in subterms(base) if x[0] in ("v", "call", "deref", "conv", "f")):
                    rep.count("metafile values", 1, "%s <- %s" % (st[0], acc))
                    if st[0] != rev[key]: rep.violation("meta:%s" % acc, ev.loc(), "%s puts %s() of the metafile in the field %s" % (fn.disp, acc, st[0])); return s
                    return cov.wrote(s)
                return s
            return cov.whole(ev, s)
        def br2(c, pol, s, view):
            if isinstance(pol, tuple) or c == ("range",): return s
            st, p = cov.branch(stat(g, c), pol, s)
            if p: rep.violation("meta:%s" % acc, fn.loc(), "%s can skip an element of %s()" % (fn.disp, acc))
            return st
        ex = Explorer(g, "none", tr2, br2, track="bool").run()
        for s in ex.at_exit:
            if s != "done": rep.violation("meta:%s" % acc, fn.loc(), "%s has a path that leaves out %s() of the metafile" % (fn.disp, acc)); break
    rep.need("topics", 2); rep.need("metafile values", 3)


def splitters(rep, P):
    """A splitting loop that searches a separator from a position onwards keeps everything: the part from the position to the
    separator is stored before the position moves, and moves just behind the separator."""
    for fn in P.funcs.values():
        if not fn.blocks or not fn.qn.startswith("dottorrent::detail::split"): continue
        if "pair" in P.types[fn.raw["ret"]]["s"]: pair(rep, P, fn); continue
        g = Graph(P, fn, inline=lambda f: f.is_lambda)
        rep.count("splitting functions", 1, fn.name)
        # state: (stored since the position last moved, definition of the separator position, separator known to be the end)
        def pos(t): return t[0] == "v" and "iterator" in vtype(g, t).get("s", "") or t[0] == "v" and vtype(g, t).get("ptr")
        finds = {}
        for d, v in fn.vars.items():
            t = ("v", 0, d, v["n"]); i = init_of(g, t)
            if i is not None and i[0] == "call" and fname(i[1]) == "find" and len(i[3]) >= 3 and i[3][0][0] == "v": finds[t] = i
        if not finds: continue
        cur = {i[3][0] for i in finds.values()}
        if len(cur) != 1: continue
        cur = next(iter(cur)); sep = set(finds)
        def tr(ev, s, view):
            stored, isend = s
            if ev.kind == "decl" and ev.lhs in sep: return stored, None
            if ev.kind == "call" and fname(ev.qn) in ("emplace_back", "push_back") and ev.args:
                x = [y for a in ev.args for y in subterms(a)]
                if cur in x and any(q in x for q in sep):
                    rep.count("parts stored", 1, ev.loc())
                    return True, isend
                return s
            if ev.kind == "assign" and ev.lhs == cur or ev.kind == "assign" and ev.raw.get("c") and g.T(ev.ctx, ev.raw["c"][0], {}) == cur:
                r = ev.rhs
                if not stored: rep.violation("split:%s" % fn.name, ev.loc(), "%s moves on without having stored the part it passes" % fn.disp)
                if r is not None and r in sep and isend is not True: rep.violation("split:%s" % fn.name, ev.loc(), "%s moves to the separator instead of behind it" % fn.disp)
                if r is not None and r[0] == "call" and fname(r[1]) == "next" and r[3][0] in sep and len(r[3]) > 1 and r[3][1] != ("c", 1): rep.violation("split:%s" % fn.name, ev.loc(), "%s skips more than the separator" % fn.disp)
                return False, None
            return s
        def br(c, pol, s, view):
            if isinstance(pol, tuple) or c == ("range",): return s
            for t, p in conjuncts(c, pol):
                r = relation(t, p)
                if r and r[0] in ("==", "!="):
                    for a, b in ((r[1], r[2]), (r[2], r[1])):
                        if a in sep and (b[0] == "v" and b[3] == "end" or b[0] == "call" and fname(b[1]) == "end"): return s[0], r[0] == "=="
                        if a == cur and r[0] == "==" : return ("done", s[1])
            return s
        ex = Explorer(g, (False, None), tr, br, track=False).run()
        for s in ex.at_exit:
            if s[0] is False: rep.violation("split:%s" % fn.name, fn.loc(), "%s can return without having stored the last part" % fn.disp); break


def pair(rep, P, fn):
    """The two halves of a name-value part: everything before the separator and everything behind it."""
    g = Graph(P, fn, inline=lambda f: f.is_lambda)
    rep.count("splitting functions", 1, fn.name)
    for n in fn.nodes.values():
        if n["k"] != "ReturnStmt" or not n.get("c"): continue
        t = g.T(g.ctxs[0], n["c"][0], {}, True)
        parts = t[2] if t[0] == "ctor" else t[1] if t[0] == "init" else ()
        if len(parts) != 2: continue
        a, b = parts
        if all(x[0] == "call" and fname(x[1]) == "substr" for x in (a, b)) and a[2] == b[2]:
            o = b[3][0]; l = a[3][1] if len(a[3]) > 1 else None
            bad = a[3][0] != ("c", 0) or l is None
            if o[0] == "op" and o[1] == "+" and ("c", 1) in (o[2], o[3]): mid = o[2] if o[3] == ("c", 1) else o[3]; bad = bad or mid != l
            elif o == l or o[0] == "op" and o[1] == "+" and l in (o[2], o[3]): bad = True
            if len(b[3]) > 1 and b[3][1] not in (("c", 18446744073709551615), ("c", -1)) and b[3][1][0] == "c": bad = True
            if bad: rep.violation("split:%s" % fn.name, fn.loc(n["i"]) if "i" in n else fn.loc(), "%s does not return what lies before the separator and what lies behind it" % fn.disp)
            rep.count("halves judged", 1, fn.name)
