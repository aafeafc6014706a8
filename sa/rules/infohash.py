"""P22: equality, ordering and hashing of identifiers agree; absent parts are refused."""
import facts, compare, optionals
from facts import Broken
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

INFO = "dottorrent::info_hash"
V1, V2, HY = 1, 2, 3


def fields_of(rec, P): return [("f", compare.X, f["n"]) for f in rec["fields"]]


class Info:
    """Roles of the members of info_hash, by type."""
    def __init__(self, P):
        rs = P.record(INFO)
        if not rs: raise Broken("class %s not found" % INFO)
        self.rec = rs[0]; self.ver = None; self.part = {}
        for f in self.rec["fields"]:
            s = P.types[f["t"]]["s"]
            if P.types[f["t"]].get("rec") == "std::optional" and ("sha1_hash" in s or "basic_hash<20" in s): self.part[V1] = f["n"]
            elif P.types[f["t"]].get("rec") == "std::optional" and ("sha256_hash" in s or "basic_hash<32" in s): self.part[V2] = f["n"]
            elif "protocol" in s: self.ver = f["n"]
        if set(self.part) != {V1, V2}: raise Broken("info_hash no longer has one optional digest per protocol version")
        e = P.enums.get("dottorrent::protocol")
        if not e: raise Broken("enum protocol not found")
        global HY
        vals = {x["n"]: x["v"] for x in e["vals"]} if "vals" in e else {}
        self.vals = vals


def check_P22(rep):
    rep.rule("Path-sensitive comparison analysis: for every non-defaulted operator== and operator<=> of the identifier types, each path that can report equality must have compared every member of both objects with its counterpart, and each path that reports a difference must have found one; "
             "hash functors may only combine parts of the value and must use every part that is present; every read of an optional digest must be guarded on its path or go through the throwing accessor outside noexcept functions; every constructor of info_hash engages exactly the digests of its version.")
    P = facts.full()
    I = Info(P)
    types = {INFO: None, "dottorrent::announce_url": None, "dottorrent::dht_node": None, "dottorrent::basic_hash": None, "dottorrent::checksum": ["name", "value"]}
    ver_inv(rep, P, I)
    def implied(f, side):
        """version known (and compared equal) => the digest that this version lacks is absent on both sides"""
        if I.ver is None: return ()
        vt = ("f", compare.X, I.ver)
        if ("eq", vt) not in f: return ()
        r = []
        for x in f:
            if x[0] == "val" and x[1] == vt:
                if x[2] == V1: r.append(("f", compare.X, I.part[V2]))
                if x[2] == V2: r.append(("f", compare.X, I.part[V1]))
        return r
    seen = {}
    for q, parts in types.items():
        rs = P.record(q)
        if not rs: raise Broken("class %s not found" % q)
        fns = [f for f in P.funcs.values() if f.name in ("operator==", "operator<=>") and (f.rec == q or f.rec is None and f.raw["pt"] and all(P.types[t].get("rec") == q for t in f.raw["pt"]))]
        for f in fns: seen.setdefault(q, set()).add(f.name)
        for f in fns:
            if f.raw.get("defaulted"):
                rep.count("comparison operators", 1, f.sig() + " (defaulted: the compiler compares every member)"); continue
            if not f.blocks: continue
            rep.count("comparison operators", 1, f.sig())
            if f.rec is None:
                raise Broken("%s is not a member" % f.sig())
            rec = [r for r in rs if r["id"] == f.raw["clsid"]] or rs
            need = fields_of(rec[0], P) if parts is None else [("call", "%s::%s" % (q, m), compare.X, ()) for m in parts]
            inline = (lambda fn: not fn.raw.get("virt") and not fn.rec == "dottorrent::checksum") if parts is not None else None
            bad, n = compare.judge(P, f, need, implied if q == INFO else lambda a, b: (), f.name == "operator<=>", inline)
            rep.count("returns judged", n)
            for loc, msg in bad: rep.violation("%s:%s" % (f.qn, msg[:40]), loc, "%s %s" % (f.disp, msg))
    for q in (INFO, "dottorrent::announce_url", "dottorrent::dht_node", "dottorrent::basic_hash"):
        for o in ("operator==", "operator<=>"):
            if o not in seen.get(q, ()): raise Broken("%s of %s not found" % (o, q))
    hashes(rep, P, I)
    absent(rep, P, I)
    rep.need("comparison operators", 8); rep.need("hash functors", 4); rep.need("optional reads checked", 4); rep.need("constructors checked", 4)
    from rules import infowit
    infowit.run(rep)
    rep.assume("equality of the members' own types (strings, integers, arrays, optionals) is the standard library's")


def ver_inv(rep, P, I):
    """Every constructor engages exactly the digests its version says."""
    for fn in P.methods(INFO):
        if fn.kind != "ctor" or fn.raw.get("defaulted") or not fn.blocks: continue
        rep.count("constructors checked", 1, fn.sig())
        g = Graph(P, fn)
        vt = ("f", ("this",), I.ver) if I.ver else None
        def tr(ev, s, view):
            eng, ver, pf = s
            if ev.kind == "fieldinit":
                for v, n in I.part.items():
                    if ev.lhs == ("f", ("this",), n): eng = (eng | {v}) if not empty(ev.rhs) else eng - {v}
                if vt and ev.lhs == vt: ver = ev.rhs
            if ev.kind in ("assign", "call") and (ev.lhs or ev.obj):
                l = ev.lhs if ev.kind == "assign" else ev.obj
                for v, n in I.part.items():
                    if l == ("f", ("this",), n):
                        if ev.kind == "assign": eng = (eng | {v}) if not empty(ev.rhs) else eng - {v}
                        elif ev.m == "emplace": eng = eng | {v}
                        elif ev.m == "reset": eng = eng - {v}
                if vt and l == vt and ev.kind == "assign": ver = ev.rhs
            if ev.kind == "leave" and ev.ctx.parent is None:
                val = ver[1] if ver and ver[0] == "c" else dict(pf).get(ver)
                want = {V1: {V1}, V2: {V2}, V1 | V2: {V1, V2}, 0: set()}
                if vt is not None:
                    if val is None: rep.violation("%s:version" % fn.sig(), ev.loc(), "%s does not record a definite protocol version" % fn.sig())
                    elif set(eng) != want.get(val): rep.violation("%s:parts" % fn.sig(), ev.loc(), "%s can leave an info hash of version %s with digests of versions %s" % (fn.sig(), val, sorted(eng)))
            return (eng, ver, pf)
        def br(t, pol, s, view):
            eng, ver, pf = s
            if isinstance(pol, tuple):
                return (eng, ver, pf | {(t, pol[1])}) if pol[0] == "case" else s
            for a, p in conjuncts(t, pol):
                r = relation(a, p)
                if r and r[0] == "==":
                    for x, y in ((r[1], r[2]), (r[2], r[1])):
                        if y[0] == "c":
                            if dict(pf).get(x, y[1]) != y[1]: return None
                            pf = pf | {(x, y[1])}
            return (eng, ver, pf)
        Explorer(g, (frozenset(), None, frozenset()), tr, br).run()


def empty(t):
    if t is None: return True
    return t[0] in ("ctor",) and t[1] == "std::optional" and (not t[2] or any("nullopt" in str(x) for x in t[2])) or t == ("init", ()) or t[0] == "g" and t[1].endswith("nullopt")


def hashes(rep, P, I):
    for fn in P.funcs.values():
        if fn.name != "operator()" or fn.rec != "std::hash" or not fn.blocks or len(fn.params) != 1: continue
        q = P.types[fn.raw["pt"][0]].get("rec") or ""
        if q not in (INFO, "dottorrent::announce_url") and not q.endswith("_hash") and q != "dottorrent::basic_hash": continue
        rep.count("hash functors", 1, fn.sig())
        g = Graph(P, fn)
        H = ("p", 0)
        if q == INFO: need = None
        elif q == "dottorrent::announce_url": need = [("f", H, f["n"]) for f in P.record(q)[0]["fields"]]
        else: need = [("f", H, f["n"]) for f in next(r for r in P.record("dottorrent::basic_hash"))["fields"]]
        vt = ("f", H, I.ver) if I.ver else None
        def tr(ev, s, view):
            vals, acc = s
            if ev.kind == "decl" and ev.rhs is not None and ev.ctx.parent is None: acc = acc | {(ev.lhs, ev.rhs)}
            if ev.kind == "assign" and ev.ctx.parent is None and ev.rhs is not None and ev.lhs: acc = acc | {(lhsvar(view, ev), ev.rhs)}
            if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
                t = ev.term
                ts = [t]; todo = [t]; seen = set()
                while todo:
                    u = todo.pop()
                    for v in [x for x in subterms(u) if x and x[0] == "v"]:
                        if v in seen: continue
                        seen.add(v)
                        for a, r in acc:
                            if a == v: ts.append(r); todo.append(r)
                rep.count("hash results judged", 1)
                for u in ts:
                    if any(x == ("addr", H) or on_address(P, x) for x in subterms(u)): rep.violation("%s:address" % fn.sig(), ev.loc(), "%s uses the address of the value, so equal values hash differently" % fn.sig())
                want = need
                if q == INFO:
                    v = vals
                    if v is None: want = [] if t[0] == "c" else [("f", H, I.part[V1]), ("f", H, I.part[V2])] if vt is not None and not known_invalid(acc, vt) else []
                    else: want = [("f", H, I.part[k]) for k in (V1, V2) if v & k]
                for w in want:
                    if not any(contains(u, w) for u in ts): rep.violation("%s:ignores:%s" % (fn.sig(), w[2]), ev.loc(), "%s computes a code that does not depend on %s" % (fn.sig(), w[2]))
                # text views of digests cover all bytes
                for u in ts:
                    for x in subterms(u):
                        if x[0] == "ctor" and x[1] == "std::basic_string_view" and len(x[2]) == 2 and x[2][1][0] == "c":
                            o = digest_size(P, q, I, x[2][0])
                            if o is not None and o != x[2][1][1]: rep.violation("%s:view" % fn.sig(), ev.loc(), "%s hashes %s bytes of a digest of %d" % (fn.sig(), x[2][1][1], o))
            return (vals, acc)
        def br(t, pol, s, view):
            vals, acc = s
            if vt is not None:
                if isinstance(pol, tuple) and t == vt: return (pol[1], acc) if pol[0] == "case" else (s[0], acc | {("inv", vt)})
                if not isinstance(pol, tuple):
                    for a, p in conjuncts(t, pol):
                        r = relation(a, p)
                        if r:
                            for x, y in ((r[1], r[2]), (r[2], r[1])):
                                if x == vt and y[0] == "c":
                                    if r[0] == "==":
                                        if vals is not None and vals != y[1]: return None
                                        vals = y[1]
                                    elif vals == y[1]: return None
            return (vals, acc)
        Explorer(g, (None, frozenset()), tr, br).run()


def on_address(P, x):
    """std::hash of a pointer."""
    if x[0] != "call" or not x[1].startswith("std::hash") and "hash" not in x[1]: return False
    if "std::hash<" in x[1] and x[1].split("std::hash<", 1)[1].split(">")[0].strip().endswith("*"): return True
    for a in x[3]:
        if a[0] == "call" and a[1].split("::")[-1] in ("data", "begin", "c_str") and "std::" in a[1] and "hash<" not in a[1]: return "operator()" in x[1]
        if a[0] == "addr": return "operator()" in x[1]
    return False


def lhsvar(view, ev):
    fn = ev.ctx.fn; i = (ev.raw.get("c") or ev.raw.get("args") or [None])[0]
    while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr",): i = fn.nodes[i]["c"][0]
    if i in fn.nodes and fn.nodes[i]["k"] == "DeclRefExpr" and fn.nodes[i]["dk"] in ("Var", "ParmVar"): return view.g._var(ev.ctx, fn.nodes[i]["d"], {}, False)
    return ev.lhs


def known_invalid(acc, vt): return ("inv", vt) in acc


def digest_size(P, q, I, t):
    for x in subterms(t):
        if x == ("f", ("p", 0), I.part[V1]): return 20
        if x == ("f", ("p", 0), I.part[V2]): return 32
    return None


def absent(rep, P, I):
    """Reads of the optional digests."""
    roots = [f for f in P.methods(INFO) if f.access == "public" and f.blocks and not f.raw.get("defaulted") and f.kind in ("method", "conv")]
    roots += [f for f in P.funcs.values() if f.name == "operator()" and f.rec == "std::hash" and f.blocks and P.types[f.raw["pt"][0]].get("rec") == INFO]
    names = set(I.part.values())
    for fn in roots:
        noexc = bool(fn.raw.get("nothrow"))
        g = Graph(P, fn)
        def tr(ev, s, view):
            present, ver = s
            if ev.kind in ("call", "icall"):
                d = optionals.deref_of(ev.ctx.fn, ev.raw)
                if d:
                    t = view.T(d[0])
                    if t[0] == "f" and t[2] in names:
                        rep.count("optional reads checked", 1, "%s %s" % (fn.name, ev.loc()))
                        v = [k for k, n in I.part.items() if n == t[2]][0]
                        vv = dict(ver).get(t[1])
                        ok = t in present or (vv is not None and vv & v)
                        if not ok and d[1] != "value": rep.violation("%s:absent:%s" % (fn.qn, t[2]), ev.loc(), "%s reads %s without making sure that it is present" % (fn.disp, t[2]))
                        elif not ok and noexc: rep.violation("%s:terminate:%s" % (fn.qn, t[2]), ev.loc(), "%s is noexcept but asks for %s, which may be absent: the program is terminated" % (fn.disp, t[2]))
            return s
        def br(t, pol, s, view):
            present, ver = s
            if isinstance(pol, tuple):
                if pol[0] == "case" and t[0] == "f" and t[2] == I.ver: ver = ver | {(t[1], pol[1])}
                return (present, ver)
            for o, p in optionals.present_facts(t, pol):
                if p: present = present | {o}
            for a, p in conjuncts(t, pol):
                r = relation(a, p)
                if r and r[0] == "==":
                    for x, y in ((r[1], r[2]), (r[2], r[1])):
                        if x[0] == "f" and x[2] == I.ver and y[0] == "c": ver = ver | {(x[1], y[1])}
            return (present, ver)
        Explorer(g, (frozenset(), frozenset()), tr, br).run()
