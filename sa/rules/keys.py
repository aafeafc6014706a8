"""P20: the writer and the reader of metafiles agree on names, places and kinds of the fields."""
import re
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, events, contains, show, subterms, conjuncts, relation, SWAP
from rules.malformed import Canon, subst, recanon

V1 = {"length", "files", "pieces"}             # BEP 3
V2 = {"file tree", "meta version"}             # BEP 52
WRITES = ("insert_or_assign", "emplace", "try_emplace", "insert", "emplace_hint")
GETS = ("dict", "list", "string", "integer")
ADDS = ("push_back", "emplace_back")


def norm_prop(n):
    for p in ("set_", "add_", "is_", "make_v1_", "make_v2_", "get_"):
        if n.startswith(p): n = n[len(p):]
    return n.rstrip("s").replace("piece_hashe", "piece").replace("_string", "")


def kind_of(P, t):
    if t is None or t < 0: return None
    y = P.types[t]
    if y.get("ref") and "pointee" in y: y = P.types[y["pointee"]]
    s = y["s"].replace("const ", "").strip(" &")
    if "file_attributes" in s: return "string"
    if s.endswith("btype"): return None
    if y.get("bool") or y.get("bits"): return "integer"
    if s.startswith(("std::basic_string", "std::__cxx11::basic_string", "char")) or "basic_hash" in s or s.endswith(("sha1_hash", "sha256_hash", "md5_hash")) or "span<const std::byte" in s: return "string"
    if s.startswith(("std::vector", "std::set", "std::unordered_set", "std::list")) or "filesystem" in s and s.endswith("path") or "announce_url_list" in s: return "list"
    if "map" in s.split("<")[0] or s.endswith("dict_bvalue"): return "dict"
    return None


class Writer:
    """Fields a writer emits: {(level, key): (kind, properties, location, guards)}"""
    def __init__(self, P, fn, rep):
        self.P = P; self.fn = fn
        g = self.g = Graph(P, fn, inline=lambda x: x.file == fn.file or x.is_lambda); self.C = Canon(g)
        self.puts = []; self.pushes = []; self.alias = {}; self.ptrs = {}
        for n in g.nodes:
            for ev in events(g, n, {}):
                k = ev.kind
                if k == "call" and ev.m in WRITES and ev.obj is not None and len(ev.args) >= 2: self.puts.append((ev.obj, ev.args[0], ev.args[1], ev, ev.aids[1] if len(ev.aids) > 1 else None))
                elif k == "assign" and ev.op == "=" and ev.lhs is not None and ev.lhs[0] == "idx": self.puts.append((ev.lhs[1], ev.lhs[2], ev.rhs, ev, ev.aids[0] if ev.aids else (ev.raw.get("c") or [None, None])[1]))
                elif k == "call" and ev.m in ADDS and ev.obj is not None and ev.args: self.pushes.append((ev.obj, ev.args[0], ev))
                if k in ("assign", "decl") and ev.lhs is not None and ev.rhs is not None and ev.lhs[0] == "v" and ev.lhs[1] >= 0:
                    v = g.ctxs[ev.lhs[1]].fn.vars.get(ev.lhs[2])
                    if v and P.types[v["t"]].get("ptr"): self.ptrs.setdefault(ev.lhs[:3], []).append(ev.rhs)
        self.parent = {}      # container -> (container, key or None for an element)
        for o, key, val, ev, a in self.puts:
            b, c = self.base(val), self.base(o)
            if b is not None and c is not None and b != c: self.parent.setdefault(b, (c, self.key(key)))
        for o, val, ev in self.pushes:
            b, c = self.base(val), self.base(o)
            if b is not None and c is not None and b != c: self.parent.setdefault(b, (c, None))
        self.root = self.base(("ret", 0)) or self.returned(g.ctxs[0])
        self.emit = {}
        for o, key, val, ev, a in self.puts:
            c = self.base(o); lv = self.level(c)
            if lv is None: rep.count("fields at an unknown place", 1, "%s %s" % (ev.loc(), show(key))); continue
            kk = self.key(key)
            if kk is None:
                if c in self.tree(): continue            # directories of the file tree
                kk = "*"
            if kk == "" : continue
            b = self.base(val)
            kind = "dict" if b is not None and self.vtype(b, "dict") else "list" if b is not None and self.vtype(b, "list") else kind_of(P, ev.ctx.fn.nodes[a].get("t") if a in ev.ctx.fn.nodes else None)
            if kind is None and a in ev.ctx.fn.nodes:
                i = a
                while i in ev.ctx.fn.nodes and ev.ctx.fn.nodes[i].get("c") and ev.ctx.fn.nodes[i]["k"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXConstructExpr", "CXXFunctionalCastExpr") and kind is None:
                    i = ev.ctx.fn.nodes[i]["c"][0]; kind = kind_of(P, ev.ctx.fn.nodes[i].get("t"))
                if kind is None:
                    A = ev.ctx.fn.nodes.get(i, {}).get("args") or []
                    if len(A) == 1: kind = kind_of(P, ev.ctx.fn.nodes.get(A[0], {}).get("t"))
            if kind is None:
                x = self.C(val)
                if x[0] == "c": kind = self.btype(x)
            self.emit.setdefault((lv, kk), []).append((kind, self.props(val), ev.loc(), self.guards(ev)))

    def key(self, t):
        t = self.C(t)
        if t[0] == "ctor" and t[2]: t = t[2][0]
        return t[1] if t[0] == "str" else None

    def returned(self, c):
        for i, n in c.fn.nodes.items():
            if n["k"] == "ReturnStmt" and n.get("c"):
                b = self.base(self.g.T(c, n["c"][0], {}))
                if b is not None: return b
        return None

    def base(self, t, depth=0):
        """The local container a term denotes."""
        if depth > 12 or t is None: return None
        if t[0] in ("conv",): return self.base(t[1], depth + 1)
        if t[0] == "ctor" and len(t[2]) == 1: return self.base(t[2][0], depth + 1)
        if t[0] == "call" and texts.fname(t[1]) in ("get_dict", "get_list") and (t[2] is not None or t[3]): return self.base(t[2] if t[2] is not None else t[3][0], depth + 1)
        if t[0] == "addr": return self.base(t[1], depth + 1)
        if t[0] == "deref": return self.base(t[1], depth + 1)
        if t[0] == "ret": return self.returned(self.g.ctxs[t[1]]) if t[1] else None
        if t[0] == "f" and t[2] == "second":
            # the value of an entry just made
            r = t[1]
            for _ in range(6):
                if r[0] in ("deref", "conv", "bind", "f"): r = r[1]; continue
                if r[0] == "v":
                    q = texts.init_of(self.g, r)
                    if q is None: break
                    r = q; continue
                break
            if r[0] == "call" and texts.fname(r[1]) in WRITES and r[2] is not None:
                k = self.key(r[3][0]); o = self.base(r[2], depth + 1)
                return ("in", o, k) if o is not None and k is not None else None
            return None
        if t[0] == "v" and t[1] >= 0:
            v = self.g.ctxs[t[1]].fn.vars.get(t[2])
            if not v: return None
            y = self.P.types[v["t"]]
            if y.get("ptr"):
                for r in self.ptrs.get(t[:3], []):
                    if r[0] == "addr" and r[1][0] != "f":
                        b = self.base(r[1], depth + 1)
                        if b is not None: return b
                return None
            if "bvalue" not in y["s"] and "bencode" not in y["s"] and "map" not in y["s"]: return None
            r = texts.init_of(self.g, t)
            if r is not None:
                r0 = r
                while r0[0] in ("conv",) or r0[0] == "ctor" and len(r0[2]) == 1: r0 = r0[1] if r0[0] == "conv" else r0[2][0]
                if r0[0] == "ret" and r0[1]:
                    b = self.returned(self.g.ctxs[r0[1]])
                    if b is not None: return b
                if r0[0] == "v" and r0[1] > t[1]:            # what an inlined function returned
                    b = self.base(r0, depth + 1)
                    if b is not None: return b
            return t[:3]
        return None

    def vtype(self, b, want):
        if b[0] == "in": return want == "list"
        v = self.g.ctxs[b[1]].fn.vars.get(b[2])
        r = texts.init_of(self.g, ("v", b[1], b[2], v["n"])) if v else None
        for x in subterms(r) if r is not None else []:
            if x[0] == "c" and isinstance(x[1], int) and self.btype(x): return self.btype(x) == want
        s = self.P.ts(v["t"]) if v else ""
        return "map" in s and want == "dict"

    def btype(self, x):
        e = self.P.enums.get("bencode::btype")
        if e:
            for c in e.get("vals", e.get("c", [])):
                nm, va = (c.get("n"), c.get("v")) if isinstance(c, dict) else (c[0], c[1])
                if str(va) == str(x[1]): return nm if nm in GETS else None
        return None

    def single_name(self):
        """Where the name last written on a way that writes the length of a single file is not the name of that file."""
        C = self.C; bad = {}; n = {}
        pos = {}
        for o, key, val, ev, a in self.puts:
            if self.level(self.base(o)) == "top/info" and self.key(key) in ("length", "name"): pos.setdefault(ev.node.i, []).append((self.key(key), self.props(val), ev.loc()))
        def tr(ev, s, view):
            if ev.kind in ("call", "assign") and ev.node.i in pos:
                for k, pr, loc in pos[ev.node.i]:
                    if k == "length": s = (True,) + s[1:]
                    else: s = (s[0], (loc, bool(pr & {"path"})), s[2])
            return s
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            for a, p in conjuncts(t, pol):
                a = C(a); r = relation(a, p)
                if r and r[1][0] == "c": r = (SWAP[r[0]], r[2], r[1])
                if not r or not any(x[0] == "call" and texts.fname(x[1]) == "file_mode" for x in subterms(a)) or r[2][0] != "c": continue
                op, x, y = r
                for o2, c2 in s[2]:
                    if o2 == "==" and (op == "==" and c2 != y[1] or op == "!=" and c2 == y[1]): return None
                    if o2 == "!=" and op == "==" and c2 == y[1]: return None
                s = s[:2] + (s[2] | {(op, y[1])},)
            return s
        for s in Explorer(self.g, (False, None, frozenset()), tr, br, track="bool").run().at_exit:
            n[s[:2]] = 1
            if s[0] and s[1] and not s[1][1]: bad[s[1][0]] = 1
        return sorted(bad), len([1 for s in n if s[0]])

    def tree(self):
        """Containers reached through a pointer that wanders (the file tree)."""
        if not hasattr(self, "_tree"): self._tree = {self.base(r[1]) for rs in self.ptrs.values() for r in rs if r[0] == "addr" and r[1][0] != "f"}
        return self._tree

    def level(self, c, depth=0):
        if c is None or depth > 8: return None
        if c == self.root: return "top"
        if c[0] == "in":
            l = self.level(c[1], depth + 1)
            return None if l is None else "%s/%s" % (l, c[2])
        if c not in self.parent: return None
        p, k = self.parent[c]
        l = self.level(p, depth + 1)
        if l is None: return None
        return l + ("/leaf" if k == "" else "/[]" if k is None else "/" + k)

    def props(self, t):
        """Accessors of the library the value is taken from."""
        out = set()
        def go(t, d=0):
            if d > 15 or not isinstance(t, tuple) or not t: return
            if t[0] == "v" and t[1] >= 0:
                r = texts.init_of(self.g, t)
                if r is not None: go(r, d + 1)
                return
            if t[0] == "ret":
                r = self.g._static_ret(self.g.ctxs[t[1]], {})
                out.add(norm_prop(self.g.ctxs[t[1]].fn.name)); return
            if t[0] == "call" and (t[1].startswith("dottorrent::") or t[1].startswith("make_")) and texts.fname(t[1]) not in ("storage",): out.add(norm_prop(texts.fname(t[1])))
            for x in t[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str): go(x, d + 1)
                    else:
                        for y in x: go(y, d + 1)
        go(t)
        return out

    def guards(self, ev):
        """Accessors the condition that decides about the event mentions."""
        n = ev.node
        for _ in range(60):
            ps = n.pred
            if len(ps) != 1: return set()
            p = ps[0]
            for d, cond, pol in p.succ:
                if d is n and cond is not None and cond[0] != "ret" and not isinstance(pol, tuple):
                    t = self.g.T(cond[0], cond[1], {}); gd = self.props(t)
                    for a, q in conjuncts(self.C(t), pol):
                        r = relation(a, q)
                        if a[0] == "call" and texts.fname(a[1]) == "empty" and q or r and r[0] == "==" and r[2] == ("c", 0): gd.add("<empty>")
                    return gd
            n = p
        return set()


class Reader:
    def __init__(self, P, top, rep):
        self.P = P; self.rep = rep; self.file = top.file; self.top = top
        self.sum = {}; self.looks = {}; self.gets = {}; self.sets = []; self.loops = set(); self.excluded = None
        self.done = set()
        self.visit(top, [("L", "top")] + [("x",)] * 3, 0)

    def skipped(self, want):
        """Ways through the reader to a result on which a field is not looked up: {(level, key): location}"""
        top = self.top; P = self.P
        s = self.sum[top.fid]; by = {}
        for f, A, loc in s["call"]:
            r = Reader.__new__(Reader); r.P = P; r.rep = self.rep; r.file = self.file; r.top = f; r.sum = self.sum
            r.looks = {}; r.gets = {}; r.sets = []; r.loops = set(); r.excluded = None; r.done = set()
            r.visit(f, [("L", l) if (l := self.level(recanon(P, subst(a, ("x",), [("L", "top")] + [("x",)] * 3)), top)) is not None else ("x",) for a in A], 1)
            by.setdefault((f.fid, loc), set()).update(r.looks)
        g = Graph(P, top, inline=lambda x: x.is_lambda); C = Canon(g); out = {}
        own = {(self.level(recanon(P, subst(o, ("x",), [("L", "top")] + [("x",)] * 3)), top), k) for o, k, loc in s["look"]}
        want = {w for w in want if w not in own and any(w in v for v in by.values())}
        def tr(ev, st, view):
            if ev.kind in ("call", "ctor"):
                cal = ev.raw.get("callee"); f = P.fn_of(cal) if cal else None
                if f is not None and (f.fid, ev.loc()) in by: return st | (by[(f.fid, ev.loc())] & want)
            return st
        for st in Explorer(g, frozenset(), tr, None, track="bool").run().at_exit:
            for w in want - st: out[w] = top.loc()
        return out, want

    def summary(self, fn):
        if fn.fid in self.sum: return self.sum[fn.fid]
        P = self.P
        g = Graph(P, fn, inline=lambda x: x.is_lambda); C = Canon(g)
        s = {"look": [], "call": [], "set": [], "loop": [], "get": [], "set_strings": []}
        self.sum[fn.fid] = s
        for n in g.nodes:
            for ev in events(g, n, {}):
                if ev.kind == "decl" and ev.lhs[3].startswith("__range") and ev.rhs is not None: s["loop"].append(self.open(g, C, C(ev.rhs)))
                if ev.kind == "decl" and ev.rhs is not None and "std::set<" in P.ts(ev.raw["t"]) and "string_view" in P.ts(ev.raw["t"]): s["set_strings"] += [x[1] for x in subterms(C(ev.rhs)) if x[0] == "str"]
                if ev.kind not in ("call", "ctor"): continue
                cal = ev.raw.get("callee"); f = P.fn_of(cal) if cal else None
                A = [self.open(g, C, C(a)) for a in ev.args]
                if ev.kind == "call" and ev.obj is not None and ev.m in ("find", "at", "contains", "operator[]", "count") and A:
                    k = A[0]
                    if k[0] == "ctor" and k[2]: k = k[2][0]
                    o = self.open(g, C, C(ev.obj))
                    s["look"].append((o, k[1] if k[0] == "str" else None, ev.loc()))
                if ev.kind == "call" and texts.fname(ev.qn) in ("get_dict", "get_list", "get_string", "get_integer", "get_as", "holds_dict", "holds_list") and "bencode" in ev.qn:
                    a = ev.args[0] if ev.args else None
                    if a is not None:
                        m = texts.fname(ev.qn); kd = m.split("_")[1]
                        if m == "get_as": kd = kind_of(P, ev.raw.get("t")) or "?"
                        s["get"].append((self.open(g, C, C(a)), kd, ev.loc()))
                if f is not None and f.file == self.file and f.blocks and not f.is_lambda: s["call"].append((f, A, ev.loc()))
                elif cal and ("dottorrent::" in cal["qn"]) and A and cal.get("rec") in ("dottorrent::metafile", "dottorrent::file_storage", "dottorrent::file_entry"):
                    s["set"].append((cal["rec"], ev.m if ev.kind == "call" else "<ctor>", A, ev.loc()))
        return s

    def open(self, g, C, t, depth=0):
        """Replaces iteration variables by ("elem", container)."""
        if depth > 20 or not isinstance(t, tuple) or not t: return t
        if t[0] == "deref" and t[1][0] == "v":
            r = texts.init_of(g, t[1])
            if r is not None:
                r = C(r)
                if r[0] == "begin": return ("elem", self.open(g, C, r[1], depth + 1))
        if t[0] == "lamarg":
            b, ops = texts.origin(g, t)
            if "elem" in ops and b != t: return ("elem", self.open(g, C, C(b), depth + 1))
        return tuple(self.open(g, C, x, depth + 1) if isinstance(x, tuple) else x for x in t)

    def level(self, t, fn):
        if t[0] == "L": return t[1]
        if t[0] in ("dict", "list", "string", "integer", "as"): return self.level(t[1], fn)
        if t[0] == "at":
            l = self.level(t[1], fn); k = t[2]
            if k[0] == "ctor" and k[2]: k = k[2][0]
            return None if l is None else l + "/" + (k[1] if k[0] == "str" else "*")
        if t[0] == "elem":
            l = self.level(t[1], fn)
            return None if l is None else l + "/[]"
        if t[0] == "f" and t[2] in ("first", "second"):
            l = self.level(t[1], fn)
            return None if l is None else l if t[2] == "first" else l[:-2] + "*" if l.endswith("[]") else l
        if t[0] in ("deref", "addr", "conv"): return self.level(t[1], fn)
        return None

    def visit(self, fn, ps, depth):
        key = (fn.fid, tuple(ps))
        if key in self.done or depth > 8: return
        self.done.add(key)
        s = self.summary(fn); sub = lambda t: recanon(self.P, subst(t, ("x",), ps))
        tree = any(k == "file tree" for o, k, l in s["look"])
        for o, k, loc in s["look"]:
            l = self.level(sub(o), fn)
            if l is None: continue
            self.looks.setdefault((l, k if k is not None else "*"), loc)
        for o, kd, loc in s["get"]:
            t = sub(o); l = self.level(t, fn)
            if l is not None: self.gets.setdefault(l, {}).setdefault(kd, loc)
        for t in s["loop"]:
            l = self.level(sub(t), fn)
            if l is not None: self.loops.add(l); self.looks.setdefault((l, "*"), fn.loc())
        if s["set_strings"]: self.excluded = (set(s["set_strings"]), fn.loc())
        for rec, m, A, loc in s["set"]:
            for i, a in enumerate(A):
                a = sub(a)
                for x in subterms(a):
                    if x[0] in ("string", "integer", "as", "list") :
                        l = self.level(x, fn)
                        if l is not None: self.sets.append((l, rec, m, i, loc))
        for f, A, loc in s["call"]:
            args = []
            for i, a in enumerate(A):
                a = sub(a); l = self.level(a, fn)
                if l is None and tree and i == 0 and "bencode" in self.P.ts(f.raw["pt"][i]): l = "top/info/file tree/leaf"
                args.append(("L", l) if l is not None else ("x",))
            self.visit(f, args, depth + 1)


def check_P20(rep):
    rep.rule("The fields the writers emit and the fields the reader looks up are gathered from the inlined flow graphs, each with its place (the path of keys from the top), the kind of value and the property it is taken from or stored in. "
             "Every field written has to be looked up at the same place and decoded as the same kind, and stored in the property it was taken from; every field the reader stores has to be written by every flavour of its protocol; names the reader keeps out of the extra fields must be looked up. Places that cannot be followed are accepted and counted.")
    P = facts.full()
    W = {}
    for fl in ("v1", "v2", "hybrid"):
        fs = [f for f in P.funcs.values() if f.name == "make_bvalue_" + fl and f.blocks]
        if not fs: raise Broken("make_bvalue_%s not found" % fl)
        W[fl] = Writer(P, fs[0], rep)
    tops = [f for f in P.funcs.values() if f.qn == "dottorrent::parse_metafile" and f.blocks]
    if not tops: raise Broken("dottorrent::parse_metafile not found")
    R = [Reader(P, t, rep) for t in tops]
    for fl, w in W.items():
        for (l, k), es in w.emit.items(): rep.count("fields written", 1, "%s: %s/%s %s %s" % (fl, l, k, es[0][0], ",".join(sorted(es[0][1]))))
    for r in R:
        for (l, k), loc in r.looks.items(): rep.count("fields looked up", 1, "%s/%s" % (l, k))
    r = R[0]
    catch = "top/info" in r.loops and r.excluded
    # written, but not read
    for fl, w in W.items():
        for (l, k), es in w.emit.items():
            for r in R:
                if (l, k) in r.looks: continue
                if (l, "*") in r.looks and l == "top/info" and catch and k not in r.excluded[0]: rep.count("written fields that come back as extra fields", 1, k); continue
                if k == "*": 
                    if any(a == l for a, b in r.looks if b == "*"): continue
                rep.violation("unread:%s/%s" % (l, k), es[0][2], "the %s writer emits '%s' in %s, which the parser does not look for there" % (fl, k, place(l)))
                break
    # kept out of the extra fields, but not read
    if catch:
        for k in sorted(r.excluded[0]):
            rep.count("names kept out of the extra fields", 1, k)
            for r in R:
                if ("top/info", k) not in r.looks: rep.violation("dropped:" + k, r.excluded[1], "the parser keeps '%s' out of the extra fields of the info dictionary and does not read it either" % k); break
    # read, but not written
    entry = {k for f in ("v1", "hybrid") for (a, k) in W[f].emit if a == "top/info/files/[]"}       # a single file has its fields in the info dictionary itself
    def wanted(l, k, fl):
        p = l.split("/")
        if "files" in p or l == "top/info" and (k in V1 or k in entry) or l == "top/info/[]": return fl in ("v1", "hybrid")
        if "file tree" in p or "piece layers" in p or k == "piece layers" or l == "top/info" and k in V2: return fl in ("v2", "hybrid")
        return True
    for r in R:
        for (l, k), loc in r.looks.items():
            if k in (None, "*"): continue
            fls = [f for f in W if wanted(l, k, f)]
            have = [f for f in fls if (l, k) in W[f].emit]
            if l == "top/info" and k not in ("name", "piece length", "private", "source") and k not in V1 | V2:
                # extra places of a field of the top level, and the fields of a single file
                if ("top", k) in W["v1"].emit: continue
                if not have: continue
            if k == "path" and l == "top/info" or k == "name" and l == "top/info/files/[]": continue      # one function reads both kinds of entries
            if len(have) < len(fls): rep.violation("unwritten:%s/%s" % (l, k), loc, "the parser looks for '%s' in %s, which the %s writer never emits" % (k, place(l), " and the ".join(f for f in fls if f not in have)))
    # fields of every flavour are looked up on every way to a result
    common = {x for x in W["v1"].emit if x in W["v2"].emit and x in W["hybrid"].emit and x[0] in ("top", "top/info") and x[1] != "*"}
    for r in R:
        out, want = r.skipped(common)
        rep.count("fields looked up on every way", len(want), ", ".join(sorted("/".join(w) for w in want)))
        for w in sorted(out): rep.violation("skipped:" + "/".join(w), out[w], "a way through the parser does not look for '%s' in %s, which every writer emits" % (w[1], place(w[0])))
    rep.need("fields looked up on every way", 8)
    # the fields of a file, in each place where files are written
    places = {"list entry": ("top/info/files/[]", ("v1", "hybrid")), "file tree": ("top/info/file tree/leaf", ("v2", "hybrid")), "single file": ("top/info", ("v1", "hybrid"))}
    for nm, (l, fls) in places.items():
        for fl in fls:
            got = {k for (a, k) in W[fl].emit if a == l}
            rep.count("places of files", 1, "%s %s" % (fl, nm))
            for k, what in (("attr", "attributes"), ("symlink path", "link target"), ("*", "checksums")):
                if k == "*" and l == "top/info":
                    ok = any("checksum" in p or "value" in p for e in W[fl].emit.get((l, "*"), []) for p in e[1])
                else: ok = k in got
                if not ok: rep.violation("file:%s:%s:%s" % (fl, nm, what), W[fl].fn.loc(), "the %s writer drops the %s of a file in a %s" % (fl, what, nm))
    for fl in ("v1", "hybrid"):
        bad, n = W[fl].single_name()
        rep.count("ways of writing a single file", n, fl)
        for loc in bad: rep.violation("singlename:" + fl, loc, "the %s writer replaces the name of a single file, under which the parser stores it, by another name" % fl)
    # same kind, same property
    for r in R:
        for fl, w in W.items():
            for (l, k), es in w.emit.items():
                rl = l + "/" + k
                got = r.gets.get(rl, {})
                for kind, props, loc, gd in es:
                    if kind and got and kind not in got and "?" not in got:
                        rep.violation("kind:%s" % rl, loc, "the %s writer emits '%s' as %s and the parser reads it as %s" % (fl, k, kind, " or ".join(sorted(got))))
                    if kind and got: rep.count("kinds compared", 1, rl)
                    if gd and props and l == "top" and kind and k != "announce":
                        rep.count("conditions of fields", 1, rl)
                        none = "<empty>" in gd; gd = gd - {"<empty>"}
                        if none and gd & props: rep.violation("guard:%s" % rl, loc, "the %s writer emits '%s' only when there is nothing to emit" % (fl, k)); continue
                        if not (gd & props) and not any(a in b or b in a for a in gd for b in props): rep.violation("guard:%s" % rl, loc, "the %s writer emits '%s', taken from %s, depending on %s" % (fl, k, ", ".join(sorted(props)), ", ".join(sorted(gd))))
                    ms = {m for (a, rec, m, i, lo) in r.sets if (a == rl or a == rl + "/[]") and m != "<ctor>" and rec == "dottorrent::metafile"}
                    if ms and props:
                        rep.count("properties compared", 1, rl)
                        mp = {norm_prop(m) for m in ms}
                        if not (mp & props) and not any(a in b or b in a for a in mp for b in props) and l in ("top", "top/info") and k != "name":
                            rep.violation("property:%s" % rl, loc, "the %s writer takes '%s' from %s and the parser stores it with %s" % (fl, k, ", ".join(sorted(props)), ", ".join(sorted(ms))))
    rep.need("fields written", 40); rep.need("fields looked up", 30); rep.need("kinds compared", 20); rep.need("ways of writing a single file", 2); rep.need("properties compared", 10)


def place(l):
    return {"top": "the metafile", "top/info": "the info dictionary", "top/info/files/[]": "an entry of the file list", "top/info/file tree/leaf": "a file of the file tree"}.get(l, l.replace("top/", ""))
