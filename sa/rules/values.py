"""P16: copying, moving and assigning carry the complete value."""
import facts, locks
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

GROW = {"emplace", "insert", "push_back", "emplace_back", "push_front", "emplace_front", "insert_or_assign", "try_emplace", "emplace_hint", "append", "insert_range", "append_range", "push", "merge"}
WHOLE = {"assign", "swap", "operator=", "assign_range", "store", "reset", "copy_from"}
EMPTY = {"clear", "reset"}
CV = {"std::condition_variable", "std::_V2::condition_variable_any", "std::condition_variable_any", "std::once_flag"}
READ = {"size", "empty", "begin", "end", "cbegin", "cend", "reserve", "data", "find", "capacity", "has_value", "count", "contains", "at", "operator[]", "front", "back", "rehash", "value", "max_load_factor", "load", "get", "shrink_to_fit"}


def specials(P, rec):
    out = []
    for m in rec["methods"]:
        k = "copy construction" if m.get("copy") else "move construction" if m.get("move") else "copy assignment" if m.get("copyasg") else "move assignment" if m.get("moveasg") else None
        if k: out.append((m, k))
    return out


def check_P16(rep):
    rep.rule("For every copy/move constructor and assignment operator that is not defaulted: path-sensitive dataflow over the inlined flow graph; on every path to a normal end (the self-assignment path excepted) each non-static, non-mutable data member other than a lock has received the value of the same member of the source "
             "(initialiser, assignment, swap, whole-container operation, or a loop/algorithm over that member of the source which inserts in every iteration into an emptied member), it is not changed afterwards, and the source's member has not been overwritten before. Defaulted operations are memberwise by definition.")
    done = set()
    for P in (facts.core(), facts.full()):
        for rec in P.records:
            if not rec["qn"].startswith("dottorrent") or not rec["file"].startswith(REPO) or "(lambda" in rec["qn"]: continue
            key = (rec["qn"], rec["line"], tuple((f["n"], P.ts(f["t"])) for f in rec["fields"]))
            if key in done: continue
            done.add(key)
            rep.count("classes", 1, rec["qn"])
            for m, kind in specials(P, rec):
                if m.get("deleted"): continue
                rep.count("special member functions", 1, "%s: %s%s" % (rec["qn"], kind, " (defaulted)" if m.get("defaulted") else ""))
                if m.get("defaulted"): continue
                fn = P.fn_of(m)
                if fn is None or not fn.blocks:
                    fn = next((f for f in P.funcs.values() if f.blocks and f.rec == rec["qn"] and f.name == m["n"] and f.raw["clsid"] == rec["id"] and [P.ts(t) for t in f.raw["pt"]] == [P.ts(t) for t in m["pt"]]), None)
                if fn is None:
                    if rec.get("tu") == "core": done.discard(key); continue
                    raise Broken("body of %s of %s not found" % (kind, rec["qn"]))
                special(rep, P, rec, fn, kind)
    rep.need("classes", 30); rep.need("special member functions", 20)
    rep.assume("copy, move, assignment and swap of members of standard types carry their value; conversions applied to elements of a container while it is copied preserve the element's value")


def special(rep, P, rec, fn, kind):
    fields = {}
    for f in rec["fields"]:
        y = P.types[f["t"]]
        if f.get("mutable") or y.get("rec") in locks.MUTEX or y.get("rec") in CV: continue
        fields[f["n"]] = f
    ctor = fn.kind == "ctor"
    own = {P.alias.get(m["fid"], m["fid"]) for m, _ in specials(P, rec)}      # judged on their own
    g = Graph(P, fn, inline=lambda f: f.fid not in own and (f.rec == rec["qn"] or f.is_lambda or (f.rec is None and f.file.startswith(REPO) and f.name in ("swap",)) or (f.rec is None and f.file == fn.file)))
    THIS = ("this",)
    pd = fn.params[0]
    byval = not P.types[fn.vars[pd]["t"]].get("ref")
    P0 = {("p", 0), ("v", 0, pd, fn.vars[pd]["n"])}
    # state: done, emptied, spoiled, loops {(var, F, inserted)}, copies, selfpath
    def src(t, s):
        """Name of the source's member the term is, if any."""
        if isinstance(t, tuple) and t and t[0] == "f" and t[2] in fields and (t[1] in P0 or t[1] in s[4]) and t[2] not in s[2]: return t[2]
        return None
    def mine(t):
        return t[2] if isinstance(t, tuple) and t and t[0] == "f" and t[1] == THIS and t[2] in fields else None
    def carried(F, rhs, s):
        if rhs is None: return False
        if src(rhs, s) == F: return True
        if "bits" in P.types[fields[F]["t"]] or P.types[fields[F]["t"]].get("ptr"):
            if rhs[0] == "call" and rhs[1] in ("std::exchange", "std::move", "std::forward") and rhs[3] and src(rhs[3][0], s) == F: return True
            if rhs[0] == "call" and rhs[1].split("::")[-1] in ("load", "exchange", "get", "release") and rhs[2] and src(rhs[2], s) == F: return True
            return False
        if rhs[0] == "c" or rhs[0] == "op": return False
        return any(src(x, s) == F for x in subterms(rhs))
    def put(s, i, v): return s[:i] + (v,) + s[i + 1:]
    def setdone(F, s): return put(put(s, 0, s[0] | {F}), 1, s[1] - {F})
    def undone(F, s): return put(s, 0, s[0] - {F})
    def tr(ev, s, view):
        if ev.kind == "decl":
            v = ev.raw; y = P.types[v["t"]]
            if ev.rhs is not None and not y.get("ref"):
                if (ev.rhs in P0 or ev.rhs in s[4]) and y.get("rec") == rec["qn"]: return put(s, 4, s[4] | {ev.lhs})
                if ev.rhs[0] == "ctor" and ev.rhs[1] == rec["qn"] and len(ev.rhs[2]) == 1 and (ev.rhs[2][0] in P0 or ev.rhs[2][0] in s[4]): return put(s, 4, s[4] | {ev.lhs})
                # an iterator over a member of the source
                if ev.rhs[0] == "call" and ev.rhs[1].split("::")[-1] in ("begin", "cbegin"):
                    o = ev.rhs[2] if ev.rhs[2] is not None else (ev.rhs[3][0] if ev.rhs[3] else None)
                    F = src(o, s) if o else None
                    if F: return put(s, 3, frozenset(x for x in s[3] if x[0] != ev.lhs) | {(ev.lhs, F, False)})
            return s
        if ev.kind == "fieldinit":
            F = mine(ev.lhs)
            if F and carried(F, ev.rhs, s): return setdone(F, s)
            return s
        if ev.kind == "assign":
            F = mine(ev.lhs)
            if F:
                if ev.op == "=" and carried(F, ev.rhs, s): return setdone(F, s)
                if ev.op == "=" and ev.rhs is not None and local_full(ev.rhs, F, s): return setdone(F, s)
                s = undone(F, s)
                if ev.op == "=" and ev.rhs is not None and ev.rhs[0] in ("ctor", "init") and not ev.rhs[-1]: s = put(s, 1, s[1] | {F})
                return s
            if ev.op == "=" and ev.lhs == THIS:
                if ev.rhs in P0 or ev.rhs in s[4]:        # defaulted operation on the whole object
                    for F in fields: s = setdone(F, s)
                return s
            if ev.op == "=" and ev.lhs and ev.lhs[0] == "call" and ev.lhs[1] in ("std::tie", "std::forward_as_tuple") and ev.rhs and ev.rhs[0] in ("call", "ctor"):
                ra = ev.rhs[3] if ev.rhs[0] == "call" else ev.rhs[2]
                for a, b in zip(ev.lhs[3], ra):
                    F = mine(a)
                    if F: s = setdone(F, s) if carried(F, b, s) else undone(F, s)
                return s
            F = src(ev.lhs, s)
            if F and F not in s[0]: return put(s, 2, s[2] | {F})
            if ev.op == "++":
                for x in s[3]:
                    if x[0] == ev.lhs:
                        if not x[2]:
                            rep.violation("%s:%s:skip" % (fn.qn + ("(move)" if "move" in kind else "(copy)"), x[1]), ev.loc(), "%s of %s can pass over an element of '%s' without inserting it" % (kind, rec["qn"], x[1]))
                        return put(s, 3, (s[3] - {x}) | {(x[0], x[1], False)})
            return s
        if ev.kind in ("call", "ctor"):
            args = ev.args or []
            if ev.kind == "call" and ev.obj is not None:
                F = mine(ev.obj)
                if F:
                    got = [src(x, s) for a in args for x in subterms(a)]
                    if ev.m in WHOLE and (F in got or len(args) == 1 and local_full(args[0], F, s)): return setdone(F, s)
                    if ev.m in EMPTY: return put(undone(F, s), 1, s[1] | {F})
                    if ev.m in ("resize", "resize_and_overwrite"): return put(undone(F, s), 1, s[1] | {("sized", F)})
                    if ev.m in GROW:
                        whole = any(a[0] == "call" and a[1].split("::")[-1] in ("begin", "cbegin") and (src(a[2], s) if a[2] is not None else src(a[3][0], s) if a[3] else None) == F for a in args) or any(src(a, s) == F for a in args)
                        if not ctor and F not in s[1] and F not in s[0]:
                            rep.violation("%s:%s:stale" % (fn.qn, F), ev.loc(), "%s of %s adds the source's '%s' to what the target already holds" % (kind, rec["qn"], F))
                        if whole: return setdone(F, s)
                        return grow(F, s, args)
                    if ev.m == "swap" and args and src(args[0], s) == F: return setdone(F, s)
                    if not ev.raw["callee"].get("const") and ev.m not in READ and not (ev.op in ("[]", "*", "->")): return undone(F, s)
                    return s
                if ev.obj[0] == "v" and ev.m in GROW:
                    return put(s, 3, frozenset((x[0], x[1], True) for x in s[3]))
                F = src(ev.obj, s)
                if F:
                    if ev.m == "swap" and args and mine(args[0]) == F: return setdone(F, s)
                    if ev.m in EMPTY and F not in s[0]: return put(s, 2, s[2] | {F})
                    return s
            short = ev.qn.split("::")[-1]
            if ev.kind == "call" and short in ("swap", "iter_swap") and len(args) >= 2:
                a, b = args[0], args[1]
                for x, y in ((a, b), (b, a)):
                    F = mine(x)
                    if F and (src(y, s) == F or local_full(y, F, s)): s = setdone(F, s)
                    if x == THIS and (y in P0 or y in s[4]):
                        for F in fields: s = setdone(F, s)
                return s
            if ev.kind == "call" and short in ("copy", "transform", "copy_n", "move", "for_each", "for_each_n", "uninitialized_copy", "memcpy", "memmove", "ranges::copy"):
                frm = {src(x, s) for a in args for x in subterms(a)} - {None}
                to = {mine(x) for a in args for x in subterms(a)} - {None}
                for F in frm & to:
                    if inplace(F, args) and ("sized", F) not in s[1] and not ctor: s = undone(F, s)
                    else: s = setdone(F, s)
                for F in frm - to:
                    k = ("lam", ev.ctx.id, ev.n)
                    s = put(s, 3, frozenset(x for x in s[3] if x[0] != k) | {(k, F, True)})
                return s
        if ev.kind == "lambegin":
            n = ev.ctx.fn.nodes[ev.n]
            frm = set()
            for a in n.get("args", []):
                t = view.g.T(ev.ctx, a, view.env)
                frm |= {src(x, s) for x in subterms(t)} - {None}
            new = s[3]
            for F in frm:
                k = ("lam", ev.ctx.id, ev.n)
                new = frozenset(x for x in new if x[0] != k) | {(k, F, False)}
            return put(s, 3, new)
        if ev.kind == "lamend":
            k = ("lam", ev.ctx.id, ev.n)
            for x in s[3]:
                if x[0] == k and not x[2]:
                    if any(mine(y) == x[1] for y in [("f", THIS, x[1])]) and lam_inserts(g, ev, x[1], mine):
                        rep.violation("%s:%s:skip" % (fn.qn + ("(move)" if "move" in kind else "(copy)"), x[1]), ev.loc(), "%s of %s can pass over an element of '%s' without inserting it" % (kind, rec["qn"], x[1]))
            return s
        return s
    def inplace(F, args):
        """Elements are written over those a container of variable size already has."""
        if P.types[fields[F]["t"]].get("rec") not in ("std::vector", "std::deque", "std::basic_string", "std::list"): return False
        if any(x[0] == "call" and x[1].split("::")[-1] in ("back_inserter", "inserter", "front_inserter", "resize") for a in args for x in subterms(a)): return False
        return any(x[0] == "call" and x[1].split("::")[-1] in ("begin", "data") and (x[2] if x[2] is not None else x[3][0] if x[3] else None) == ("f", THIS, F) for a in args for x in subterms(a))
    def local_full(rhs, F, s):
        """A local container that was filled in a loop over the source's member."""
        return rhs[0] == "v" and any(x[1] == F for x in s[3]) and g_inserts(g, None, lambda t: None, rhs)
    def grow(F, s, args):
        return put(s, 3, frozenset((x[0], x[1], True) if x[1] == F else x for x in s[3]) if any(x[1] == F for x in s[3]) else s[3] | {(("idx",), F, True)})
    def br(c, pol, s, view):
        if c == ("range",): return s
        for t, p in conjuncts(c, pol):
            r = relation(t, p)
            if r and r[0] == "==":
                a, b = r[1], r[2]
                me = {THIS, ("addr", THIS)}
                ot = {("addr", x) for x in P0}
                if a in me and b in ot or b in me and a in ot: s = put(s, 5, True)
                for x, y in ((a, b), (b, a)):
                    if x[0] == y[0] == "call" and x[1].split("::")[-1] == y[1].split("::")[-1] == "size" and x[2] is not None and y[2] is not None and mine(x[2]) and mine(x[2]) == src(y[2], s): s = put(s, 1, s[1] | {("sized", mine(x[2]))})
            # a counted loop over the source's member
            for x in subterms(t):
                if x[0] == "call" and x[1].split("::")[-1] in ("size", "empty") and x[2] is not None and src(x[2], s):
                    F = src(x[2], s)
                    if not any(y[1] == F for y in s[3]): s = put(s, 3, s[3] | {(("idx",), F, True)})
        return s
    ex = Explorer(g, (frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), False), tr, br, limit=300000).run()
    for F in fields:
        rep.count("members carried", 1, "%s %s: %s" % (rec["qn"], kind, F))
        for s in ex.at_exit:
            if s[5]: continue
            if F in s[0]: continue
            ls = [x for x in s[3] if x[1] == F]
            if ls and (ctor or F in s[1]) and g_inserts(g, F, mine): continue
            rep.violation("%s:%s:%s" % (rec["qn"], kind.replace(" ", "-"), F), fn.loc(), "%s of %s (%s) can finish without member '%s' having received the source's '%s'" % (kind, rec["qn"], fn.sig(), F, F))
            break
    if not ex.at_exit: raise Broken("%s has no normal end" % fn.sig())


def g_inserts(g, F, mine, local=None):
    """Somewhere in the function elements are added to this member."""
    for nd in g.nodes:
        if nd.kind != "eval": continue
        n = nd.ctx.fn.nodes[nd.n]
        if n["k"] == "CXXMemberCallExpr" and n.get("callee", {}).get("n") in GROW:
            t = g.T(nd.ctx, n["obj"], {})
            if local is not None and t == local or local is None and mine(t) == F: return True
        if n["k"] in ("CallExpr",) and n.get("callee", {}).get("n") in ("back_inserter", "inserter", "front_inserter", "end", "begin"):
            ts = [g.T(nd.ctx, a, {}) for a in n.get("args", [])]
            if local is not None and local in ts or local is None and any(mine(t) == F for t in ts): return True
    return False


def lam_inserts(g, ev, F, mine): return g_inserts(g, F, mine)
