"""P24: the announce list stays ordered and hands out valid positions."""
import facts, iters
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, assigned_var

REC = "dottorrent::announce_url_list"
URL = "dottorrent::announce_url"
T = ("this",)
BOUND = {"std::upper_bound", "std::lower_bound", "std::ranges::__upper_bound_fn::operator()", "std::ranges::__lower_bound_fn::operator()"}
SORTED = {"std::sort", "std::stable_sort", "std::ranges::__sort_fn::operator()", "std::ranges::__stable_sort_fn::operator()"}
GROW = {"push_back", "emplace_back", "push_front", "insert", "emplace", "append_range"}


def check_P24(rep):
    rep.rule("Typestate of iterators and element references over the flow graph of every function of the library: after an operation that invalidates a position in its container the position is neither used nor returned. "
             "Ordering over every path of every operation of the announce list: an element enters the list at the position that a binary search for it gives (over the whole list in the order of the elements, or over its own tier), or the whole list or the whole tier is sorted afterwards before tiers with a higher number are appended; "
             "tier numbers change only by closing the gap of a tier that was found to be empty, for all elements behind it. Compile-fail witnesses over the list's own code: after every short history of operations the trackers are ordered and their tiers have no gap.")
    P = facts.full()
    recs = P.record(REC)
    if not recs: raise Broken("class %s not found" % REC)
    cont = [f["n"] for f in recs[0]["fields"] if P.types[f["t"]].get("rec") == "std::vector"]
    if len(cont) != 1: raise Broken("the container of %s was not found" % REC)
    C = ("f", T, cont[0])
    def found_for(fn):
        def found(ev, x): rep.violation("%s:stale:%s" % (fn.qn, x[0][3]), ev.loc(), "%s uses '%s', a position in %s, after the operation that invalidated it" % (fn.disp, x[0][3], show(x[1])))
        return found
    for fn in P.funcs.values():
        if not fn.blocks or not fn.file.startswith(REPO): continue
        if not any(iters.is_iter(P, v["t"]) or P.types[v["t"]].get("ref") and v["k"] == "local" for v in fn.vars.values()): continue
        rep.count("functions", 1)
        iters.analyse(P, fn, rep, lambda f: f.rec == REC, found_for(fn))
    for fn in P.methods(REC):
        if not fn.blocks or fn.raw.get("defaulted") or fn.raw.get("const") or fn.access != "public": continue
        rep.count("operations", 1, fn.sig())
        order(rep, P, fn, C)
    rep.need("functions", 60); rep.need("positions tracked", 80); rep.need("operations", 6); rep.need("insertions judged", 3)
    from rules import trackers
    try: trackers.run(rep, trackers.ORDER, trackers.depth(rep))
    except Broken as e: rep.assume("the witnesses over short histories could not be compiled: %s" % str(e)[:300])
    rep.assume("callers do not change tier numbers through the references they are handed; sorting and binary search of the standard library are correct")


def comparator(P, t):
    """'tier', 'url' or None for a comparison lambda (or a variable holding one)."""
    fid = None
    if t[0] == "lam": fid = t[2] if t[2] in P.funcs else next((x for x in t[3] if x in P.funcs), None)
    if t[0] == "g":
        g = next((x for x in P.globals if x["qn"] == t[1] or x["qn"].split("::")[-1] == t[1].split("::")[-1]), None)
        if t[1].split("::")[-1] == "tier_comparator": return "tier"
        if t[1].split("::")[-1] == "url_comparator": return "url"
    if fid is None: return None
    f = P.funcs[fid]
    g = Graph(P, f, inline=lambda x: x.is_lambda)
    res = []
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None: res.append(ev.term)
        return s
    Explorer(g, 0, tr).run()
    if len(res) == 1 and res[0] is not None:
        r = relation(res[0], True)
        if r:
            a, b = r[1], r[2]
            for nm in ("tier", "url"):
                if contains(a, ("f", ("p", 0), nm)) and contains(b, ("f", ("p", 1), nm)): return nm if r[0] in ("<",) else "reverse"
                if contains(a, ("f", ("p", 1), nm)) and contains(b, ("f", ("p", 0), nm)): return nm if r[0] in (">",) else "reverse"
            if a == ("p", 0) and b == ("p", 1): return "url" if r[0] == "<" else "reverse"
    return None


def order(rep, P, fn, C):
    g = Graph(P, fn, inline=lambda f: f.rec == REC or f.is_lambda or f.rec is None and "announce" in f.file)
    ctor = fn.kind == "ctor"
    def whole(a, b): return is_end(a, "begin") and is_end(b, "end")
    def is_end(t, which):
        if t[0] == "call" and t[1].split("::")[-1] in (which, "c" + which):
            o = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
            return o == C
        return False
    def tier_range(a, b, defs):
        """tier term when a..b is the range of one tier (equal_range over the whole list by tier)."""
        def base(t):
            t = defs.get(t, t)
            if t[0] == "bind": return defs.get(t[1], t[1])
            if t[0] == "call" and t[1].split("::")[-1] == "get" and len(t[3]) == 1: return defs.get(t[3][0], t[3][0])
            if t[0] == "f" and t[2] in ("first", "second"): return defs.get(t[1], t[1])
            return None
        x, y = base(a), base(b)
        if x is not None and x == y and x[0] == "call" and x[1].split("::")[-1] == "equal_range" and len(x[3]) >= 3: return tier_of(x[3][2], defs), x
        def one(t, nm):
            t = defs.get(t, t)
            return t if t[0] == "call" and t[1].split("::")[-1] == nm and len(t[3]) >= 4 else None
        x, y = one(a, "lower_bound"), one(b, "upper_bound")
        if x and y: return tier_of(x[3][2], defs), x
        return None, None
    def tier_of(t, defs):
        t = defs.get(t, t)
        if t[0] == "ctor" and t[1] == URL and len(t[2]) == 2: return t[2][1]
        return ("f", t, "tier")
    def judge(ev, s, pos, args):
        """args: constructor arguments or the element inserted."""
        defs = dict(s[0])
        pos = strip(pos); pos = defs.get(pos, pos)
        rep.count("insertions judged", 1, "%s %s" % (fn.name, ev.loc()))
        bad = None
        if len(args) == 1: val = args[0]; itier = tier_of(val, defs); url = ("f", val, "url")
        elif len(args) == 2: val = None; itier = args[1]; url = args[0]
        else: return
        if is_end(pos, "begin") or is_end(pos, "end"): bad = "at a fixed end of the list"
        elif pos[0] == "call" and (pos[1] in BOUND or pos[1].split("::")[-1] in ("upper_bound", "lower_bound")) and len(pos[3]) >= 3:
            a, b, key = pos[3][0], pos[3][1], pos[3][2]
            key = defs.get(key, key)
            cmp = comparator(P, pos[3][3]) if len(pos[3]) > 3 else "full"
            if whole(a, b):
                if cmp == "url": bad = "where a search by url over all tiers points"
                elif cmp == "reverse": bad = "where a search in the reverse order points"
                elif cmp == "full" and val is not None and key != val and key[0] in ("p", "v"): bad = "where the search for something else points"
                elif cmp == "tier": bad = None if tier_of(key, defs) == itier or tier_of(key, defs) == ("f", val, "tier") else "in a tier other than its own"
            else:
                tr_, _ = tier_range(a, b, defs)
                if tr_ is not None:
                    if tr_ != itier: bad = "in a tier other than its own"
                    elif cmp == "reverse": bad = "where a search in the reverse order points"
                    elif key not in (url, val, ("call", URL, val, ())) and key[0] in ("p", "v") and url[0] in ("p", "v"): bad = "where the search for something else points"
        elif pos[0] == "call" and pos[1].split("::")[-1] in ("find", "find_if"): bad = "where a search for equality points"
        elif pos[0] == "bind" or pos[0] == "call" and pos[1] == "std::get" or pos[0] == "f" and pos[2] in ("first", "second"):
            bad = "at the edge of a tier, whatever the order of urls inside it"
        if bad: rep.violation("%s:position" % fn.qn, ev.loc(), "%s inserts an announce url %s" % (fn.disp, bad))
    def strip(t):
        while t[0] == "ctor" and len(t[2]) == 1: t = t[2][0]
        return t
    # state: (definitions, unsorted appended?, local vectors dirty, appended since tier change, facts, erased)
    def tr(ev, s, view):
        defs, uns, dirty, app, facts_, er = s
        if ev.kind == "decl" and ev.rhs is not None:
            y = P.types[ev.raw["t"]]
            d = frozenset(x for x in defs if x[0] != ev.lhs)
            if ev.lhs[0] == "v" and (iters.is_iter(P, ev.raw["t"]) or "pair" in y["s"] or y.get("rec") == URL): d = d | {(ev.lhs, strip(ev.rhs))}
            return d, uns, dirty - {ev.lhs}, app, facts_, er
        if ev.kind == "decl": return defs, uns, dirty - {ev.lhs}, app, facts_, er
        if ev.kind == "assign": ev.lhs = assigned_var(g, ev)
        if ev.kind == "assign" and ev.lhs and ev.lhs[0] == "v":
            d = frozenset(x for x in defs if x[0] != ev.lhs)
            if ev.op == "=" and ev.rhs is not None and ev.lhs[1] >= 0 and iters.is_iter(P, g.ctxs[ev.lhs[1]].fn.vars[ev.lhs[2]]["t"]): d = d | {(ev.lhs, strip(ev.rhs))}
            if ctor and ev.op in ("++", "+=") and not ev.lhs[3].startswith("__") and P.types[g.ctxs[ev.lhs[1]].fn.vars[ev.lhs[2]]["t"]].get("bits"): app = False
            if ctor and ev.op in ("--", "-=") and P.types[g.ctxs[ev.lhs[1]].fn.vars[ev.lhs[2]]["t"]].get("bits"):
                rep.violation("%s:tierdown" % fn.qn, ev.loc(), "%s counts tiers downwards while it appends them" % fn.disp)
            return d, uns, dirty, app, facts_, er
        if ev.kind == "assign" and ev.lhs and ev.lhs[0] == "f" and ev.lhs[2] == "tier" and not ctor:
            rep.count("tier changes judged", 1, "%s %s" % (fn.name, ev.loc()))
            tierchange(ev, s)
            er = False; s = s[:5] + (er,)
        if ev.kind == "call":
            if ev.obj == C and not ev.raw["callee"].get("const"):
                if ev.m in ("insert", "emplace") and ev.args:
                    it = strip(ev.args[0])
                    if len(ev.args) >= 2 and not (len(ev.args) == 3 and ev.m == "insert"): judge(ev, s, it, ev.args[1:])
                    elif len(ev.args) == 3 and ev.m == "insert": uns, app, dirty = append(ev, s, ev.args[1:])
                elif ev.m in ("push_back", "emplace_back", "push_front", "emplace_front"):
                    rep.count("insertions judged", 1, "%s %s" % (fn.name, ev.loc()))
                    uns = ev.loc()
                elif ev.m == "erase": er = facts_ if len(ev.args) == 1 else er
                elif ev.m == "clear": uns = None
                return defs, uns, dirty, app, facts_, er
            if ev.obj is not None and ev.obj[0] == "v" and ev.m in GROW: return defs, uns, dirty | {ev.obj}, app, facts_, er
            if ev.qn in SORTED or ev.qn.split("::")[-1] in ("sort", "stable_sort"):
                A = ev.args
                if A and (A[0] == C or is_end(A[0], "begin")):
                    cmp = next((comparator(P, a) for a in A if a[0] in ("lam", "g")), "full")
                    if cmp == "full": uns = None
                    return defs, uns, dirty, app, facts_, er
                return defs, uns, dirty - {x for a in A for x in subterms(a)}, app, facts_, er
            if any(x[0] == "call" and x[1].split("::")[-1] in ("back_inserter", "inserter") and x[3] and x[3][0] == C for a in ev.args or [] for x in subterms(a)) and ev.qn.split("::")[-1] not in ("back_inserter", "inserter"):
                uns, app, dirty = append(ev, s, ev.args)
                return defs, uns, dirty, app, facts_, er
        return defs, uns, dirty, app, facts_, er
    def append(ev, s, args):
        """A range is appended to the list."""
        defs, uns, dirty, app, facts_, er = s
        rep.count("insertions judged", 1, "%s %s" % (fn.name, ev.loc()))
        src = [x for a in args for x in subterms(a) if x[0] == "v"]
        if not ctor: return ev.loc(), True, dirty
        if any(x in dirty for x in src): uns = uns or ev.loc()
        if app: uns = uns or ev.loc()
        return uns, True, dirty
    def tierchange(ev, s):
        """--a.tier for the elements behind an erased one: only when its tier was found empty."""
        defs = dict(s[0]); fx = s[4]
        gap = False; empty = False
        for (op, a, b) in fx:
            for x, y in ((a, b), (b, a)):
                xd = x
                if x[0] == "f" and x[2] == "tier":
                    base = x[1]
                    if base[0] == "deref": base = base[1]
                    base = defs.get(base, base)
                    if op in ("!=", ">", "<"):
                        if base[0] == "call" and (base[1].split("::")[-1] in ("lower_bound", "get_tier_begin") or base[1].split("::")[-1] == "prev" or base[1].endswith("operator-")): empty = True
                        elif base[0] == "op": empty = True
                        else: gap = True
                if op in ("==", "<=", "<") and y == ("c", 0) and (x[0] == "call" and x[1].split("::")[-1] in ("tier_size", "distance", "count_if", "ssize", "size") or x[0] == "op" and x[1] == "-"): empty = True
                if op == "==" and x[0] == "bind" and y[0] == "bind": empty = True
            if op in ("none_of", "notfound"): empty = True
        if not empty:
            rep.violation("%s:renumber" % fn.qn, ev.loc(), "%s renumbers tiers without having found that the tier of the removed url is empty now" % fn.disp)
    def br(c, pol, s, view):
        if c == ("range",) or isinstance(pol, tuple): return s
        f = set(s[4])
        parts = []
        for t, p in conjuncts(c, pol):
            if t[0] == "op" and t[1] in ("&&", "||"):      # all parts but the last are known on this path
                every = conjuncts(t, t[1] == "&&")
                if any(relation(u, not q) in f for u, q in every): continue    # one part is known to be the reason
                rest = [(u, q) for u, q in every if relation(u, q) not in f]
                if len(rest) == 1: parts.append((rest[0][0], not rest[0][1]))
                elif rest: f.add(("unknown", t, t))
            else: parts.append((t, p))
        for t, p in parts:
            r = relation(t, p)
            if r: f.add(r)
            elif t[0] == "call" and p and t[1].split("::")[-1] == "empty": f.add(("empty", t, t))
            elif t[0] == "call" and p and t[1].split("::")[-1] in ("none_of", "__none_of_fn::operator()"): f.add(("none_of", t, t))
            elif t[0] == "call" and not p and t[1].split("::")[-1] in ("any_of",): f.add(("none_of", t, t))
        if len(f) > 12: return s
        return s[:4] + (frozenset(f),) + s[5:]
    ex = Explorer(g, (frozenset(), None, frozenset(), False, frozenset(), False), tr, br, limit=300000).run()
    for s in ex.at_exit:
        if s[1]: rep.violation("%s:unsorted" % fn.qn, s[1], "%s appends announce urls without bringing the list into tier and url order afterwards" % fn.disp); break
    for s in ex.at_exit:
        if s[5] is not False and not needless(s[4], s[5]):
            rep.violation("%s:gap" % fn.qn, fn.loc(), "%s can remove the only announce url of a tier without closing the gap in the tier numbers" % fn.disp); break


def needless(now, before):
    """Is there a reason on this path why no tier number has to change (anything that is not known to be none is one)?"""
    if len(now) > 10: return True
    for r in now:
        op, a, b = r
        if any(x[0] == "f" and x[2] == "tier" or x[0] == "v" and "tier" in x[3] or x[0] == "call" and "tier" in x[1] for t in (a, b) for x in subterms(t)): return True
        if r in before: continue
        for x, y in ((a, b), (b, a)):
            if y[0] == "c" and x[0] in ("call", "op") and counts(x):
                if op in ("==", "<=") and y[1] == 0 or op == "<" and y == b and y[1] == 1: return True
                break
            if x[0] == "call" and x[1].split("::")[-1] in ("end", "cend") and op == "!=": break
        else: return True
    return False


def counts(x):
    if x[0] == "call": return x[1].split("::")[-1] in ("distance", "size", "ssize", "count")
    return x[0] == "op" and x[1] == "-"
