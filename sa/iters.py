"""Iterator and reference validity: a position in a container is not used after the container was changed."""
from ir import Graph, Explorer, contains, show, subterms

SEQ = {"std::vector", "std::basic_string", "std::deque"}
NODE = {"std::map", "std::set", "std::unordered_map", "std::unordered_set", "std::list", "std::multimap", "std::multiset"}
REALLOC = {"push_back", "emplace_back", "insert", "emplace", "clear", "resize", "assign", "reserve", "shrink_to_fit", "append", "push_front", "emplace_front", "operator="}
POS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "insert", "erase", "emplace", "lower_bound", "upper_bound"}
ELEM = {"back", "front", "at"}


def origin(t):
    """Container path an iterator-valued term points into."""
    for x in subterms(t):
        if x[0] == "call" and x[1].split("::")[-1] in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
            o = x[2] if x[2] is not None else (x[3][0] if x[3] else None)
            if o is not None: return o
        if x[0] == "call" and x[2] is not None and x[1].split("::")[-1] in POS and x[1].split("::")[0] == "std": return x[2]
    return None


def elem_origin(t):
    if t[0] == "idx": return t[1]
    if t[0] == "call" and t[2] is not None and t[1].split("::")[-1] in ELEM and t[1].startswith("std::"): return t[2]
    if t[0] in ("f",): return elem_origin(t[1])
    return None


def is_iter(P, t):
    y = P.types[t]
    s = y["s"]
    return "__normal_iterator" in s or "_Deque_iterator" in s or "_Rb_tree_iterator" in s or "_Rb_tree_const_iterator" in s or "_Node_iterator" in s


def analyse(P, fn, rep, inline, found):
    vs = [v for v in fn.vars.values()]
    g = Graph(P, fn, inline=inline, max_depth=4)
    def crec(ev): return ev.rec
    def tr(ev, s, view):
        # s: frozenset of (var, container, valid)
        if ev.kind == "decl":
            v = ev.raw; y = P.types[v["t"]]
            s = frozenset(x for x in s if x[0] != ev.lhs)
            if ev.rhs is None: return s
            o = None
            if y.get("ref") and not v["n"].startswith("__"): o = elem_origin(ev.rhs)
            elif is_iter(P, v["t"]) and not v["n"].startswith("__"): o = origin(ev.rhs) or next((x[1] for x in s for z in subterms(ev.rhs) if z == x[0]), None)
            if o is not None: rep.count("positions tracked", 1, "%s %s" % (fn.disp, v["n"])); return s | {(ev.lhs, o, True)}
            return s
        if ev.kind == "assign" and ev.op == "=" and ev.lhs and ev.lhs[0] == "v" and any(x[0] == ev.lhs for x in s) and not P.types[ev.ctx.fn.vars[ev.lhs[2]]["t"]].get("ref") if ev.kind == "assign" and ev.lhs and ev.lhs[0] == "v" and ev.lhs[2] in ev.ctx.fn.vars else False:
            o = origin(ev.rhs) if ev.rhs else None
            return frozenset(x if x[0] != ev.lhs else (x[0], o or x[1], True) for x in s)
        if ev.kind == "vtouch":
            d = ev.raw["d"]; t = ("v", ev.ctx.id, d)
            for x in s:
                if x[0][:3] == t and not x[2] and not assigned(ev.ctx.fn, ev.n):
                    found(ev, x)
            return s
        if ev.kind == "call":
            for x in s:
                if x[0][0] == "p" and not x[2] and (ev.obj is not None and ev.obj == x[0][:2] or any(a == x[0][:2] for a in ev.args or [])): found(ev, x)
        if ev.kind == "call" and ev.obj is not None and ev.rec in SEQ | NODE and not ev.raw["callee"].get("const"):
            if ev.rec in SEQ and ev.m in REALLOC: return frozenset((x[0], x[1], False) if x[1] == ev.obj else x for x in s)
            if ev.m == "erase" or ev.m == "extract":
                hit = {z for a in ev.args for z in subterms(a)}
                dead = {(("p", z[1], "p", fn.vars[fn.params[z[1]]]["n"]), ev.obj, False) for z in hit if z[0] == "p" and z[1] < len(fn.params) and is_iter(P, fn.vars[fn.params[z[1]]]["t"])}
                return frozenset((x[0], x[1], False) if x[1] == ev.obj and x[0] in hit else x for x in s) | dead
            if ev.m == "clear": return frozenset((x[0], x[1], False) if x[1] == ev.obj else x for x in s)
        if ev.kind == "assign" and ev.op == "=" and ev.lhs is not None:
            return frozenset((x[0], x[1], False) if x[1] == ev.lhs else x for x in s)
        return s
    Explorer(g, frozenset(), tr, limit=120000).run()


def assigned(fn, i):
    par = fn.parents; p = par.get(i)
    while p is not None and fn.nodes[p]["k"] in ("ParenExpr", "ImplicitCastExpr"): i = p; p = par.get(p)
    n = fn.nodes.get(p) if p is not None else None
    return bool(n) and (n["k"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n["args"][0] == i or n["k"] == "BinaryOperator" and n.get("asg") and n["c"][0] == i)
