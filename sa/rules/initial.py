"""P17: no object starts its life with indeterminate members; no local is read before it has a value."""
import facts
from facts import Broken, REPO
from ir import Graph, Explorer, show, subterms


def indeterminate(P, t, depth=0):
    """Default-initialising a field of this type leaves (part of) it indeterminate."""
    y = P.types[t]
    if y.get("ref"): return False
    if "bits" in y or y.get("ptr") or y.get("float") or "enum" in y or y.get("mptr"): return True
    if y.get("array") and "elem" in y: return indeterminate(P, y["elem"], depth + 1)
    if y.get("rec") == "std::array" and depth < 4:
        s = y["s"]
        inner = s[s.find("<") + 1:] if "<" in s else ""
        first = inner.rsplit(",", 1)[0].strip()
        return any(first.startswith(p) for p in ("std::byte", "unsigned", "char", "signed", "int", "long", "short", "bool", "float", "double", "std::uint", "std::int", "uint", "int8", "char8")) or first.endswith("*")
    return False


def leaves_unset(fn, e):
    """Initialiser expression that performs plain default-initialisation (implicit default construction)."""
    while e in fn.nodes and fn.nodes[e]["k"] in ("ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and fn.nodes[e].get("c"): e = fn.nodes[e]["c"][0]
    n = fn.nodes.get(e)
    return n is not None and n["k"] == "CXXConstructExpr" and not n.get("args") and not n.get("zero") and not n.get("list")


def check_P17(rep):
    rep.rule("Definite assignment over the flow graph of every constructor of every class of the library (delegated constructors and helpers spliced in): on every path to its end each scalar, enumeration, pointer and raw-array member has been initialised by its declaration, by the initialiser list or by an assignment, "
             "and none is read earlier. A class whose default constructor is implicit or defaulted must initialise each such member in its declaration. The same definite-assignment analysis over every function for local variables of such types that are declared without a value.")
    done = set(); localsdone = set()
    for P in (facts.core(), facts.full()):
        for rec in P.records:
            if not rec["qn"].startswith("dottorrent") or not rec["file"].startswith(REPO) or "(lambda" in rec["qn"]: continue
            key = (rec["qn"], rec["line"], tuple((f["n"], P.ts(f["t"])) for f in rec["fields"]))
            if key in done: continue
            done.add(key)
            rep.count("classes", 1, rec["qn"])
            klass(rep, P, rec)
        for f in P.funcs.values():
            if not f.blocks or not f.file.startswith(REPO): continue
            k = (f.sig(), f.file, f.line)
            if k in localsdone: continue
            localsdone.add(k)
            rep.count("functions", 1)
            locs(rep, P, f)
    rep.need("classes", 30); rep.need("constructors", 20); rep.need("members checked", 60); rep.need("functions", 200)
    rep.assume("members of class types of other libraries are initialised by their own constructors; a variable whose address or reference is passed on is filled in by the callee")


def klass(rep, P, rec):
    watch = [f for f in rec["fields"] if indeterminate(P, f["t"])]
    if not watch: return
    bare = {f["n"]: f for f in watch if not f.get("init")}
    ctors = [m for m in rec["methods"] if m["kind"] == "ctor"]
    short = rec["qn"]
    default = [m for m in ctors if not m.get("copy") and not m.get("move") and not m["pt"]]
    usual = [m for m in ctors if not m.get("copy") and not m.get("move") and not m.get("implicit")]
    if (not usual) or any(m.get("defaulted") for m in default):
        if not any(m.get("deleted") for m in default):
            rep.count("constructors", 1, short + " (implicit default constructor)")
            for f in watch:
                rep.count("members checked", 1, "%s::%s" % (short, f["n"]))
                if f["n"] in bare:
                    rep.violation("%s::%s:default" % (short, f["n"]), "%s:%d" % (rec["file"].replace(REPO + "/", ""), f["l"]),
                                  "a default-initialised %s leaves member '%s' (%s) with an indeterminate value: it has no initialiser" % (short, f["n"], P.ts(f["t"])))
    for fn in P.funcs.values():
        if fn.kind != "ctor" or fn.raw["clsid"] != rec["id"] or not fn.blocks or fn.raw.get("implicit") or (fn.raw.get("defaulted")): continue
        rep.count("constructors", 1, fn.sig())
        ctor(rep, P, rec, fn, {f["n"] for f in watch})


def ctor(rep, P, rec, fn, watch):
    g = Graph(P, fn, inline=lambda f: f.rec == rec["qn"] or f.is_lambda)
    T = ("this",)
    names = watch
    def field(t):
        return t[2] if t and t[0] == "f" and t[1] == T and t[2] in names else None
    def tr(ev, s, view):
        if ev.kind == "fieldinit":
            f = field(ev.lhs)
            if f and not leaves_unset(ev.ctx.fn, ev.raw["e"]): s = s | {f}
        elif ev.kind == "assign":
            f = field(ev.lhs)
            if f and ev.op == "=": s = s | {f}
        elif ev.kind == "touch":
            f = field(ev.term)
            if f and f not in s:
                use = reading(ev.ctx.fn, ev.n)
                if use == "read":
                    rep.violation("%s::%s:early" % (fn.qn, f), ev.loc(), "%s reads member '%s' before it has been given a value" % (fn.disp, f))
                elif use == "escape": s = s | {f}
        elif ev.kind in ("call", "ctor"):
            # whole-object fill: std::fill/copy into the member, or a member function writing it
            for a in (ev.args or []) + ([ev.obj] if ev.obj is not None else []):
                for x in subterms(a):
                    f = field(x)
                    if f and P.types[next(y["t"] for y in rec["fields"] if y["n"] == f)].get("rec") == "std::array": s = s | {f}
        return s
    ex = Explorer(g, frozenset(), tr, limit=200000).run()
    for f in sorted(names):
        rep.count("members checked", 1, "%s::%s" % (rec["qn"], f))
        for s in ex.at_exit:
            if f not in s:
                rep.violation("%s::%s:unset:%s" % (rec["qn"], f, ",".join(P.ts(fn.vars[p]["t"]) for p in fn.params)), fn.loc(),
                              "constructor %s can finish without having given member '%s' a value" % (fn.sig(), f))
                break


def reading(fn, i):
    """How the lvalue node i is used: 'read', 'write' (plain assignment target), 'part' or 'escape'."""
    par = fn.parents; cur = i
    while cur in par:
        p = par[cur]; n = fn.nodes[p]; k = n["k"]
        if k == "ImplicitCastExpr":
            if n["ck"] == "LValueToRValue": return "read"
            if n["ck"] == "ArrayToPointerDecay": return "escape"
            cur = p; continue
        if k in ("ParenExpr", "CXXStaticCastExpr", "CXXConstCastExpr"): cur = p; continue
        if k == "BinaryOperator" and n.get("asg") and n["c"][0] == cur: return "write" if n["op"] == "=" else "read"
        if k == "CompoundAssignOperator" and n["c"][0] == cur: return "read"
        if k == "UnaryOperator" and n["op"] in ("++", "--"): return "read"
        if k == "CXXOperatorCallExpr" and n.get("op") == "=" and n["args"][0] == cur: return "write"
        if k in ("ArraySubscriptExpr", "MemberExpr"): return "escape"
        if k == "UnaryExprOrTypeTraitExpr": return "none"
        return "escape"
    return "escape"


def locs(rep, P, fn):
    cand = {}
    for i, n in fn.nodes.items():
        if n["k"] != "DeclStmt": continue
        for d in n["vars"]:
            v = fn.vars.get(d)
            if v is None or v["k"] != "local" or v.get("n", "").startswith("__"): continue
            if v.get("init") is not None and v.get("init", -1) >= 0: continue
            y = P.types[v["t"]]
            if y.get("ref") or not ("bits" in y or y.get("ptr") or y.get("float") or "enum" in y): continue
            cand[d] = v
    if not cand: return
    rep.count("locals declared without a value", len(cand), "%s %s" % (fn.disp, ", ".join(v["n"] for v in cand.values())))
    g = Graph(P, fn, inline=lambda f: False, lambda_calls=False)
    def tr(ev, s, view):
        if ev.ctx.fn is not fn: return s
        if ev.kind == "decl":
            d = ev.lhs[2]
            if d in cand: return s | {d}
        elif ev.kind == "assign":
            c0 = (ev.raw.get("c") or [None])[0]; i = c0
            while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr", "ImplicitCastExpr"): i = fn.nodes[i]["c"][0]
            if i in fn.nodes and fn.nodes[i]["k"] == "DeclRefExpr": return s - {fn.nodes[i]["d"]}
        elif ev.kind == "vtouch":
            d = ev.raw["d"]
            if d in s:
                u = reading(fn, ev.n)
                if u == "read":
                    par = fn.parents.get(ev.n)
                    up = fn.nodes[fn.parents[par]] if par in fn.parents else {}
                    if up.get("k") in ("CStyleCastExpr",) and P.ts(up.get("t")) == "void": return s
                    rep.violation("%s:local:%s" % (fn.qn, cand[d]["n"]), ev.loc(), "%s reads local variable '%s' on a path where it has not been given a value" % (fn.disp, cand[d]["n"]))
                    return s - {d}
                if u == "escape": return s - {d}
        return s
    def lam(s): return s
    # capture by reference hands the variable to the lambda
    caps = set()
    for n in fn.nodes.values():
        if n["k"] == "LambdaExpr":
            for q in n.get("caps", []):
                if q.get("d") in cand: caps.add(q["d"])
    for d in caps: cand.pop(d)
    if cand: Explorer(g, frozenset(), tr, limit=200000).run()
