"""Progress of loops: no cycle of the flow graph repeats without changing anything its exit conditions read."""
from ir import is_write, PARTS, STRIP
from facts import REPO

CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")


def sccs(nodes, succ):
    idx = {}; low = {}; st = []; on = set(); out = []; n = [0]
    for r in nodes:
        if r in idx: continue
        work = [(r, iter(succ(r)))]; idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in nodes: continue
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w); work.append((w, iter(succ(w)))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1 or v in succ(v): out.append(set(c))
    return out


def subtree(fn, i):
    todo = [i]; seen = set()
    while todo:
        x = todo.pop()
        if x in seen or x not in fn.nodes: continue
        seen.add(x); n = fn.nodes[x]
        todo += [y for y in n.get("c", []) if isinstance(y, int)] + [y for y in n.get("args", []) if isinstance(y, int)]
        if isinstance(n.get("obj"), int): todo.append(n["obj"])
    return seen


def inside(fn, comp):
    return {d for b in comp for e in fn.blocks[b]["e"] if isinstance(e, int) and fn.nodes[e]["k"] == "DeclStmt" for d in fn.nodes[e]["vars"]}


WAITS = {"load", "wait", "test", "test_and_set", "stop_requested", "try_pop", "try_pop_bulk", "getline", "try_lock", "pop", "exchange", "compare_exchange_weak", "compare_exchange_strong"}


def watched(fn, conds, comp):
    """What the exit conditions read: (locals that live outside the loop, fields, opaque?)."""
    loc = set(); fld = set(); opq = False
    ins = inside(fn, comp); todo = list(conds); done = set(); seen = set()
    def var(d):
        nonlocal opq
        v = fn.vars.get(d)
        if v is None or v["k"] == "global": return
        y = fn.P.types[v["t"]]
        if "atomic" in y["s"]: opq = True
        if d in ins and not y.get("ref"):
            if d in seen: return
            seen.add(d)
            if v.get("init") is not None and v["init"] >= 0: todo.append(v["init"])
            # whatever is assigned to it in the loop
            for b in comp:
                for e in fn.blocks[b]["e"]:
                    if isinstance(e, int) and fn.nodes[e]["k"] != "DeclStmt":
                        for i in subtree(fn, e):
                            m = fn.nodes[i]
                            if m["k"] == "DeclRefExpr" and m.get("d") == d and is_write(fn, i): todo.append(e); break
        else:
            loc.add(d)
            if y.get("ref") and v.get("init") is not None and v["init"] >= 0 and d not in seen: seen.add(d); todo.append(v["init"])
    while todo:
        c = todo.pop()
        if c in done: continue
        done.add(c)
        for i in subtree(fn, c):
            n = fn.nodes[i]
            if n["k"] == "DeclRefExpr":
                if n["dk"] in ("Var", "ParmVar"): var(n["d"])
                elif n["dk"] == "Binding" and n.get("decomp") is not None: var(n["decomp"])
            if n["k"] == "MemberExpr" and n["dk"] == "Field":
                fld.add(n["m"])
                if n.get("t") is not None and "atomic" in fn.P.types[n["t"]]["s"]: opq = True
            if n["k"] in CALLS:
                cal = n.get("callee")
                if not cal: opq = True; continue
                own = fn.P.fn_of(cal)
                if own is not None and reads_shared(own): opq = True
                if own is not None and fn.rec and own.rec == fn.rec and on_this(fn, n): fld |= fields_read(own)
                if cal["n"] in WAITS: opq = True
            if n["k"] == "LambdaExpr": opq = True
    # names of parts of what is watched
    for _ in range(3):
        for d, v in fn.vars.items():
            if d in loc or v.get("init") is None or v["init"] < 0 or v["k"] == "global": continue
            y = fn.P.types[v["t"]]
            if (y.get("ref") or y.get("ptr")) and any(fn.nodes[i]["k"] == "DeclRefExpr" and fn.nodes[i].get("d") in loc for i in subtree(fn, v["init"])): loc.add(d)
    return loc, fld, opq


def reads_shared(f, depth=3):
    for n in f.nodes.values():
        if n["k"] == "MemberExpr" and n.get("dk") == "Field" and n.get("t") is not None and "atomic" in f.P.types[n["t"]]["s"]: return True
        if n.get("callee") and n["callee"]["n"] in WAITS: return True
        if depth and n.get("callee"):
            o = f.P.fn_of(n["callee"])
            if o is not None and o is not f and reads_shared(o, depth - 1): return True
    return False


def on_this(fn, n):
    o = n.get("obj")
    while isinstance(o, int) and o in fn.nodes and fn.nodes[o]["k"] in STRIP and fn.nodes[o].get("c"): o = fn.nodes[o]["c"][0]
    return isinstance(o, int) and o in fn.nodes and fn.nodes[o]["k"] == "CXXThisExpr"


def fields_read(f, depth=4):
    out = set()
    for n in f.nodes.values():
        if n["k"] == "MemberExpr" and n.get("dk") == "Field": out.add(n["m"])
        if depth and n.get("callee"):
            o = f.P.fn_of(n["callee"])
            if o is not None and o is not f: out |= fields_read(o, depth - 1)
    return out


def blocks_on(fn, i):
    """A wait on a condition variable: other threads change the members meanwhile."""
    cal = fn.nodes[i].get("callee")
    return bool(cal) and cal["n"] in ("wait", "wait_for", "wait_until") and "condition_variable" in str(cal.get("rec")) + str(cal.get("qn"))


_bind = {}


def bindings(fn):
    """Nodes that only give a name to a part of an object (initialisers of references, without any change in them)."""
    if fn.fid in _bind and _bind[fn.fid][0] is fn: return _bind[fn.fid][1]
    out = set()
    for v in fn.vars.values():
        if v.get("init") is None or v["init"] < 0 or not fn.P.types[v["t"]].get("ref"): continue
        st = subtree(fn, v["init"]); ok = True
        for i in st:
            n = fn.nodes[i]
            if n.get("asg") or n["k"] == "UnaryOperator" and n["op"] in ("++", "--") or n["k"] == "LambdaExpr": ok = False
            cal = n.get("callee")
            if n["k"] in CALLS and cal and not cal.get("const") and cal["n"] not in PARTS: ok = False
        if ok: out |= st
    _bind[fn.fid] = (fn, out)
    return out


def progress(fn, e, loc, fld):
    """Does evaluating element e (possibly) change something watched?"""
    if not isinstance(e, int): return False
    names = bindings(fn)
    for i in subtree(fn, e):
        m = fn.nodes[i]
        if i in names: continue
        if m["k"] == "DeclRefExpr" and m["dk"] in ("Var", "ParmVar") and m.get("d") in loc and is_write(fn, i): return True
        if m["k"] == "MemberExpr" and m["dk"] == "Field" and m["m"] in fld and is_write(fn, i): return True
        if m["k"] in CALLS or m["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            cal = m.get("callee")
            if not cal: return True
            own = fn.P.fn_of(cal)
            if fld and own is not None and not cal.get("const"): return True
        if m["k"] == "LambdaExpr": return True
    return False


def check(rep, P, fn, key="loop"):
    B = fn.blocks
    def succ(b): return [s for s in B[b]["s"] if s is not None and s in B]
    todo = [set(B)]
    for comp in sccs(set(B), succ): one(rep, P, fn, comp, succ, key)


def one(rep, P, fn, comp, succ, key):
    """comp: a strongly connected set of blocks."""
    conds = [B["tc"] for b in comp for B in (fn.blocks[b],) if B.get("tc") is not None and any(s is not None and s not in comp for s in B["s"])]
    first = min((fn.nodes[e]["l"] for b in comp for e in fn.blocks[b]["e"] if isinstance(e, int) and fn.nodes[e].get("l")), default=fn.line)
    where = "%s:%d" % (fn.file.replace(REPO + "/", ""), first)
    rep.count("loops", 1, "%s %s" % (fn.name, where))
    heads = [b for b in comp if any(s is not None and s not in comp for s in fn.blocks[b]["s"])]
    outer = {b for b in comp if any(b in succ(o) for o in fn.blocks if o not in comp) or b == fn.entry}
    loc, fld, opq = watched(fn, conds, comp)
    if not heads and not any(leaves(fn, fn.blocks[b]) for b in comp):
        rep.violation("%s:%s" % (key, fn.qn), where, "%s contains a loop without an exit" % fn.disp); return
    if not opq and fld and any(blocks_on(fn, i) for b in comp for e in fn.blocks[b]["e"] if isinstance(e, int) for i in subtree(fn, e)): opq = True
    if opq: rep.count("loops that wait for others", 1, where)
    elif conds:
        idle = {b for b in comp if not any(progress(fn, e, loc, fld) for e in fn.blocks[b]["e"])}
        for c in sccs(idle, lambda b: [s for s in succ(b) if s in idle]):
            if c & (set(heads) | outer):
                rep.violation("%s:%s" % (key, fn.qn), where, "%s contains a loop that can repeat without changing anything its end depends on" % fn.disp); return
    if not opq and conds and outer and standstill(fn, comp, succ, outer, loc, fld):
        rep.violation("%s:%s" % (key, fn.qn), where, "%s contains a loop that can undo its own steps and repeat without end" % fn.disp); return
    rest = comp - outer
    if outer:
        for c in sccs(rest, lambda b: [s for s in succ(b) if s in rest]): one(rep, P, fn, c, succ, key)


def effect(fn, i):
    """What the use i of a variable does to it: None (a read), ("step", k), ("const", c) or ("any",)."""
    if not is_write(fn, i): return None
    p = fn.parents.get(i); cur = i
    while p is not None and fn.nodes[p]["k"] in ("ParenExpr",): cur = p; p = fn.parents.get(p)
    if p is None: return ("any",)
    m = fn.nodes[p]
    def num(j):
        v = fn.nodes[j].get("v")
        try: return int(v)
        except (TypeError, ValueError): return None
    if m["k"] == "UnaryOperator" and m["op"] in ("++", "--"): return ("step", 1 if m["op"] == "++" else -1)
    if m["k"] == "CXXOperatorCallExpr" and m.get("op") in ("++", "--"): return ("step", 1 if m["op"] == "++" else -1)
    if m["k"] == "CompoundAssignOperator" and m["op"] in ("+=", "-=") and m["c"][0] == cur and num(m["c"][1]) is not None: return ("step", num(m["c"][1]) if m["op"] == "+=" else -num(m["c"][1]))
    if m["k"] == "BinaryOperator" and m.get("asg") and m["op"] == "=" and m["c"][0] == cur and num(m["c"][1]) is not None: return ("const", num(m["c"][1]))
    return ("any",)


def standstill(fn, comp, succ, outer, loc, fld):
    """A way round the loop after which every watched variable has the value it had before, although some were changed on the way."""
    cur = set()
    for d in loc:
        v = fn.vars.get(d)
        if v is None or v["k"] == "global": continue
        y = fn.P.types[v["t"]]
        if y.get("ref"): continue
        if y.get("bits") or y.get("ptr") or "iterator" in y["s"]: cur.add(d)
    eff = {}; moved = False
    for b in comp:
        es = []
        for e in fn.blocks[b]["e"]:
            if not isinstance(e, int): continue
            n = fn.nodes[e]
            if n["k"] == "DeclRefExpr" and n.get("d") in cur:
                x = effect(fn, e)
                if x is not None: es.append((n["d"], x)); moved |= x[0] == "step"
        # anything else that is watched and changes here ends the search
        eff[b] = None if any(x == ("any",) for _, x in es) or any(progress(fn, e, loc - cur, fld) for e in fn.blocks[b]["e"]) else es
    if not moved: return False
    start = tuple(sorted((d, "rel", 0) for d in cur))
    seen = {}; todo = [(b, start) for b in outer]; edges = {}
    while todo:
        st = todo.pop()
        if st in edges: continue
        if len(edges) > 4000: return False
        b, s = st
        edges[st] = []
        if eff[b] is None: continue
        m = {d: (k, v) for d, k, v in s}
        for d, x in eff[b]:
            if x[0] == "const": m[d] = ("const", x[1])
            else: m[d] = (m[d][0], m[d][1] + x[1])
        if any(abs(v) > 6 and k == "rel" or abs(v) > 300 for k, v in m.values()): continue
        s2 = tuple(sorted((d, k, v) for d, (k, v) in m.items()))
        nx = fn.blocks[b]["s"]
        known = decide(fn, fn.blocks[b].get("tc"), m)
        for j, t in enumerate(nx):
            if t is None or t not in comp: continue
            if known is not None and len(nx) == 2 and (j == 0) != known: continue
            edges[st].append((t, s2)); todo.append((t, s2))
    return any({b for b, _ in c} & outer for c in sccs(set(edges), lambda x: edges.get(x, [])))


def decide(fn, tc, m):
    """The outcome of a comparison between a variable of known value and a constant."""
    def strip(i):
        while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"): i = fn.nodes[i]["c"][0]
        return i
    if tc is None: return None
    n = fn.nodes.get(strip(tc))
    if n is None or n["k"] != "BinaryOperator" or n["op"] not in ("==", "!=", "<", "<=", ">", ">="): return None
    def val(i):
        try: return int(fn.nodes[i].get("v"))
        except (TypeError, ValueError): pass
        i = strip(i); x = fn.nodes[i]
        try: return int(x.get("v"))
        except (TypeError, ValueError): pass
        if x["k"] == "DeclRefExpr" and m.get(x.get("d"), ("",))[0] == "const": return m[x["d"]][1]
        return None
    a, b = val(n["c"][0]), val(n["c"][1])
    if a is None or b is None: return None
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[n["op"]]


def leaves(fn, blk):
    return any(isinstance(e, int) and (fn.nodes[e]["k"] in ("CXXThrowExpr", "ReturnStmt") or "callee" in fn.nodes[e]) for e in blk["e"])


def counters(rep, P, fn, key="counter"):
    """A loop counter can reach its bound: its type is not narrower than the bound's, it is not an unsigned value compared with
    zero from above, and it does not move away from the bound."""
    B = fn.blocks
    def succ(b): return [s for s in B[b]["s"] if s is not None and s in B]
    def strip(i):
        while i in fn.nodes and fn.nodes[i]["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"): i = fn.nodes[i]["c"][0]
        return i
    for comp in sccs(set(B), succ):
        for b in comp:
            tc = B[b].get("tc")
            if tc is None or not any(s is not None and s not in comp for s in B[b]["s"]): continue
            c = strip(tc)
            n = fn.nodes.get(c)
            if n is None or n["k"] != "BinaryOperator" or n["op"] not in ("<", "<=", ">", ">=", "!="): continue
            stay = B[b]["s"][0] in comp
            if not stay: continue
            for x, y, op in ((n["c"][0], n["c"][1], n["op"]), (n["c"][1], n["c"][0], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n["op"], n["op"]))):
                x, y = strip(x), strip(y); nx, ny = fn.nodes[x], fn.nodes[y]
                if nx["k"] != "DeclRefExpr" or nx["dk"] not in ("Var", "ParmVar"): continue
                v = fn.vars.get(nx["d"]); 
                if v is None or v["k"] == "global": continue
                tx = P.types[v["t"]]
                if tx.get("ref"): tx = P.types[tx["pointee"]] if "pointee" in tx else tx
                if not tx.get("bits") or tx.get("bool"): continue
                ty = P.types[ny["t"]] if ny.get("t") is not None else {}
                where = fn.loc(c)
                steps = steps_of(fn, comp, nx["d"])
                if steps is None: continue
                rep.count("loop counters", 1, "%s %s" % (fn.name, where))
                if op in (">=",) and tx.get("sign") is False and ny.get("v") in (0, "0"):
                    rep.violation("%s:%s" % (key, fn.qn), where, "%s counts the unsigned %s down and ends only when it is below zero" % (fn.disp, v["n"]))
                if op in ("<", "<=", "!=") and steps == {1}:
                    if ny.get("v") is not None:
                        top = 1 << (tx["bits"] - (1 if tx.get("sign") else 0))
                        try: lim = int(ny["v"])
                        except ValueError: continue
                        if lim > top - 1 or op == "<=" and lim >= top - 1: rep.violation("%s:%s" % (key, fn.qn), where, "%s: the counter %s never reaches the bound %s" % (fn.disp, v["n"], lim))
                    elif ty.get("bits") and ty["bits"] > tx["bits"] and tx["bits"] < 32:
                        rep.violation("%s:%s" % (key, fn.qn), where, "%s: the counter %s has %d bits and its bound %d, so the loop does not end for large bounds" % (fn.disp, v["n"], tx["bits"], ty["bits"]))
                if op in ("<", "<=") and steps == {-1}: rep.violation("%s:%s" % (key, fn.qn), where, "%s moves the counter %s away from its bound" % (fn.disp, v["n"]))
                if op in (">", ">=") and steps == {1}: rep.violation("%s:%s" % (key, fn.qn), where, "%s moves the counter %s away from its bound" % (fn.disp, v["n"]))


def steps_of(fn, comp, d):
    """Directions in which d moves inside the loop; None when it is changed in any other way."""
    out = set()
    for b in comp:
        for e in fn.blocks[b]["e"]:
            if not isinstance(e, int): continue
            n = fn.nodes[e]
            if n["k"] == "DeclStmt" and d in n["vars"]: return None
            if n["k"] == "DeclRefExpr" and n.get("d") == d and is_write(fn, e):
                p = fn.parents.get(e); m = fn.nodes[p] if p is not None else None
                while m is not None and m["k"] == "ParenExpr": p = fn.parents.get(p); m = fn.nodes[p] if p is not None else None
                if m is None: return None
                if m["k"] == "UnaryOperator" and m["op"] in ("++", "--"): out.add(1 if m["op"] == "++" else -1)
                elif m["k"] == "CompoundAssignOperator" and m["op"] in ("+=", "-=") and unsigned_or_pos(fn, m["c"][1]): out.add(1 if m["op"] == "+=" else -1)
                else: return None
    return out or None


def unsigned_or_pos(fn, i):
    n = fn.nodes[i]
    if n.get("v") is not None:
        try: return int(n["v"]) > 0
        except ValueError: return False
    y = fn.P.types[n["t"]]
    return bool(y.get("bits")) and y.get("sign") is False
