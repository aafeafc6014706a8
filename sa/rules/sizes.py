"""P18: recorded sizes of a file list always match its files."""
import facts
from facts import Broken
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms

REC = "dottorrent::file_storage"
ELEM = "dottorrent::file_entry"
T = ("this",)
READ = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "size", "empty", "data", "front", "back", "at", "operator[]", "capacity", "reserve", "shrink_to_fit", "max_size"}


def check_P18(rep):
    rep.rule("Balance analysis over the inlined flow graph of every public member function of the file list: each insertion or removal of an element of the file container must be matched, on the same path and for the same element, by adding or subtracting that element's size to the recorded total and, exactly when the element is not a padding file, to the recorded regular total; "
             "emptying the container must be matched by resetting both; a recorded total never changes otherwise; after every structural change the cached index is marked invalid. The accessors return the recorded values or recompute them from the container.")
    P = facts.full()
    recs = P.record(REC)
    if not recs: raise Broken("class %s not found" % REC)
    rec = recs[0]
    cont = [f["n"] for f in rec["fields"] if P.types[f["t"]].get("rec") in ("std::vector", "std::deque", "std::list") and "file_entry" in P.ts(f["t"])]
    if len(cont) != 1: raise Broken("the container of files of %s was not found" % REC)
    files = cont[0]
    ints = {f["n"] for f in rec["fields"] if P.types[f["t"]].get("bits") and not P.types[f["t"]].get("bool") and "enum" not in P.types[f["t"]]}
    total = accessor(rep, P, "total_file_size", ints, files, False)
    regular = accessor(rep, P, "total_regular_file_size", ints, files, True)
    if regular is None:
        c = [f for f in ints if "regular" in f]
        regular = c[0] if c else None
    flags = [f["n"] for f in rec["fields"] if P.types[f["t"]].get("bool") and f.get("mutable")]
    for fn in P.methods(REC):
        if fn.raw.get("const") or fn.raw.get("static") or not fn.blocks or fn.raw.get("defaulted"): continue
        if fn.access != "public": continue
        if fn.kind == "ctor" or fn.name == "operator=": special(rep, P, rec, fn, files, total, regular, flags); continue
        operation(rep, P, rec, fn, files, total, regular, flags)
    rep.need("operations", 10); rep.need("structural changes", 4)
    rep.assume("elements replaced through the references and iterators the list hands out are the caller's responsibility; make_file_entry reports the size of the file it describes")


def accessor(rep, P, name, ints, files, padding):
    fs = [f for f in P.find(REC + "::" + name) if f.blocks]
    if not fs: raise Broken("%s::%s not found" % (REC, name))
    fn = fs[0]
    g = Graph(P, fn, inline=lambda f: f.rec == REC or f.is_lambda, lambda_calls=False)
    got = []
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None: got.append((ev.term, ev))
        return s
    Explorer(g, 0, tr).run()
    rep.count("accessors", 1, fn.sig())
    fld = None
    for t, ev in got:
        if t is None: continue
        if t[0] == "f" and t[1] == T and t[2] in ints: fld = t[2]; continue
        lams = [x for x in subterms(t) if x[0] == "lam"]
        if t[0] == "call" and lams and contains(t, ("f", T, files)):
            for l in lams:
                for fid in ([l[2]] if l[2] in P.funcs else [x for x in l[3] if x in P.funcs]): summand(rep, P, P.funcs[fid], fn, padding)
    return fld


def size_of(t):
    """x when t is x.file_size()."""
    if t and t[0] == "call" and t[1] == ELEM + "::file_size": return t[2]
    if t and t[0] == "f" and t[2] == "file_size_": return t[1]
    return None


def pad_of(t):
    if t and t[0] == "call" and t[1] == ELEM + "::is_padding_file": return t[2]
    return None


def summand(rep, P, lam, fn, padding):
    """The projection used to recompute a total: the size of the file, or 0 for a padding file."""
    if len(lam.params) != 1: return
    g = Graph(P, lam, inline=lambda f: f.is_lambda)
    x = ("p", 0)
    def br(c, pol, s, view):
        for t, p in conjuncts(c, pol):
            if pad_of(t) == x: s = "pad" if p else "reg"
        return s
    def val(t, s, ev):
        if t[0] == "ite":
            if pad_of(t[1]) == x: val(t[2], "pad", ev); val(t[3], "reg", ev); return
            if t[1][0] == "un" and pad_of(t[1][2]) == x: val(t[2], "reg", ev); val(t[3], "pad", ev); return
        rep.count("recomputed sizes", 1, fn.disp)
        if t == ("c", 0) and s == "pad" and padding: return
        if size_of(t) == x and (s == "reg" or not padding): return
        if t == ("c", 0) or size_of(t) == x:
            rep.violation("%s:recompute" % fn.qn, ev.loc(), "%s counts %s for a file that is %s" % (fn.disp, "nothing" if t == ("c", 0) else "the size", {"pad": "padding", "reg": "not padding"}.get(s, "possibly either")))
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None: val(ev.term, s, ev)
        return s
    Explorer(g, "any", tr, br).run()


def special(rep, P, rec, fn, files, total, regular, flags):
    """Copies replace the files: the cached index must not survive (the totals are members judged by the completeness of copies)."""
    if not fn.params or fn.kind == "ctor": return
    g = Graph(P, fn, inline=lambda f: f.rec == REC and f.kind != "ctor" or f.is_lambda)
    rep.count("operations", 1, fn.sig())
    def tr(ev, s, view):
        ch, inv = s
        if ev.kind == "assign" and ev.lhs == ("f", T, files): ch = True; rep.count("structural changes", 1, "%s %s" % (fn.name, ev.loc()))
        if ev.kind == "call" and ev.obj == ("f", T, files) and not ev.raw["callee"].get("const") and ev.m not in READ: ch = True
        if ev.kind == "call" and ev.qn == "std::swap" and any(a == ("f", T, files) for a in ev.args): ch = True
        for f in flags:
            if ev.kind == "assign" and ev.lhs == ("f", T, f): inv = True
            if ev.kind == "call" and ev.qn in ("std::swap", "std::exchange") and any(a == ("f", T, f) for a in ev.args): inv = True
        return ch, inv
    ex = Explorer(g, (False, not flags), tr).run()
    for ch, inv in ex.at_exit:
        if ch and not inv:
            rep.violation("%s:index" % fn.qn, fn.loc(), "%s replaces the files but leaves the cached index marked as valid" % fn.sig()); break


def operation(rep, P, rec, fn, files, total, regular, flags):
    g = Graph(P, fn, inline=lambda f: f.rec == REC or f.is_lambda or (f.rec is None and f.file == fn.file and f.name not in ("make_file_entry", "make_padding_file_entry")))
    rep.count("operations", 1, fn.sig())
    FI = ("f", T, files)
    TO = ("f", T, total) if total else None
    RE = ("f", T, regular) if regular else None
    # state: (open obligations/credits for total, the same for regular, known padding facts, index valid?, emptied, last element, dead iterators)
    def canon(x, last):
        if x is None: return None
        if x[0] == "call" and x[1].split("::")[-1] == "back" and x[2] == FI: return last
        if x[0] == "call" and x[1].split("::")[-1] == "emplace_back" and x[2] == FI: return x[3][0] if len(x[3]) == 1 else last
        return x
    def bal(bag, sign, x, who):
        """who: 'file' (container changed) or 'sum' (recorded value changed)."""
        o = (sign, x, "sum" if who == "file" else "file")
        if o in bag: return bag - {o}
        n = (sign, x, who)
        if n in bag: return bag | {(sign, x, who, "twice")}
        return bag | {n}
    def settle(reg, pads, which):
        """Every element counted as regular was found not to be padding."""
        pd = dict(pads)
        for o in reg:
            if o[0] == "cr" and which(o[1]) and pd.get(o[1]) is not False:
                rep.violation("%s:padding" % fn.qn, o[2], "%s counts a file in the regular size without having found that it is not a padding file" % fn.disp)
        return frozenset(o for o in reg if not (o[0] == "cr" and which(o[1])) and not (o[0] in "+-" and o[2] == "file" and o[1] is not None and which(o[1]) and pd.get(o[1]) is True)), frozenset(q for q in pads if not which(q[0]))
    def tr(ev, s, view):
        tot, reg, pads, idx, last, dead = s
        gone = None
        if ev.kind == "lambegin": gone = lambda x: any(y[0] == "lamarg" and y[2] == ev.n for y in subterms(x))
        if ev.kind == "assign" and ev.op in ("++", "--") and ev.lhs and ev.lhs[0] == "v": gone = lambda x: contains(x, ev.lhs)
        if ev.kind == "decl": gone = lambda x: contains(x, ev.lhs)
        if gone:
            reg, pads = settle(reg, pads, gone)
            return tot, reg, pads, idx, last, frozenset(d for d in dead if not gone(d))
        if ev.kind == "call" and ev.obj == FI:
            m = ev.m
            if m in READ or ev.raw["callee"].get("const"): return s
            rep.count("structural changes", 1, "%s %s" % (fn.name, ev.loc()))
            idx = idx if idx == "inv" else "open"
            if m in ("push_back", "emplace_back", "push_front"):
                x = ev.args[0] if len(ev.args) == 1 else ("elem", ev.ctx.id, ev.n)
                if x[0] == "deref": x = x
                tot = bal(tot, "+", x, "file"); reg = bal(reg, "+", x, "file"); last = x
            elif m == "erase" and len(ev.args) == 1:
                it = ev.args[0]
                while it[0] == "ctor" and len(it[2]) == 1: it = it[2][0]
                x = view.g.deref(it); tot = bal(tot, "-", x, "file"); reg = bal(reg, "-", x, "file"); dead = dead | {x}
            elif m == "pop_back":
                x = ("call", "back", FI, ()); tot = bal(tot, "-", x, "file"); reg = bal(reg, "-", x, "file")
            elif m == "clear":
                tot = bal(frozenset(o for o in tot if o[2] == "sum" and o[0] == "0"), "0", None, "file"); reg = bal(frozenset(o for o in reg if o[2] == "sum" and o[0] == "0"), "0", None, "file")
            else:
                tot = bal(tot, "?", None, "file"); reg = bal(reg, "?", None, "file")
            return tot, reg, pads, idx, last, dead
        if ev.kind == "assign" and ev.lhs == FI:
            rep.count("structural changes", 1, "%s %s" % (fn.name, ev.loc()))
            e = ev.rhs is not None and ev.rhs[0] in ("ctor", "init") and not ev.rhs[-1]
            k = "0" if e else "?"
            return bal(frozenset(o for o in tot if o[2] == "sum"), k, None, "file"), bal(frozenset(o for o in reg if o[2] == "sum"), k, None, "file"), pads, "open" if idx != "inv" else idx, last, dead
        if ev.kind == "call" and ev.obj is not None and ev.obj in dead:
            rep.violation("%s:dead" % fn.qn, ev.loc(), "%s uses the element after having removed it" % fn.disp)
        if ev.kind == "assign" and ev.lhs in (TO, RE) and ev.lhs is not None:
            isreg = ev.lhs == RE
            bag = reg if isreg else tot
            r = ev.rhs; sign = {"+=": "+", "-=": "-"}.get(ev.op)
            if ev.op == "=":
                if r == ("c", 0): bag = bal(bag, "0", None, "sum")
                elif r is not None and r[0] == "op" and r[1] in "+-" and r[2] == ev.lhs: sign = r[1]; r = r[3]
                elif r is not None and r[0] == "op" and r[1] == "+" and r[3] == ev.lhs: sign = "+"; r = r[2]
                else: bag = frozenset(o for o in bag if o[2] != "file")      # recomputed
            if sign:
                w = r
                if w[0] == "ite":
                    c, a, b = w[1], w[2], w[3]
                    neg = c[0] == "un" and c[1] == "!"
                    if neg: c = c[2]; a, b = b, a
                    if a == ("c", 0) and isreg and pad_of(c) is not None and size_of(b) == pad_of(c):
                        x = canon(size_of(b), last)
                        reg = bal(reg, sign, x, "sum")
                        # whichever way the element goes, the balance is right
                        return tot, reg, pads, idx, last, dead
                    if not isreg and size_of(a) is not None and size_of(a) == size_of(b): w = a
                x = canon(size_of(w), last)
                if x is None:
                    rep.violation("%s:amount:%s" % (fn.qn, "regular" if isreg else "total"), ev.loc(), "%s changes the recorded size '%s' by something that is not the size of a file (%s)" % (fn.disp, ev.lhs[2], show(r)))
                else:
                    bag = bal(bag, sign, x, "sum")
                    if isreg: bag = bag | {("cr", x, ev.loc())}
            if isreg: reg = bag
            else: tot = bag
            return tot, reg, pads, idx, last, dead
        for f in flags:
            if ev.kind == "assign" and ev.lhs == ("f", T, f):
                idx = "inv" if ev.rhs == ("c", 0) else "valid"
        return tot, reg, pads, idx, last, dead
    def br(c, pol, s, view):
        if c == ("range",) or isinstance(pol, tuple): return s
        for t, p in conjuncts(c, pol):
            x = pad_of(t)
            if x is not None:
                x = canon(x, s[4])
                if (x, not p) in s[2]: return None
                s = s[:2] + (s[2] | {(x, p)},) + s[3:]
        return s
    ex = Explorer(g, (frozenset(), frozenset(), frozenset(), "?", None, frozenset()), tr, br, limit=300000).run()
    for s in ex.at_exit:
        tot, reg, pads, idx, last, dead = s
        pd = dict(pads)
        if idx == "open" and flags:
            rep.violation("%s:index" % fn.qn, fn.loc(), "%s changes the files without marking the cached index as stale" % fn.sig())
        for bag, what in ((tot, "total"), (reg, "regular")):
            if what == "total" and TO is None or what == "regular" and RE is None: continue
            for o in bag:
                if o[0] == "cr": continue
                if what == "regular" and o[2] == "file" and o[0] in "+-" and pd.get(o[1]) is True: continue      # padding: nothing to record
                verb = {"+": "adds", "-": "removes", "0": "removes all", "?": "replaces"}[o[0]]
                if o[2] == "file": msg = "%s %s files on a path that does not update the recorded %s size" % (fn.sig(), verb, what)
                else: msg = "%s changes the recorded %s size (%s %s) on a path that does not change the files accordingly" % (fn.sig(), what, o[0], show(o[1]) if o[1] else "0")
                rep.violation("%s:%s:%s" % (fn.qn, what, o[2]), fn.loc(), msg)
        if RE is not None: settle(reg, pads, lambda x: True)
