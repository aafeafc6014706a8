"""P35: lookups in a file list are exact and made in current data."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, assigned_var

FS = "dottorrent::file_storage"
FE = "dottorrent::file_entry"
T = ("this",)
PATH = "std::filesystem"
TEXT = {"string", "generic_string", "native", "c_str", "u8string", "generic_u8string", "wstring"}
SUMS = {"transform_reduce", "accumulate", "reduce", "exclusive_scan", "inclusive_scan", "transform_exclusive_scan", "fold_left"}
EMPTY = {"clear", "resize", "assign", "swap", "erase", "operator="}


def roles(P):
    rs = P.record(FS)
    if not rs: raise Broken("class %s not found" % FS)
    r = {}
    for f in rs[0]["fields"]:
        y = P.types[f["t"]]; s = y["s"]
        if y.get("rec") == "std::vector":
            if "file_entry" in s: r["files"] = f["n"]
            elif "sha1_hash" in s or "basic_hash<20" in s: r["pieces"] = f["n"]
            elif "unsigned long" in s or "size_t" in s: r["index"] = f["n"]
        elif y.get("bits") and "piece" in f["n"]: r["psize"] = f["n"]
        elif f.get("mutable") and y.get("bool") or y["s"] == "bool": r["valid"] = f["n"]
    if "files" not in r or "pieces" not in r or "psize" not in r: raise Broken("the members of %s were not recognised" % FS)
    es = P.record(FE)
    if not es: raise Broken("class %s not found" % FE)
    lay = [f["n"] for f in es[0]["fields"] if P.types[f["t"]].get("rec") == "std::vector" and ("sha256_hash" in P.types[f["t"]]["s"] or "basic_hash<32" in P.types[f["t"]]["s"])]
    r["layer"] = lay[0] if lay else None
    return r


def check_P35(rep):
    rep.rule("Dataflow over the inlined flow graphs of the file list and the functions that query it: whether a path lies in a directory is never decided by a prefix of its text unless the prefix ends in a separator; the path of a directory that is counted or looked up contains the components before it; "
             "the path index is read only on paths where it was found valid or has been rebuilt, and it is marked valid only after it was filled for all files and sorted by path; a change of the piece size drops the hashes made with the old one; a stored piece hash is read only below the number of stored hashes; "
             "the end of a file's piece range is rounded up from the end of the file, not from its length.")
    P = facts.full(); R = roles(P)
    for fn in P.funcs.values():
        if not fn.blocks or not fn.file.startswith(REPO): continue
        if not fn.is_lambda: prefix(rep, P, fn); components(rep, P, fn)
    for fn in P.methods(FS):
        if not fn.blocks or fn.raw.get("defaulted"): continue
        rep.count("functions of the file list", 1)
        if "index" in R and "valid" in R and fn.kind not in ("ctor", "dtor"): index(rep, P, fn, R)
        if fn.kind == "method" and not special(P, fn): layout(rep, P, fn, R); stored(rep, P, fn, R)
        ranges(rep, P, fn, R)
    rep.need("functions of the file list", 40); rep.need("changes of the piece size", 1); rep.need("reads of stored hashes", 1)
    rep.assume("callers do not change the path of a file through the references they are handed")


def special(P, fn): return fn.name == "operator=" or fn.kind in ("ctor", "dtor")


def pathtext(g, t, depth=4):
    """The term is the text of a path."""
    while t[0] in ("ctor", "conv") and (t[0] == "conv" or len(t[2]) == 1): t = t[1] if t[0] == "conv" else t[2][0]
    if t[0] == "call" and texts.fname(t[1]) in TEXT and PATH in t[1]: return True
    if t[0] == "v" and depth:
        z = texts.init_of(g, t)
        return z is not None and pathtext(g, z, depth - 1)
    return False


def closed(g, t, depth=4):
    """A text that ends in a separator (or whose end is not known)."""
    while t[0] in ("ctor", "conv") and (t[0] == "conv" or t[2]): t = t[1] if t[0] == "conv" else t[2][0]
    if t[0] == "str": return str(t[1]).endswith("/")
    if t[0] == "c": return t[1] in (47, 92)
    if pathtext(g, t, 1) and t[0] == "call": return False
    if t[0] == "v" and depth:
        if g._mutated(g.ctxs[t[1]].fn, t[2]): return True
        z = texts.init_of(g, t)
        return closed(g, z, depth - 1) if z is not None else True
    return True


def prefix(rep, P, fn):
    if not any(n.get("callee", {}).get("n") in ("starts_with", "rfind", "compare") or n["k"] == "LambdaExpr" for n in fn.nodes.values()): return
    g = Graph(P, fn, inline=lambda x: x.is_lambda)
    def tr(ev, s, view):
        if ev.kind == "call" and ev.obj is not None and ev.m in ("starts_with", "rfind", "compare") and ev.args:
            if not pathtext(g, ev.obj): return s
            a = ev.args[0] if ev.m != "compare" else ev.args[-1]
            if ev.m == "rfind" and (len(ev.args) < 2 or ev.args[1] != ("c", 0)): return s
            if ev.m == "compare" and len(ev.args) < 3: return s
            rep.count("comparisons of path texts", 1, "%s %s" % (fn.name, ev.loc()))
            if not closed(g, a): rep.violation("%s:prefix" % fn.qn, ev.loc(), "%s takes a path to lie in a directory because its text starts with the same characters, as it does for a sibling whose name begins alike" % fn.disp)
        return s
    Explorer(g, 0, tr, track="bool").run()


def components(rep, P, fn):
    """Directories recorded while walking through the components of a path."""
    if not any(n.get("callee", {}).get("qn", "").startswith(PATH) and n["callee"]["n"] in ("begin", "end") for n in fn.nodes.values()): return
    g = Graph(P, fn, inline=lambda x: x.is_lambda)
    def walker(t):
        """dereference of an iterator over path components"""
        if t[0] == "deref" and t[1][0] == "v": t = t[1]
        elif t[0] == "call" and t[1].endswith("operator*") and t[2] is not None and t[2][0] == "v": t = t[2]
        elif t[0] == "v": 
            y = P.types[g.ctxs[t[1]].fn.vars[t[2]]["t"]]
            return "__begin" in str(t) and False
        else: return False
        v = g.ctxs[t[1]].fn.vars[t[2]]
        return "path" in P.types[v["t"]]["s"] and "iterator" in P.types[v["t"]]["s"] or "path::iterator" in P.types[v["t"]]["s"]
    def full(t, depth=4):
        todo = [t]; out = []
        while todo:
            x = todo.pop()
            for y in subterms(x):
                out.append(y)
                if y[0] == "v" and depth and not walker(("deref", y)):
                    z = texts.init_of(g, y)
                    if z is not None and not g._mutated(g.ctxs[y[1]].fn, y[2]): todo.append(z); depth -= 1
        return out
    def tr(ev, s, view):
        if ev.kind == "call" and ev.m in ("emplace", "insert", "push_back", "emplace_back") and ev.rec in ("std::set", "std::unordered_set", "std::vector") and ev.args:
            ts = full(ev.args[0])
            w = [x for x in ts if walker(x)]
            if not w: return s
            rep.count("directories recorded", 1, "%s %s" % (fn.name, ev.loc()))
            joins = [x for x in ts if x[0] == "call" and x[1].split("::")[-1] == "operator/" and len(x[3]) == 2 and x[3][0][0] == "v"] + [x for x in ts if x[0] == "op" and x[1] == "/" and x[2][0] == "v"]
            grow = [x for x in ts if x[0] == "v" and g._mutated(g.ctxs[x[1]].fn, x[2]) and not walker(("deref", x))]
            if joins and not grow: rep.violation("%s:prefix-path" % fn.qn, ev.loc(), "%s records a component of a path as if it lay directly in one directory, so directories of the same name are taken for one" % fn.disp)
        return s
    Explorer(g, 0, tr, track="bool").run()


def index(rep, P, fn, R):
    I, V, F = ("f", T, R["index"]), ("f", T, R["valid"]), ("f", T, R["files"])
    if not any(n["k"] == "MemberExpr" and n.get("m") in (R["index"], R["valid"]) for n in fn.nodes.values()): return
    if not any(n["k"] == "MemberExpr" and n.get("m") == R["index"] for n in fn.nodes.values()) and fn.access != "public": return
    g = Graph(P, fn, inline=lambda x: x.is_lambda or x.rec == FS and x.kind == "method" and x.name not in ("operator[]", "at", "size", "file_count"))
    reads = any(n["k"] == "MemberExpr" and n.get("m") == R["index"] for c in g.ctxs for n in c.fn.nodes.values())
    if not reads: return
    rep.count("functions with the index", 1, fn.sig())
    # state: (valid, where it was read meanwhile, sized, filled, sorted)
    def tr(ev, s, view):
        ok, pend, sized, filled, srt = s
        if ev.kind == "touch" and ev.term == I and not ok: return (ok, pend or ev.loc(), sized, filled, srt)
        if ev.kind == "assign" and ev.lhs == V:
            if ev.rhs == ("c", 0): return (False, None if pend is None else pend, False, False, False)
            if ev.rhs is not None and ev.rhs[0] == "c":
                rep.count("times the index is marked valid", 1, "%s %s" % (fn.name, ev.loc()))
                if srt == "early": rep.violation("%s:index-order" % fn.qn, ev.loc(), "%s fills the path index after sorting it" % fn.disp)
                elif not srt: rep.violation("%s:index-sort" % fn.qn, ev.loc(), "%s marks the path index as valid without having sorted it" % fn.disp)
                elif srt == "bad": rep.violation("%s:index-cmp" % fn.qn, ev.loc(), "%s sorts the path index in an order other than that of the paths" % fn.disp)
                if sized == "bad": rep.violation("%s:index-size" % fn.qn, ev.loc(), "%s gives the path index a size other than the number of files" % fn.disp)
                elif not sized: rep.violation("%s:index-size" % fn.qn, ev.loc(), "%s marks the path index as valid without having filled it for all files" % fn.disp)
                return (True, None, sized, filled, srt)
            return (True, None, sized, filled, srt)
        if ev.kind == "assign" and ev.lhs == I:
            return (ok, pend, True, True, "early" if srt is True else srt)
        if ev.kind in ("call", "icall"):
            nm = texts.fname(ev.qn) if ev.qn else ev.m
            if ev.obj == I:
                if ev.m in ("resize", "assign", "reserve"):
                    if ev.m == "reserve": return s
                    a = ev.args[0] if ev.args else None
                    good = a is not None and (texts.is_size(a, F) if hasattr(texts, "is_size") else count_of(g, a, F))
                    return (ok, pend, True if good else "bad" if a is not None and definite(g, a) else True, filled, srt)
                if ev.m in ("push_back", "emplace_back", "insert"): return (ok, pend, True, True, "early" if srt is True else srt)
                return s
            if any(x == I for a in (ev.args or []) for x in subterms(a)):
                if "iota" in ev.qn or "generate" in ev.qn or ev.m == "copy": return (ok, pend, sized or ("inserter" in str(ev.args)), True, "early" if srt is True else srt)
                if "sort" in ev.qn and "is_sorted" not in ev.qn:
                    lam = next((a for a in ev.args if a[0] == "lam"), None)
                    return (ok, pend, sized, filled, "bad" if lam is not None and reverse(P, lam, R) else True)
        return s
    def br(t, pol, s, view):
        if isinstance(pol, tuple) or t == ("range",): return s
        for a, p in conjuncts(t, pol):
            r = relation(a, p)
            if r and r[0] in ("==", "!=") and "c" in (r[1][0], r[2][0]):
                x, y = (r[1], r[2]) if r[2][0] == "c" else (r[2], r[1])
                a, p = x, (r[0] == "==") == bool(y[1])
            while a[0] == "conv": a = a[1]
            if a == V or a[0] == "call" and texts.fname(a[1]) == "index_valid": s = (p,) + s[1:]
        return s
    for s in Explorer(g, (False, None, False, False, False), tr, br, track="bool").run().at_exit:
        if s[1] and not s[0]: rep.violation("%s:index-stale" % fn.qn, s[1], "%s can use the path index of an earlier state of the file list" % fn.disp); break


def count_of(g, a, F):
    if a[0] == "v":
        z = texts.init_of(g, a)
        return z is not None and count_of(g, z, F)
    return a[0] == "call" and texts.fname(a[1]) in ("size", "file_count", "ssize") and (a[2] in (F, T) or F in a[3] or a[2] is None)


def definite(g, a): return a[0] in ("c", "op") or a[0] == "call" and texts.fname(a[1]) in ("piece_count", "regular_file_count")


def reverse(P, lam, R):
    """The comparison orders by something other than ascending paths."""
    fid = lam[2] if lam[2] in P.funcs else next((x for x in lam[3] if x in P.funcs), None) if len(lam) > 3 else None
    if fid is None: return False
    f = P.funcs[fid]; res = []
    g = Graph(P, f, inline=lambda x: x.is_lambda)
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None: res.append(ev.term)
        return s
    Explorer(g, 0, tr).run()
    if len(res) != 1 or res[0] is None: return False
    r = relation(res[0], True)
    if not r: return False
    a, b = r[1], r[2]
    def which(t): return {x[1] for x in subterms(t) if x[0] == "p"}
    if which(a) == {0} and which(b) == {1}: up = r[0] == "<"
    elif which(a) == {1} and which(b) == {0}: up = r[0] == ">"
    else: return True
    pathy = any(x[0] == "call" and texts.fname(x[1]) == "path" or x[0] == "f" and "path" in x[2] for x in subterms(a))
    other = any(x[0] == "call" and texts.fname(x[1]) in ("file_size", "filename", "extension", "parent_path") for x in subterms(a))
    return not up or (other and True) or (not pathy and a == ("p", 0))


def layout(rep, P, fn, R):
    """A change of the piece size drops what was computed with the old one."""
    S, H = ("f", T, R["psize"]), ("f", T, R["pieces"])
    if not any(n["k"] == "MemberExpr" and n.get("m") == R["psize"] for n in fn.nodes.values()): return
    g = Graph(P, fn, inline=lambda x: x.is_lambda or x.rec in (FS, FE) and x.kind == "method" and x.name not in ("operator[]", "at"))
    wrote = [False]; layers = [False]
    def tr(ev, s, view):
        w, c = s
        if ev.kind == "assign" and ev.lhs == S: wrote[0] = True; return (ev.loc(), c)
        if ev.kind == "assign" and ev.lhs == H or ev.kind in ("call", "icall") and ev.obj == H and ev.m in EMPTY: c = True
        if R["layer"]:
            if ev.kind in ("assign", "call", "icall"):
                o = ev.lhs if ev.kind == "assign" else ev.obj
                if o is not None and o[0] == "f" and o[2] == R["layer"] and (ev.kind == "assign" or ev.m in EMPTY): layers[0] = True
        if ev.kind in ("call", "icall") and ("piece_layer" in ev.m and ev.m != "piece_layer" or ev.m in ("swap",) and any(x[0] == "f" and x[2] in (R["layer"], R["pieces"]) for a in ev.args for x in subterms(a))): layers[0] = True; c = c or any(H in list(subterms(a)) for a in ev.args)
        return (w, c)
    def br(t, pol, s, view):
        if isinstance(pol, tuple) or t == ("range",): return s
        for a, p in conjuncts(t, pol):
            if a[0] == "call" and texts.fname(a[1]) == "empty" and (a[2] == H or H in a[3]) and p: s = (s[0], True)
            r = relation(a, p)
            if r and r[0] == "==" and ("c", 0) in r[1:] and any(x[0] == "call" and texts.fname(x[1]) in ("size", "ssize") and (x[2] == H or H in x[3]) for x in r[1:]): s = (s[0], True)
        return s
    ends = Explorer(g, (None, False), tr, br, track="bool").run().at_exit
    if not wrote[0]: return
    rep.count("changes of the piece size", 1, fn.sig())
    for w, c in ends:
        if w and not c: rep.violation("%s:layout-v1" % fn.qn, w, "%s changes the piece size and keeps the piece hashes computed with the old one" % fn.disp); break
    if R["layer"] and not layers[0]: rep.violation("%s:layout-v2" % fn.qn, fn.loc(), "%s changes the piece size and keeps the piece layers computed with the old one" % fn.disp)


def stored(rep, P, fn, R):
    H = ("f", T, R["pieces"])
    if not any(n["k"] == "MemberExpr" and n.get("m") == R["pieces"] for n in fn.nodes.values()): return
    g = Graph(P, fn, inline=lambda x: x.is_lambda)
    def size(t): return t[0] == "call" and texts.fname(t[1]) in ("size", "ssize") and (t[2] == H or H in t[3])
    def count(t): return t[0] == "call" and texts.fname(t[1]) == "piece_count" or t[0] == "op" and t[1] == "/"
    def tr(ev, s, view):
        bound, same = s
        if ev.kind in ("call", "icall") and ev.obj == H and (ev.op == "[]" or ev.m == "operator[]") and ev.args:
            i = ev.args[0]
            rep.count("reads of stored hashes", 1, "%s %s" % (fn.name, ev.loc()))
            if i[0] == "p" and (i, "size") not in bound and not ((i, "count") in bound and same):
                rep.violation("%s:unstored" % fn.qn, ev.loc(), "%s reads a piece hash without making sure that one is stored for this piece" % fn.disp)
        if ev.kind in ("call", "icall") and ev.obj == H and ev.m == "resize" and ev.args and count(ev.args[0]): same = True
        return (bound, same)
    def br(t, pol, s, view):
        if isinstance(pol, tuple) or t == ("range",): return s
        bound, same = s
        for a, p in conjuncts(t, pol):
            r = relation(a, p)
            if not r: continue
            op, x, y = r
            if op == ">": op, x, y = "<", y, x
            if op == "<":
                if size(y): bound = bound | {(x, "size")}
                elif count(y): bound = bound | {(x, "count")}
                elif y[0] == "v":
                    z = texts.init_of(g, y)
                    if z is not None: bound = bound | {(x, "size" if size(z) else "count" if count(z) else "size")}
            if op == "==" and (size(x) and count(y) or size(y) and count(x)): same = True
        return (bound, same)
    Explorer(g, (frozenset(), False), tr, br, track="bool").run()


def ranges(rep, P, fn, R):
    """The range of pieces of a file: its end is rounded up from the end of the file."""
    rt = P.types[fn.raw["ret"]] if fn.raw.get("ret") is not None and fn.raw["ret"] >= 0 else {}
    if rt.get("rec") != "std::pair" or rt["s"].count("unsigned long") + rt["s"].count("size_t") < 2: return
    g = Graph(P, fn, inline=lambda x: x.is_lambda or x.rec == FS and x.kind == "method" and x.name not in ("at", "operator[]"))
    from ir import events
    moved = {assigned_var(g, ev) for n in g.nodes for ev in events(g, n, {}) if ev.kind == "assign"}
    def expand(t, depth=6):
        if not isinstance(t, tuple): return t
        if t and t[0] == "v" and depth:
            if t in moved: return t
            z = texts.init_of(g, t)
            return expand(z, depth - 1) if z is not None and z != t else t
        if t and t[0] == "call" and texts.fname(t[1]) in SUMS: return ("sum",)
        return tuple(expand(x, depth) if isinstance(x, tuple) else x for x in t)
    def start(t): return any(x == ("sum",) or x in moved for x in subterms(t))
    def length(t): return any(x[0] == "call" and texts.fname(x[1]) == "file_size" or x[0] == "f" and x[2] == "file_size_" for x in subterms(t))
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
            t = ev.term
            a = t[2] if t[0] == "ctor" else t[1] if t[0] == "init" else t[3] if t[0] == "call" else ()
            if len(a) != 2: return s
            rep.count("piece ranges", 1, "%s %s" % (fn.name, ev.loc()))
            lo, hi = expand(a[0]), expand(a[1])
            if lo == hi: return s
            divs = [x for x in subterms(hi) if x[0] == "op" and x[1] in ("/", "%", ">>") or x[0] == "call" and "div" in texts.fname(x[1])]
            num = lambda x: x[2] if x[0] == "op" else x[3]
            both = [x for x in divs if start(num(x)) and length(num(x))] if True else []
            if any(start(num(x)) for x in divs) and any(length(num(x)) for x in divs) and not both and not any(x[1] == "%" for x in divs if x[0] == "op"):
                rep.violation("%s:range" % fn.qn, ev.loc(), "%s rounds the position and the length of a file to pieces separately, so the last piece of a file that starts inside a piece can be left out" % fn.disp)
            elif both and hi in both and hi[0] == "op" and hi[1] == "/" and not any(x[0] == "c" or x == ("f", T, R["psize"]) or x[0] == "call" and "piece_size" in x[1] for x in subterms(num(hi))):
                rep.violation("%s:range" % fn.qn, ev.loc(), "%s rounds the end of a file down to whole pieces, leaving out its last piece" % fn.disp)
            elif divs and not length(hi): rep.violation("%s:range" % fn.qn, ev.loc(), "%s gives a piece range that does not depend on the length of the file" % fn.disp)
        return s
    Explorer(g, 0, tr, track="bool").run()
