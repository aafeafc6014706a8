"""P21: paths taken from a metafile are made of checked components only."""
import facts, texts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, SWAP

PATH = ("std::filesystem::path", "std::filesystem::__cxx11::path", "ghc::filesystem::path")
STRS = ("std::basic_string", "std::basic_string_view")
NEED = {"empty": "an empty component", "dot": "the component '.'", "dotdot": "the component '..'", "sep": "a component with a directory separator"}
KEEPS = ("relative_path", "lexically_normal", "filename", "parent_path", "make_preferred", "root_path", "lexically_relative", "lexically_proximate", "generic_string", "string", "native", "c_str", "u8string", "generic_u8string")
ADD = ("push_back", "emplace_back", "push", "emplace", "insert", "push_front", "emplace_front")


class Dep:
    """Resolves a term to what it denotes, remembering the variables on the way."""
    def __init__(self, g): self.g = g
    def ty(self, t):
        if t[0] == "v" and t[1] >= 0:
            v = self.g.ctxs[t[1]].fn.vars.get(t[2])
            return self.g.P.types[v["t"]] if v else {}
        if t[0] == "ret": return self.g.P.types[self.g.ctxs[t[1]].fn.raw["ret"]]
        return {}
    def norm(self, t, deps=None):
        deps = set() if deps is None else deps
        for _ in range(60):
            if t[0] == "conv": t = t[1]; continue
            if t[0] == "ctor" and (t[1] in PATH or t[1] in STRS):
                a = [x for x in t[2] if not (x[0] == "ctor" and x[1] == "std::allocator")]
                if a and a[-1][0] == "c" and len(a) > 1 and t[1] in PATH: a = a[:-1]
                if len(a) == 1: t = a[0]; continue
                if len(a) == 2 and a[0][0] == "call" and texts.fname(a[0][1]) in ("begin", "cbegin", "data"):
                    t = a[0][2] if a[0][2] is not None else a[0][3][0]; continue
                return t, deps
            if t[0] == "init" and len(t[1]) == 1: t = t[1][0]; continue
            if t[0] == "call" and t[2] is not None and texts.fname(t[1]) in ("c_str", "data", "view", "str"): t = t[2]; continue
            if t[0] == "call" and t[1] in ("std::string_view", "std::string") and t[3]: t = t[3][0]; continue
            if t[0] == "v" and t[1] >= 0:
                deps.add(t[:3])
                fn = self.g.ctxs[t[1]].fn
                if self.g._mutated(fn, t[2]): return t, deps
                r = texts.init_of(self.g, t)
                if r is None: return t, deps
                t = r; continue
            if t[0] == "ret":
                r = self.g._static_ret(self.g.ctxs[t[1]], {})
                if r == t: return t, deps
                t = r; continue
            return t, deps
        return t, deps


def element_of(g, t):
    """The container that t is an element of (through iterators, subscripts, front/back/top), or None."""
    t = Dep(g).norm(t)[0]
    if t[0] == "idx": return t[1]
    if t[0] == "call" and t[2] is not None and texts.fname(t[1]) in ("front", "back", "top", "at"): return t[2]
    if t[0] != "deref": return None
    t = t[1]
    for _ in range(10):
        if t[0] == "v":
            r = texts.init_of(g, t)
            if r is None: return None
            t = r; continue
        if t[0] == "call" and texts.fname(t[1]) in ("begin", "cbegin", "rbegin", "find"): return t[2] if t[2] is not None else t[3][0] if t[3] else None
        if t[0] in ("conv",): t = t[1]; continue
        return None
    return None


def chars(t):
    if t[0] == "str": return t[1]
    if t[0] == "c" and isinstance(t[1], int): return chr(t[1] & 0x10ffff)
    if t[0] == "call" and t[3] and t[3][0][0] == "str": return t[3][0][1]
    if t[0] == "ctor" and t[2]: return chars(t[2][0])
    return None


def is_npos(t): return t[0] == "g" and t[1].endswith("npos") or t[0] == "c" and t[1] in (-1, 2**64 - 1, "18446744073709551615")


def learn(D, t, pol):
    """Facts (requirement, subject) that follow from t having truth value pol; "?" for a test of the subject in a form not known."""
    g = D.g; out = []
    for a, p in conjuncts(t, pol):
        rel = relation(a, p)
        if rel:
            op, x, y = rel
            for op, x, y in ((op, x, y), (SWAP[op], y, x)):
                xs = D.norm(x)
                s = chars(D.norm(y)[0])
                if op == "!=" and y[0] in ("str", "ctor", "call", "v", "g") and s in ("", ".", ".."): out.append(({"": "empty", ".": "dot", "..": "dotdot"}[s],) + xs); continue
                if x[0] == "call":
                    m = texts.fname(x[1])
                    if m in ("size", "length", "ssize", "strlen") :
                        o = D.norm(x[2] if x[2] is not None else x[3][0])
                        if y[0] == "c" and isinstance(y[1], int) and (op in ("!=", ">") and y[1] == 0 or op == ">=" and y[1] == 1): out.append(("empty",) + o); continue
                        if y[0] == "c" and isinstance(y[1], int) and op == ">" and y[1] > 0: out += [("empty",) + o, ("dot",) + o] + ([("dotdot",) + o] if y[1] >= 2 else []); continue
                    if m in ("find", "find_first_of", "rfind", "find_last_of") and x[2] is not None and x[3]:
                        o = D.norm(x[2]); c = chars(D.norm(x[3][0])[0])
                        if op == "==" and is_npos(y):
                            if c is not None and ("/" in c if m.endswith("_of") else c == "/"): out.append(("sep",) + o)
                            elif c is None or ord(c[0]) > 127: out.append(("?",) + o)
                            continue
                        if is_npos(y): continue
                    if m in ("find", "find_first_of", "find_if") and x[2] is None and x[3]:
                        o = D.norm(texts.origin(g, x[3][0])[0]); c = [chars(z) for z in x[3][1:]]
                        if op == "==" and y[0] == "call" and texts.fname(y[1]) in ("end", "cend"):
                            out.append(("sep" if "/" in c else "?",) + o); continue
                    if m == "count" and y == ("c", 0) and op in ("==", "<="):
                        o = D.norm(texts.origin(g, x[3][0])[0]); out.append(("sep" if any(chars(z) == "/" for z in x[3][1:]) else "?",) + o); continue
                b, ops = texts.origin(g, x)
                if y == ("c", 47) and "elem" in ops and op == "!=":
                    out.append(("sep",) + D.norm(b)); continue
        else:
            if a[0] == "call":
                m = texts.fname(a[1])
                if m == "empty" and (a[2] is not None or a[3]):
                    if not p: out.append(("empty",) + D.norm(a[2] if a[2] is not None else a[3][0]))
                    continue
                if m == "contains" and a[2] is not None and a[3]:
                    if chars(a[3][0]) == "/" and not p: out.append(("sep",) + D.norm(a[2]))
                    elif chars(a[3][0]) is None: out.append(("?",) + D.norm(a[2]))
                    continue
                if m in ("starts_with", "ends_with", "operator==", "operator!="): continue
                # an unknown predicate about the text
                for z in ([a[2]] if a[2] is not None else []) + list(a[3]):
                    out.append(("?",) + D.norm(z)); b = texts.origin(g, z)[0]; out.append(("?",) + D.norm(b))
    return out


def check_P21(rep):
    rep.rule("Taint dataflow over the inlined flow graph of the metafile parser: wherever text becomes part of a path (assignment, /=, append, construction of a file entry, elements of lists that end up there, the name of the torrent), the tests passed on every way there must have excluded an empty text, '.', '..' and a directory separator for this very text. "
             "Facts end when a variable they rest on is declared again or changed. Constants and paths built before are exempt; tests in a form the rule cannot read are accepted.")
    P = facts.full()
    tops = [f for f in P.funcs.values() if f.qn == "dottorrent::parse_metafile" and f.blocks]
    if not tops: raise Broken("dottorrent::parse_metafile not found")
    def texty(x):
        if x.is_lambda: return True
        if x.kind != "func" and x.file not in files: return False
        if "metafile" in x.qn.split("::")[-1]: return False
        return any("basic_string" in P.ts(v["t"]) or "filesystem" in P.ts(v["t"]) for v in x.vars.values() if v.get("k") == "param") or "basic_string" in P.ts(x.raw["ret"])
    files = {f.file for f in tops}
    called = set(); work = list(tops); roots = []
    while work:
        f = work.pop()
        if f.fid in called: continue
        called.add(f.fid); roots.append(f)
        for n in f.nodes.values():
            c = P.fn_of(n["callee"]) if "callee" in n else P.funcs.get(P.alias.get(n["call"], n["call"])) if n["k"] == "LambdaExpr" and isinstance(n.get("call"), int) else None
            if c is not None and c.blocks and (c.file in files or c.is_lambda): work.append(c)
    pathfns = {f.qn for f in roots if "filesystem" in P.ts(f.raw["ret"])}
    for fn in roots:
        if fn.is_lambda: continue
        g = Graph(P, fn, inline=lambda x: x.fid != fn.fid and texty(x)); D = Dep(g)
        own = fn not in tops and texty(fn)
        feeders = set(); found = {}; subjects = set()
        def ispath(t):
            ty = D.ty(t)
            return ty.get("rec") in PATH or (ty.get("ref") and P.types[ty["pointee"]].get("rec") in PATH if "pointee" in ty else False) or "filesystem::path" in ty.get("s", "") and "vector" not in ty.get("s", "")
        def pieces(t, out, depth=0):
            """Texts a path expression is made of."""
            if depth > 12: return
            if t[0] == "op" and t[1] in ("/", "+"): pieces(t[2], out, depth + 1); pieces(t[3], out, depth + 1); return
            if t[0] == "ite": pieces(t[2], out, depth + 1); pieces(t[3], out, depth + 1); return
            if t[0] == "call" and t[2] is None and texts.fname(t[1]) in ("operator/", "operator+"):
                for a in t[3]: pieces(a, out, depth + 1)
                return
            if t[0] == "call" and t[2] is not None and texts.fname(t[1]) in KEEPS: pieces(t[2], out, depth + 1); return
            if t[0] == "call" and t[1] in pathfns: return       # its own pieces are judged in its body
            if t[0] == "ctor" and t[1] == "std::optional" and t[2]: pieces(t[2][0], out, depth + 1); return
            if t[0] in ("v", "ret") and ispath(t):
                if t[0] == "v":
                    r = texts.init_of(g, t)
                    if r is not None and not g._mutated(g.ctxs[t[1]].fn, t[2]) and r != t: pieces(r, out, depth + 1)
                return
            n, deps = D.norm(t)
            if n != t and (n[0] in ("op", "ite", "call", "ret") or n[0] == "v" and ispath(n)) and not (n[0] == "call" and texts.fname(n[1]) not in KEEPS + ("operator/", "operator+")): pieces(n, out, depth + 1); return
            if n[0] == "call" and n[1] in pathfns: return
            if n[0] in ("str", "c", "null", "none", "ctor") and not (n[0] == "ctor" and n[2]): return
            if n[0] == "g": return
            out.append((t, n))
        def sink(ev, t, s, what):
            out = []
            pieces(t, out)
            for x, n in out:
                b = element_of(g, x)
                if b is not None and b[0] == "v" and b[1] >= 0 and D.ty(b).get("rec") in ("std::vector", "std::deque", "std::list", "std::array", "std::stack", "std::queue") and "bencode" not in D.ty(b).get("s", "") and g._mutated(g.ctxs[b[1]].fn, b[2]):
                    feeders.add(b[:3]); rep.count("lists of components", 1 if first else 0, show(b)); continue
                judge(ev, x, n, s, what)
        def judge(ev, x, n, s, what):
            if own and n[0] == "v" and n[1] == 0 and n[2] in fn.params or own and n[0] == "p": return   # judged where the function is called
            subjects.add(n)
            got = {r for r, m, d in s if m == n}
            rep.count("components checked", 1 if first else 0, "%s: %s" % (ev.ctx.fn.disp, show(x)))
            if "?" in got: rep.count("components with tests not followed", 1); return
            miss = [k for k in NEED if k not in got]
            if miss: found.setdefault((ev.ctx.fn.qn, what), (ev.loc(), "%s in %s: %s becomes part of %s without excluding %s" % (ev.ctx.fn.disp, fn.qn.split("::")[-1], show(x), what, ", ".join(NEED[k] for k in miss))))
        def tr(ev, s, view):
            k = ev.kind
            if k == "assign" and ev.lhs is not None and (ev.rec in PATH or ev.rec == "std::optional" and ev.op == "=" and ispath(ev.lhs)) and ev.op in ("=", "/=", "+="): sink(ev, ev.rhs, s, "a path")
            elif k in ("call",) and ev.rec in PATH and ev.m in ("append", "assign", "concat", "operator/=", "operator=", "operator+=", "replace_filename", "replace_extension") and ev.args: sink(ev, ev.args[0], s, "a path")
            elif k == "decl" and ev.rhs is not None and ispath(ev.lhs) and g._mutated(ev.ctx.fn, ev.lhs[2]): sink(ev, ev.rhs, s, "a path")
            elif k in ("ctor", "ictor") and (ev.rec or "").endswith("::file_entry") and len(ev.args) >= 2:
                sink(ev, ev.args[0], s, "the path of a file")
                if len(ev.args) > 3: sink(ev, ev.args[3], s, "a link target")
            elif k in ("call", "icall") and ev.m == "set_name" and ev.args and (ev.rec or "").endswith("::metafile"): sink(ev, ev.args[0], s, "the name")
            elif k == "call" and ev.m in ADD and ev.obj is not None and ev.obj[:3] in feeders and ev.args:
                for a in ev.args:
                    out = []
                    pieces(a, out)
                    for x, n in out: judge(ev, x, n, s, "a path")
            if k == "decl" and ev.lhs[0] == "v" and subjects and seps(ev.ctx.fn):
                b, ops = texts.origin(g, ev.rhs) if ev.rhs is not None else (None, None)
                n, d = D.norm(b) if b is not None else (None, None)
                if n in subjects and ev.rhs[0] == "call" and texts.fname(ev.rhs[1]) in ("begin", "cbegin"):
                    s = s | {("sep", n, frozenset(d) | {x[:3] for x in subterms(n) if x[0] == "v"})}
            # ends of facts
            drop = None
            if k == "decl": drop = ev.lhs[:3]
            elif k == "assign" and ev.lhs is not None:
                from ir import assigned_var
                v = assigned_var(g, ev)
                if v and v[0] == "v": drop = v[:3]
                elif s: s = frozenset(f for f in s if not contains(f[1], ev.lhs))
            elif k == "call" and s and ev.obj is not None and ev.m in ("pop", "pop_back", "clear", "erase", "swap", "assign", "resize"):
                s = frozenset(f for f in s if not contains(f[1], ev.obj))
            if drop and s: s = frozenset(f for f in s if drop not in f[2])
            if k == "leave" and s: s = frozenset(f for f in s if not any(d[1] == ev.ctx.id for d in f[2]))
            return s
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            new = learn(D, t, pol)
            for r, n, d in new:
                if n not in subjects: continue
                s = s | {(r, n, frozenset(d) | {x[:3] for x in subterms(n) if x[0] == 'v'})}
            return s
        sepmemo = {}
        def seps(f):
            """Does the function compare a character with the separator (in a loop over the text)?"""
            if f.fid not in sepmemo: sepmemo[f.fid] = any(n["k"] == "BinaryOperator" and n.get("op") in ("==", "!=") and any(f.nodes.get(c, {}).get("v") in (47, "47") or any(f.nodes.get(q, {}).get("v") in (47, "47") for q in f.nodes.get(c, {}).get("c", [])) for c in n.get("c", [])) for n in f.nodes.values()) or any(n["k"] == "SwitchStmt" for n in f.nodes.values())
            return sepmemo[f.fid]
        first = True
        for rnd in range(6):
            found.clear(); n0 = (len(feeders), len(subjects))
            Explorer(g, frozenset(), tr, br, track="bool").run()
            first = False
            if (len(feeders), len(subjects)) == n0: break
        for (q, w), (loc, msg) in found.items(): rep.violation("%s:%s" % (q, w), loc, msg)
        if fn in tops: rep.count("parsers", 1, fn.disp)
        rep.count("functions", 1, fn.disp)
    rep.need("parsers", 2); rep.need("components checked", 6)
