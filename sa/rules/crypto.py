"""P08-P10: use of the cryptographic library (OpenSSL) by message_digest and openssl_hasher."""
import re
import facts
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, SWAP, STRIP

EXEMPT = {"EVP_MD_CTX_reset", "EVP_MD_CTX_init", "EVP_MD_get_size", "EVP_MD_size", "EVP_MD_CTX_get_size", "EVP_MD_CTX_size", "EVP_MD_block_size", "EVP_MD_get_block_size",
          "EVP_MD_get_type", "EVP_MD_get0_name", "EVP_MD_CTX_get0_md", "EVP_MD_CTX_md", "EVP_MD_get_flags", "EVP_MD_flags", "EVP_MD_CTX_get_size_ex"}
SIZEFN = {"EVP_MD_get_size", "EVP_MD_size", "EVP_MD_CTX_get_size", "EVP_MD_CTX_size", "EVP_MD_CTX_get_size_ex"}
NEW = {"EVP_MD_CTX_new", "EVP_MD_CTX_create"}
FREE = {"EVP_MD_CTX_free", "EVP_MD_CTX_destroy"}
FINAL = {"EVP_DigestFinal_ex", "EVP_DigestFinal", "EVP_DigestFinalXOF"}
INIT = {"EVP_DigestInit_ex", "EVP_DigestInit", "EVP_DigestInit_ex2"}
UPD = {"EVP_DigestUpdate"}
OWNERS = ("openssl::message_digest", "dottorrent::openssl_hasher")
SMART = {"std::unique_ptr", "std::shared_ptr"}


def lib(qn): return re.match(r"(EVP|ENGINE|OPENSSL|ERR)_\w+$", qn) is not None


def returns_md(P, fn):
    t = P.types[fn.raw["ret"]]
    return t.get("ptr") and "EVP_MD" in P.ts(t.get("pointee", -1)).upper() and "CTX" not in P.ts(t.get("pointee", -1)).upper()


def load(rep):
    P = facts.core()
    recs = [r for q in OWNERS for r in P.record(q)]
    if len({r["qn"] for r in recs}) < 2: raise Broken("openssl::message_digest or dottorrent::openssl_hasher not found")
    # every class that stores a context or wraps one of the owners, and every function that calls the library
    roots = []
    for f in P.funcs.values():
        if f.is_lambda or not f.blocks: continue
        if not f.file.startswith(REPO + "/"): continue
        if f.rec and (f.rec in OWNERS or f.rec.startswith("openssl::") or f.rec == "dottorrent::single_buffer_hasher"): roots.append(f)
    reach = set()
    for f in roots: reach |= Graph(P, f, inline=lambda x: not returns_md(P, x)).inlined
    for f in P.funcs.values():
        if f.fid not in reach and f.blocks and f.file.startswith(REPO + "/") and not f.is_lambda and any(lib(n["callee"]["qn"]) and not n["callee"]["qn"].startswith("ERR_") for n in f.nodes.values() if "callee" in n) and not returns_md(P, f):
            roots.append(f)
    for f in roots: rep.count("entry points analysed", 1, f.disp)
    rep.need("entry points analysed", 6)
    return P, roots


def norm(t):
    """size/data of a span made from (pointer, size); casts are already stripped."""
    if not isinstance(t, tuple): return t
    if t[0] == "call" and t[2] is not None and t[1].split("::")[-1] in ("size", "data", "size_bytes", "begin"):
        o = norm(t[2]); m = t[1].split("::")[-1]
        while o[0] == "ctor" and o[1] in ("std::span", "std::basic_string_view") and len(o[2]) == 1: o = norm(o[2][0])
        if o[0] == "ctor" and o[1] in ("std::span", "std::basic_string_view") and len(o[2]) == 2:
            a, b = norm(o[2][0]), norm(o[2][1])
            if b[0] == "op" and b[1] == "+" and b[2] == a: b = b[3]              # (first, first + size)
            return b if m in ("size", "size_bytes") else a
        return ("size" if m in ("size", "size_bytes") else "data", o)
    if t[0] == "call" and t[2] is None and len(t[3]) == 1 and t[1].split("::")[-1] in ("size", "data", "ssize"):
        return ("size" if "size" in t[1] else "data", norm(t[3][0]))
    if t[0] == "call" and t[2] is None and t[1] in ("std::to_address",) and len(t[3]) == 1: return norm(t[3][0])
    if t[0] == "addr" and t[1][0] == "idx" and t[1][2] == ("c", 0): return ("data", norm(t[1][1]))
    if t[0] == "addr" and t[1][0] == "call" and t[1][1].endswith("::front"): return ("data", norm(t[1][2]))
    if t[0] == "op": return ("op", t[1], norm(t[2]), norm(t[3]))
    if t[0] == "call" and t[2] is None and t[1] in ("std::as_bytes", "std::as_writable_bytes", "gsl::narrow", "gsl_lite::narrow", "gsl_lite::narrow_cast") and t[3]: return norm(t[3][0])
    return t


# ---- P08 ------------------------------------------------------------------------------
def check_P08(rep):
    rep.rule("Result-status dataflow: every status or pointer returned by the cryptographic library (and by the repository's own algorithm lookup) starts with the outcomes {failed, succeeded}; tests narrow the outcomes along each branch. "
             "A way out of the entry point that is not an exception and on which 'failed' is still possible is a result that was not examined or a failure that was swallowed; so is a pointer that may be null when it is used.")
    P, roots = load(rep)
    for fn in roots:
        g = Graph(P, fn, inline=lambda x: not returns_md(P, x))
        throws_noexcept = fn.raw.get("nothrow") and fn.kind != "dtor"
        def fallible(ev):
            if ev.kind not in ("call", "icall"): return None
            cal = ev.raw.get("callee") or {}
            q = cal.get("qn", "")
            rt = P.types[ev.raw["t"]] if ev.raw.get("t") is not None and ev.raw["t"] >= 0 else {}
            if lib(q):
                if q in EXEMPT or q.startswith("ERR_"): return None
                if rt.get("ptr"): return "ptr" if (q in NEW or ev.args) else None
                if "bits" in rt and not re.search(r"_(get|is|nid|size|type|flags)", q): return "int"
                return None
            f = P.fn_of(cal)
            if f is not None and returns_md(P, f): return "ptr"
            return None
        # state: (results frozenset((key, outcomes)), aliases frozenset((loc, key)), refs frozenset(key -> loc site))
        def find(s, t):
            """the result a term denotes"""
            R, A = s
            if t[0] in ("conv",): t = t[1]
            for l, k in A:
                if l == t: return k
            for k, o in R:
                if k == t: return k
            if t[0] == "call" and (lib(t[1]) or t[1].startswith("openssl")):
                c = [k for k, o in R if k[1] == t[1]]
                if len(c) == 1: return c[0]
            return None
        def tr(ev, s, view):
            R, A = s
            fk = fallible(ev)
            # uses of pointers that may be null
            if ev.kind in ("call", "icall") and lib(ev.qn or "") and ev.qn not in FREE and not ev.qn.startswith("ERR_"):
                for a in ev.args:
                    k = find(s, a)
                    o = dict(R).get(k)
                    if k and o and P_kind.get(k) == "ptr" and 0 in o:
                        rep.violation("%s:%s:nulluse" % (fn.qn, k[1]), ev.loc(), "%s passes the result of %s to %s without having excluded that it is null" % (fn.disp, k[1], ev.qn))
            if fk:
                k = ("call", ev.qn, ev.obj, tuple(ev.args))
                P_kind[k] = fk
                rep.count("results followed", 1, "%s in %s" % (ev.qn, fn.disp))
                if 0 in dict(R).get(k, ()):
                    rep.violation("%s:%s:overwritten" % (fn.qn, ev.qn), ev.loc(), "%s calls %s again before the outcome of the previous call was examined" % (fn.disp, ev.qn))
                R = frozenset(x for x in R if x[0] != k) | {(k, frozenset((0, 1)))}
                A = frozenset(x for x in A if x[1] != k)
                s = (R, A)
            if ev.kind in ("decl", "assign", "fieldinit") and ev.rhs is not None and (ev.kind != "assign" or ev.op == "="):
                l = ev.lhs
                if ev.kind == "assign": l = target(g, ev) or l
                rhs = ev.rhs
                if rhs[0] == "ctor" and rhs[1] in SMART and rhs[2]: rhs = rhs[2][0]
                k = find((R, A), rhs)
                A = frozenset(x for x in A if x[0] != l)
                if k: A = A | {(l, k)}
            if ev.kind in ("ctor", "ictor") and ev.rec in SMART and ev.args:
                k = find((R, A), ev.args[0])
                if k: A = A | {(ev.term, k)}
            if ev.kind in ("call",) and ev.rec in SMART and ev.m == "reset" and ev.args:
                k = find((R, A), ev.args[0])
                if k: A = frozenset(x for x in A if x[0] != ev.obj) | {(ev.obj, k)}
            if ev.kind == "leave" and ev.ctx.parent is None:
                rep.count("ways out checked", 1)
                for k, o in R:
                    if 0 in o:
                        rep.violation("%s:%s" % (fn.qn, k[1]), fn.loc(), "%s can complete normally although %s failed%s" % (fn.disp, k[1], "" if o == frozenset((0,)) else " (its result is not examined)"))
            return (R, A)
        P_kind = {}
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            R, A = s; d = dict(R)
            for a, p in conjuncts(t, pol):
                rel = relation(a, p)
                if rel:
                    op, x, y = rel
                    k = find((frozenset(d.items()), A), x)
                    if k is None:
                        k = find((frozenset(d.items()), A), y); op, x, y = SWAP[op], y, x
                    if k is None or k not in d: continue
                    v = 0 if y == ("null",) else y[1] if y[0] == "c" and isinstance(y[1], int) else None
                    if v is None: continue
                    ok = frozenset(r for r in d[k] if {"==": r == v, "!=": r != v, "<": r < v, ">": r > v, "<=": r <= v, ">=": r >= v}[op])
                else:
                    k = find((frozenset(d.items()), A), a)
                    if k is None or k not in d: continue
                    ok = frozenset(r for r in d[k] if bool(r) == p)
                if not ok: return None
                d[k] = ok
            return (frozenset(d.items()), A)
        x = Explorer(g, (frozenset(), frozenset()), tr, br).run()
        if throws_noexcept and x.at_throw:
            rep.violation("%s:noexcept" % fn.qn, fn.loc(), "%s reports failures by an exception but is declared noexcept" % fn.disp)
    rep.need("results followed", 5)
    rep.assume("EVP_Digest* and EVP_MD_CTX_new report failure by 0 or a null pointer (OpenSSL documentation); EVP_MD_CTX_reset and the algorithm getters cannot fail")


def target(g, ev):
    """The assigned location itself (its remembered value is not wanted)."""
    raw = ev.raw; c0 = (raw.get("c") or raw.get("args") or [None])[0]
    return g.T(ev.ctx, c0, {}) if c0 is not None else None


# ---- P09 ------------------------------------------------------------------------------
def ctx_fields(P, rec):
    out = []
    for f in rec["fields"]:
        t = P.types[f["t"]]
        if t.get("ptr") and "EVP_MD_CTX" in P.ts(t["pointee"]).upper(): out.append((f["n"], "raw"))
        elif t.get("rec") in SMART and "evp_md_ctx" in t["s"].lower(): out.append((f["n"], "smart", t))
    return out


def check_P09(rep):
    rep.rule("Ownership typestate of contexts over every constructor, destructor, assignment and operation of the classes that store one: obtained -> stored -> released. Exceptional ways out of a constructor must not leave an unowned context, the destructor must release it, no path may release it twice or overwrite it, "
             "and special member functions must be absent or must leave only one owner (a raw pointer copied from another object without clearing it there is a second owner).")
    P, roots = load(rep)
    owners = {}
    for r in P.records:
        if not r["file"].startswith(REPO + "/"): continue
        fs = ctx_fields(P, r)
        if fs: owners[r["qn"]] = (r, fs)
    rep.count("classes that store a context", len(owners), ", ".join(owners))
    if not owners: raise Broken("no class stores an EVP_MD_CTX any more")
    for qn, (r, fs) in owners.items():
        where = "%s:%d" % (r["file"].replace(REPO + "/", ""), r["line"])
        raw = {f[0] for f in fs if f[1] == "raw"}
        for f in fs:
            if f[1] == "smart":
                rep.count("context members with an owning type", 1, "%s::%s" % (qn, f[0]))
                if P.types and f[2]["rec"] == "std::shared_ptr":
                    rep.violation("%s:%s:shared" % (qn, f[0]), where, "%s shares its context with its copies through a std::shared_ptr" % qn)
        if raw:
            sp = special(P, r)
            for kind in ("copyctor", "copyassign", "movector", "moveassign"):
                st = sp.get(kind)
                rep.count("special members checked", 1, "%s %s: %s" % (qn, kind, st))
                if st in ("implicit", "defaulted"):
                    rep.violation("%s:%s" % (qn, kind), where, "%s stores a raw context pointer and has a memberwise %s: two objects would release the same context" % (qn, {"copyctor": "copy constructor", "copyassign": "copy assignment", "movector": "move constructor", "moveassign": "move assignment"}[kind]))
            dt = [f for f in P.methods(qn) if f.kind == "dtor" and f.blocks]
            if not dt: rep.violation("%s:nodtor" % qn, where, "%s stores a raw context pointer but has no destructor that releases it" % qn)
    for fn in roots:
        g = Graph(P, fn, inline=lambda x: not returns_md(P, x))
        mine = owners.get(fn.rec); raws = {f[0] for f in mine[1] if f[1] == "raw"} if mine else set()
        smarts = {f[0] for f in mine[1] if f[1] == "smart"} if mine else set()
        ctor = fn.kind == "ctor"
        init = {}
        for f in raws: init[("f", ("this",), f)] = "null" if ctor else "own"
        # state: frozenset of (loc, status)   status: own, freed, null, from:<loc>, free-floating "new"
        def isloc(l): return l[0] == "v" or l[0] == "f" and (l[2] in raws or any(l[2] in {x[0] for x in o[1] if x[1] == "raw"} for o in owners.values()))
        built = {c.this for c in g.ctxs if c.fn.kind == "ctor" and c.parent is not None}
        def get(d, l):
            if l in d: return d[l]
            if l[0] == "f" and l[1] in built: return "null"
            if l[0] == "f" and l[1] != ("this",) and isloc(l): return "own"     # another object's context
            return None
        def tr(ev, s, view):
            d = dict(s)
            if ev.kind in ("call", "icall"):
                if ev.qn in NEW:
                    rep.count("contexts obtained", 1, fn.disp + " " + ev.loc())
                    d[("call", ev.qn, ev.obj, tuple(ev.args))] = "new"
                elif ev.qn in FREE:
                    l = ev.args[0]
                    # the context may be known by the call that produced it
                    al = [x for x in d if x == l]
                    if not al and l[0] == "call" and l[1] in NEW:
                        al = [x for x, st in d.items() if st == "own" and x[0] in ("f", "v")]
                    l2 = raw_loc(g, ev)
                    if l2 is not None and (l2 in d or isloc(l2)): l = l2
                    elif al: l = al[0]
                    rep.count("releases checked", 1, fn.disp + " " + ev.loc())
                    st = get(d, l)
                    if l[0] == "f" and l[2] in smarts:
                        rep.violation("%s:double" % fn.qn, ev.loc(), "%s releases a context that its owning pointer releases as well" % fn.disp)
                    elif st == "freed": rep.violation("%s:double" % fn.qn, ev.loc(), "%s can release the same context twice" % fn.disp)
                    elif isinstance(st, tuple): rep.violation("%s:foreign" % fn.qn, ev.loc(), "%s releases a context that another object still owns" % fn.disp)
                    if st != "null": d[l] = "freed"
                elif ev.qn in ("std::swap",) and len(ev.args) == 2 and all(isloc(a) for a in ev.args):
                    a, b = ev.args; sa, sb = get(d, a), get(d, b); d[a], d[b] = sb, sa
                elif ev.qn == "std::exchange" and isloc(ev.args[0]):
                    d[ev.args[0]] = "null" if isnull(ev.args[1]) else get(d, ev.args[1])
                elif ev.rec in SMART and ev.m == "reset" and ev.args and ev.args[0] in d: d.pop(ev.args[0])
                elif ev.rec in SMART and ev.m == "release" and not ev.args: pass
            if ev.kind in ("ctor", "ictor") and ev.rec in SMART and ev.args:
                a = ev.args[0]
                if a in d: d.pop(a)
                l = raw_arg(g, ev)
                if l in d: d.pop(l)
                if a[0] == "call" and a[1] in NEW:
                    for x in [x for x, st in d.items() if st == "own" and x[0] == "v"]: d.pop(x)
            if ev.kind in ("decl", "assign", "fieldinit") and ev.rhs is not None and (ev.kind != "assign" or ev.op == "="):
                l = (target(g, ev) or ev.lhs) if ev.kind == "assign" else ev.lhs
                r = ev.rhs
                rl = rhs_loc(g, ev)
                if r in d and d[r] == "new" or r[0] == "call" and r[1] in NEW:
                    if d.get(r) == "new": d.pop(r)
                    src = rl if rl in d and rl != l and rl is not None else None
                    if get(d, l) == "own" and isloc(l) and src is None: rep.violation("%s:overwrite" % fn.qn, ev.loc(), "%s overwrites the pointer to a context that was not released" % fn.disp)
                    if src is not None and d.get(src) == "own": d.pop(src)
                    if isloc(l): d[l] = "own"
                elif isloc(l) and (isnull(r) or r == ("ctor", "", ()) or r == ("init", ()) or r[0] == "opq" and ev.kind == "fieldinit"):
                    if get(d, l) == "own" and l[0] == "f" and not any(st == ("from", l) for st in d.values()): rep.violation("%s:dropped" % fn.qn, ev.loc(), "%s forgets a context without releasing it" % fn.disp)
                    d[l] = "null"
                elif isloc(l) and r[0] == "call" and r[1] == "std::exchange" and len(r[3]) == 2:
                    if get(d, l) == "own": rep.violation("%s:overwrite" % fn.qn, ev.loc(), "%s overwrites the pointer to a context that was not released" % fn.disp)
                    d[l] = "own"; d[r[3][0]] = "null"
                elif l[0] == "f" and isloc(l) and (rl is not None and isloc(rl) or isloc(r)):
                    o = rl if rl is not None and isloc(rl) else r
                    if get(d, l) == "own" and d.get(o) != "own": rep.violation("%s:overwrite" % fn.qn, ev.loc(), "%s overwrites the pointer to a context that was not released" % fn.disp)
                    if o[0] == "v": d[l] = d.get(o, "own"); d.pop(o, None)
                    elif o[0] == "f" and o[1] != l[1]: d[l] = ("from", o)
                elif l[0] == "v" and rl is not None and rl[0] == "f" and isloc(rl):
                    d[l] = ("alias", rl)
            st = frozenset(d.items())
            if ev.kind == "leave" and ev.ctx.parent is None: at_exit(ev, d)
            return st
        def at_exit(ev, d):
            rep.count("ways out checked", 1)
            for l, st in d.items():
                if st == "new": rep.violation("%s:leak" % fn.qn, fn.loc(), "%s obtains a context that it does not store" % fn.disp)
                if l[0] == "v" and st == "own": rep.violation("%s:leak" % fn.qn, fn.loc(), "%s obtains a context that it neither stores nor releases" % fn.disp)
                if l[0] == "f" and l[1] == ("this",):
                    if fn.kind == "dtor":
                        if st == "own": rep.violation("%s:leak" % fn.qn, fn.loc(), "%s does not release the context on every path" % fn.disp)
                    elif st == "freed": rep.violation("%s:dangling" % fn.qn, fn.loc(), "%s leaves the object with a released context, which its destructor releases again" % fn.disp)
                    if isinstance(st, tuple) and st[0] == "from":
                        o = st[1]
                        if d.get(o, "own") != "null": rep.violation("%s:second-owner" % fn.qn, fn.loc(), "%s takes over another object's context without making that object give it up" % fn.disp)
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            d = dict(s)
            for a, p in conjuncts(t, pol):
                rel = relation(a, p)
                if rel:
                    op, x, y = rel
                    if isnull(x): x, y = y, x
                    if not isnull(y) or op not in ("==", "!="): continue
                    null = op == "=="
                else: x, null = a, not p
                ls = [l for l in d if l == x and (l[0] in ("f", "v") or d[l] == "new")]
                if x[0] == "call" and x[1] in NEW: ls = [l for l, st in d.items() if st in ("own", "new") and (l == x or l[0] in ("f", "v"))]
                for l in ls:
                    if null:
                        if d[l] in ("own", "new"): d[l] = "null"
                    elif d[l] == "null": return None
            return frozenset(d.items())
        x = Explorer(g, frozenset(init.items()), tr, br).run()
        for st in x.at_throw:
            rep.count("exceptional ways out checked", 1)
            for l, k in st:
                if k == "new" or (l[0] == "v" and k == "own") or (ctor and l[0] == "f" and l[1] == ("this",) and k == "own" and not delegates(fn)):
                    rep.violation("%s:throw-leak" % fn.qn, fn.loc(), "%s can throw while it is the only holder of a context, which is then never released" % fn.disp)
                if not ctor and l[0] == "f" and l[1] == ("this",) and k == "freed":
                    rep.violation("%s:throw-dangling" % fn.qn, fn.loc(), "%s can throw after releasing the context, leaving the object with a released context" % fn.disp)
    rep.need("contexts obtained", 1)
    if any(f[1] == "raw" for _, fs in owners.values() for f in fs): rep.need("releases checked", 1)
    rep.assume("EVP_MD_CTX_free accepts a null pointer; C functions of the library do not throw")


def isnull(t): return t == ("null",) or t == ("c", 0) or t[0] == "ctor" and not t[2]
def delegates(fn): return any(isinstance(x, dict) and x.get("x") == "init" and x.get("deleg") for b in fn.blocks.values() for x in b["e"])
def raw_loc(g, ev): return g.T(ev.ctx, (ev.aids or [None])[0], {}) if ev.aids else None
def raw_arg(g, ev): return g.T(ev.ctx, ev.aids[0], {}) if ev.aids else None


def rhs_loc(g, ev):
    raw = ev.raw
    if ev.kind == "decl": i = raw.get("init")
    elif ev.kind == "fieldinit": i = raw.get("e")
    else:
        c = raw.get("c") or raw.get("args") or []
        i = c[1] if len(c) > 1 else None
    return g.T(ev.ctx, i, {}) if i is not None and i >= 0 else None


def special(P, rec, seen=()):
    """copyctor/copyassign/movector/moveassign -> deleted | defaulted | implicit | user | none"""
    out = {}; ms = rec["methods"]
    key = {"copyctor": "copy", "copyassign": "copyasg", "movector": "move", "moveassign": "moveasg"}
    decl = {k: [m for m in ms if m.get(f) and not m.get("implicit")] for k, f in key.items()}
    for k, f in key.items():
        l = [m for m in ms if m.get(f)]
        if l: out[k] = "deleted" if all(m.get("deleted") for m in l) else "user" if any(m.get("user") for m in l) else "implicit" if all(m.get("implicit") for m in l) else "defaulted"
        elif k.startswith("copy"): out[k] = "deleted" if decl["movector"] or decl["moveassign"] else "implicit"
        else: out[k] = "none" if any(decl.values()) or rec["userdtor"] else "implicit"
        if out[k] in ("implicit", "defaulted") and k.startswith("copy") and rec["qn"] not in seen:
            for b in rec["bases"]:
                for br in P.record(b["qn"]):
                    if special(P, br, seen + (rec["qn"],)).get(k) == "deleted": out[k] = "deleted"
            for fl in rec["fields"]:
                t = P.types[fl["t"]]
                if t.get("rec") in ("std::unique_ptr", "std::atomic", "std::mutex", "std::shared_mutex", "std::thread", "std::jthread") or t.get("rec") and any(special(P, br, seen + (rec["qn"],)).get(k) == "deleted" for br in P.record(t["rec"])): out[k] = "deleted"
    return out


# ---- P10 ------------------------------------------------------------------------------
def check_P10(rep):
    rep.rule("Guard-fact dataflow at every call that writes a digest: the destination must be the caller's span and every path to the call must have established that the span holds at least the digest size of the algorithm (or go through a local buffer of EVP_MAX_MD_SIZE and a guarded copy). "
             "Sequencing dataflow: on every normal way out of the hasher's finish operation the context was initialised again, with the algorithm set up by the constructor, after the digest was taken. Feeding hands exactly the caller's bytes (data and size of the same span) to the library.")
    P, roots = load(rep)
    upd_fns = 0
    written_fields = field_writes(P, roots)
    for fn in roots:
        g = Graph(P, fn, inline=lambda x: not returns_md(P, x))
        hasher = fn.rec == "dottorrent::openssl_hasher" or fn.rec == "dottorrent::single_buffer_hasher"
        # state: (facts frozenset((span, bound term)), finished None|'final'|'reset', updates, seen empty)
        def tr(ev, s, view):
            F, fin, up, emp = s
            if ev.kind in ("call", "icall"):
                q = ev.qn
                if q in FINAL:
                    rep.count("digest-writing calls checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    buf = norm(ev.args[1])
                    fin = "final"
                    if buf[0] == "data":
                        sp = buf[1]
                        if q == "EVP_DigestFinalXOF":
                            if norm(ev.args[2]) != ("size", sp): rep.violation("%s:overrun" % fn.qn, ev.loc(), "%s writes %s bytes to a buffer of %s" % (fn.disp, show(ev.args[2]), show(sp)))
                        elif not any(f[0] == sp and f[1] == "digest" for f in F):
                            rep.violation("%s:overrun" % fn.qn, ev.loc(), "%s lets %s write the digest to the caller's buffer without having established that the buffer is large enough" % (fn.disp, q))
                    else:
                        b = local_array(P, g, ev.args[1], ev)
                        if b is None or b < 64:
                            rep.violation("%s:overrun" % fn.qn, ev.loc(), "%s lets %s write the digest to %s, whose size is not known to suffice" % (fn.disp, q, show(ev.args[1])))
                        else: fin = "final-local"
                elif q in INIT:
                    rep.count("initialisations checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if fin: fin = "reset"
                    alg = ev.args[1]
                    if fn.kind != "ctor" and not any(c.fn.kind == "ctor" for c in chain(ev.ctx)):
                        if not isnull(alg) and not (alg[0] == "f" and alg[2] not in written_fields):
                            rep.violation("%s:algorithm" % fn.qn, ev.loc(), "%s initialises the context with %s instead of the algorithm it was constructed with" % (fn.disp, show(alg)))
                elif q in ("EVP_MD_CTX_copy_ex", "EVP_MD_CTX_copy") and fin: fin = "reset"
                elif q in UPD:
                    if fin in ("reset", "final"): fin = "fed"
                    d, n = norm(ev.args[1]), norm(ev.args[2])
                    rep.count("feeding calls checked", 1, "%s %s" % (fn.disp, ev.loc()))
                    if n[0] == "size" and ev.aids and thin(ev.ctx, ev.aids[2]):
                        rep.violation("%s:truncated" % fn.qn, ev.loc(), "%s passes the number of bytes through a type that cannot hold it" % fn.disp)
                    if not is_slice(d, n):
                        rep.violation("%s:feed" % fn.qn, ev.loc(), "%s feeds %s bytes from %s: not exactly the bytes it was given" % (fn.disp, show(ev.args[2]), show(ev.args[1])))
                    up = min(up + 1, 2)
                elif q in ("std::copy_n", "memcpy", "std::memcpy", "std::copy", "memmove", "std::memmove", "std::ranges::copy", "std::transform") and fin == "final-local":
                    dst = copy_dest(ev)
                    if dst is not None and dst[0] == "data":
                        rep.count("guarded copies checked", 1, "%s %s" % (fn.disp, ev.loc()))
                        if not any(f[0] == dst[1] for f in F): rep.violation("%s:overrun" % fn.qn, ev.loc(), "%s copies the digest to the caller's buffer without having established that the buffer is large enough" % fn.disp)
            s = (F, fin, up, emp)
            if ev.kind == "leave" and ev.ctx.parent is None:
                rep.count("ways out checked", 1)
                if hasher and fn.name == "finalize_to" and fin != "reset":
                    rep.violation("%s:noreset" % fn.qn, fn.loc(), "%s can return without having put the hasher back into its initial state" % fn.disp if fin != "fed" else "%s feeds data after resetting" % fn.disp)
                if fn.name == "update" and fn.rec in OWNERS + ("dottorrent::single_buffer_hasher",):
                    if up == 0 and not emp: rep.violation("%s:notfed" % fn.qn, fn.loc(), "%s can return without having fed the data" % fn.disp)
                    if up > 1 and not loops(g): rep.violation("%s:fedtwice" % fn.qn, fn.loc(), "%s can feed the data twice" % fn.disp)
            return s
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            F, fin, up, emp = s
            for a, p in conjuncts(t, pol):
                if a[0] == "call" and a[1].endswith("::empty") and p: emp = True
                rel = relation(a, p)
                if not rel: continue
                op, x, y = rel; x, y = norm(x), norm(y)
                if x[0] != "size": op, x, y = SWAP[op], y, x
                if x[0] != "size": continue
                if isnull(y) and op in ("==", "<="): emp = True
                if op in (">=", "==", ">"):
                    if is_digest_size(y): F = F | {(x[1], "digest")}
                    elif y[0] == "c" and isinstance(y[1], int) and y[1] >= 64: F = F | {(x[1], "digest")}
                    else: F = F | {(x[1], "other")}
            return (F, fin, up, emp)
        Explorer(g, (frozenset(), None, 0, False), tr, br).run()
    rep.need("digest-writing calls checked", 2); rep.need("feeding calls checked", 2); rep.need("initialisations checked", 2)
    rep.assume("EVP_DigestFinal_ex writes exactly the number of bytes that EVP_MD_get_size reports for the algorithm of the context, at most EVP_MAX_MD_SIZE")


def is_digest_size(y):
    return any(x[0] == "call" and x[1] in SIZEFN for x in subterms(y)) and not any(x[0] == "op" and x[1] in ("-", "/", ">>", "%") for x in subterms(y))


def chain(c):
    while c is not None: yield c; c = c.parent


def thin(ctx, i, depth=8):
    """Does the size expression go through an integer type of fewer than 64 bits?  Constants may."""
    fn = ctx.fn; n = fn.nodes.get(i)
    if n is None or depth == 0 or n.get("v") is not None: return False
    y = fn.P.types[n["t"]] if n.get("t") is not None and n["t"] >= 0 else {}
    if y.get("bits") and y["bits"] < 64 and not y.get("bool"): return True
    if n["k"] in STRIP: return any(thin(ctx, c, depth - 1) for c in n.get("c", []) if isinstance(c, int))
    if n["k"] == "DeclRefExpr" and n["dk"] == "Var":
        v = fn.vars.get(n["d"])
        return bool(v) and v["k"] != "global" and v.get("init") is not None and v["init"] >= 0 and thin(ctx, v["init"], depth - 1)
    return False


def is_slice(d, n):
    """(pointer, size) of one span, or of a part of it inside a loop."""
    if d[0] == "data" and n == ("size", d[1]): return True
    if d[0] == "data" and d[1][0] == "call" and d[1][1].split("::")[-1] in ("subspan", "first", "last") and n == ("size", d[1]): return True
    return d[0] == "op" and d[1] == "+" or d[0] == "v" or d[0] == "addr" and d[1][0] == "idx" and d[1][2][0] == "v"      # walks over the data in a loop: not decided here


def loops(g):
    return any(b.get("tk") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") for c in g.ctxs for b in c.fn.blocks.values())


def local_array(P, g, t, ev):
    t0 = t
    if t0[0] == "data": t0 = t0[1]
    t = norm(t)
    if t[0] == "data": t = t[1]
    if t[0] == "addr": t = t[1]
    if t[0] == "idx": t = t[1]
    if t[0] == "v" and t[1] >= 0:
        v = g.ctxs[t[1]].fn.vars.get(t[2]); ty = P.types[v["t"]] if v else {}
        m = re.search(r"\[(\d+)\]$", ty.get("s", "")) or re.search(r"std::array<.*,\s*(\d+)[UL]*>", ty.get("s", ""))
        if m: return int(m.group(1))
    return None


def copy_dest(ev):
    a = ev.args
    i = {"std::copy_n": 2, "memcpy": 0, "std::memcpy": 0, "memmove": 0, "std::memmove": 0, "std::copy": 2, "std::ranges::copy": 1, "std::transform": 2}.get(ev.qn)
    if i is None or i >= len(a): return None
    return norm(a[i])


def field_writes(P, roots):
    """Members assigned outside constructors."""
    w = set()
    for fn in roots:
        if fn.kind == "ctor": continue
        g = Graph(P, fn, inline=lambda x: not returns_md(P, x))
        def tr(ev, s, view):
            if ev.kind == "assign":
                l = target(g, ev) or ev.lhs
                if l[0] == "f": w.add(l[2])
            return s
        Explorer(g, 0, tr).run()
    return w
