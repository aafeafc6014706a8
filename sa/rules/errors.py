"""P32: errors of the cryptographic library keep their identity."""
import re
import facts, witness
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, show, subterms, SWAP
import texts

STRINGS = {"ERR_reason_error_string", "ERR_lib_error_string", "ERR_func_error_string"}
POP = {"ERR_get_error", "ERR_get_error_all", "ERR_get_error_line", "ERR_get_error_line_data"}
PEEK = {"ERR_peek_error", "ERR_peek_last_error", "ERR_peek_error_all", "ERR_peek_last_error_all", "ERR_peek_error_line", "ERR_peek_last_error_line"}
CODE = ("std::error_code", "std::system_error")
KEEP = {"EVP_MD_CTX_free", "EVP_MD_CTX_destroy"}


def is_cat(q): return q.split("::")[-1] == "openssl_crypto_category"


def nonnull(t, pol, nn):
    out = set(nn)
    for a, p in conjuncts(t, pol):
        r = relation(a, p)
        if r:
            op, x, y = r
            if x == ("null",) or x == ("c", 0): x, y = y, x
            if (y == ("null",) or y == ("c", 0)) and op == "!=": out.add(x)
        elif p: out.add(a)
    return frozenset(out)


def maynull(t, nn):
    """Result of a library function that may be null here (definitely reachable source), else None."""
    if t in nn: return None
    if t[0] == "ite": return maynull(t[2], nonnull(t[1], True, nn)) or maynull(t[3], nonnull(t[1], False, nn))
    if t[0] == "conv": return maynull(t[1], nn)
    if t[0] == "call" and t[1] in STRINGS: return t
    return None


def category(g, t):
    """'own', the name of another category function, or None."""
    for _ in range(8):
        if t[0] == "ret":
            q = g.ctxs[t[1]].fn.qn
            if is_cat(q): return "own"
            r = g._static_ret(g.ctxs[t[1]], {})
            if r == t: return None
            t = r; continue
        if t[0] == "call":
            q = t[1]
            if is_cat(q): return "own"
            if q in ("std::generic_category", "std::system_category", "std::iostream_category", "std::future_category"): return q
            return None
        if t[0] == "v":
            if t[1] >= 0:
                c = g.ctxs[t[1]]
                if is_cat(c.fn.qn) : return "own"
            r = texts.init_of(g, t)
            if r is None: return None
            t = r; continue
        if t[0] in ("conv", "deref", "addr"): t = t[1]; continue
        return None
    return None


def direct_pop(fn, raw):
    """Does the expression of a call's first argument itself take an error off the library's queue?"""
    a = raw.get("args") or raw.get("c") or []
    todo = list(a[:1]); seen = set()
    while todo:
        i = todo.pop()
        if i in seen or i is None or i < 0: continue
        seen.add(i); n = fn.nodes.get(i)
        if n is None: continue
        if (n.get("callee") or {}).get("qn") in POP: return True
        todo += [x for x in (n.get("c") or []) + (n.get("args") or []) if isinstance(x, int)]
    return False


def check_P32(rep):
    rep.rule("Compile-fail witnesses that every enumerator of the library's error enumeration has the number OpenSSL gives that reason and that it converts to an error code; dataflow over every construction of an error code or system error: the number comes unchanged from the enumeration or from OpenSSL's error queue, which has not been emptied before on that path, "
             "and goes with the library's own category; the category is one object of static storage; texts obtained from OpenSSL are excluded to be null before they are used.")
    P = facts.core()
    en = P.enums.get("openssl::evp_errc")
    if not en: raise Broken("openssl::evp_errc not found")
    names = [e["n"] if isinstance(e, dict) else e[0] for e in en["e"]]
    vals = {e["v"] for e in en["e"]}
    T = ['#include <system_error>', '#include <string>', '#include <span>', '#include <cstddef>', '#include <type_traits>', '#include "dottorrent/hasher/backends/openssl.hpp"']
    what = {}
    for n in names:
        M = "EVP_R_" + n.upper()
        T += ["#ifdef " + M, 'static_assert(static_cast<int>(openssl::evp_errc::%s) == %s, "VF:errc-%s");' % (n, M, n), "#endif"]
        what["errc-" + n] = "evp_errc::%s has the number of another OpenSSL reason than %s" % (n, M)
    T.append('template <typename E> constexpr bool vf_conv = requires(E e) { std::error_code(e); };\nstatic_assert(vf_conv<openssl::evp_errc>, "VF:convertible");')
    what["convertible"] = "evp_errc does not convert to std::error_code although it is declared an error code enumeration"
    T.append('static_assert(std::is_base_of_v<std::error_category, std::remove_cvref_t<decltype(openssl::openssl_crypto_category())>> && std::is_reference_v<decltype(openssl::openssl_crypto_category())>, "VF:category-ref");')
    what["category-ref"] = "openssl_crypto_category() does not return a reference to a category"
    witness.apply(rep, "\n".join(T) + "\n", what, "include/dottorrent/hasher/backends/openssl.hpp")
    rep.need("assertions decided", 60)

    # the category object
    cats = [f for f in P.funcs.values() if f.blocks and f.kind == "func" and is_cat(f.qn) and f.file.startswith(REPO)]
    if not cats: raise Broken("openssl_crypto_category() not found")
    for fn in cats:
        g = Graph(P, fn)
        def tr(ev, s, view):
            if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
                t = ev.term
                rep.count("category objects returned", 1, show(t))
                while t[0] in ("conv", "ret"):
                    t = t[1] if t[0] == "conv" else g._static_ret(g.ctxs[t[1]], {})
                    if t[0] == "ret": break
                if t[0] == "v" and t[1] >= 0:
                    v = g.ctxs[t[1]].fn.vars.get(t[2], {})
                    ty = P.types[v["t"]] if "t" in v else {}
                    if v.get("tls"):
                        rep.violation("%s:thread" % fn.qn, ev.loc(), "%s returns another object in every thread; categories are compared by address" % fn.disp)
                    elif v.get("k") == "local" and not ty.get("ref"):
                        rep.violation("%s:local" % fn.qn, ev.loc(), "%s returns a reference to a local object" % fn.disp)
                    elif ty.get("ref") or ty.get("ptr"):
                        t = texts.init_of(g, t) or t
                if t[0] == "deref": t = t[1]
                if t[0] == "new" and not any(v.get("k") == "static" for v in fn.vars.values()):
                    rep.violation("%s:fresh" % fn.qn, ev.loc(), "%s returns a new object on every call; categories are compared by address" % fn.disp)
            return s
        Explorer(g, 0, tr).run()
    rep.need("category objects returned", 1)

    # texts from OpenSSL
    users = [f for f in P.funcs.values() if f.blocks and f.file.startswith(REPO) and not f.is_lambda and any((n.get("callee") or {}).get("qn") in STRINGS for n in f.nodes.values())]
    msg = [f for f in P.funcs.values() if f.blocks and f.rec and f.rec.endswith("openssl_crypto_category") and f.qn.endswith("::message")]
    if not msg: raise Broken("the category's message() not found")
    for fn in {f.fid: f for f in users + msg}.values():
        g = Graph(P, fn)
        def tr(ev, s, view):
            if ev.kind in ("call", "ctor", "icall", "ictor") and (ev.qn or "") not in STRINGS:
                if (ev.qn or "").startswith("std::basic_string::") or (ev.qn or "").startswith("std::basic_string_view") or ev.kind == "call" and (ev.qn or "").split("::")[-1] in ("format", "strlen", "operator+", "operator<<"):
                    for a in ev.args:
                        rep.count("uses of texts from OpenSSL", sum(1 for x in subterms(a) if x[0] == "call" and x[1] in STRINGS) and 1)
                        m = maynull(a, s)
                        if m: rep.violation("%s:nulltext" % fn.qn, ev.loc(), "%s makes a text from the result of %s without having excluded that it is null" % (fn.disp, m[1]))
            if ev.kind in ("assign", "decl", "fieldinit") and ev.rhs is not None and (ev.qn or "" if ev.kind == "assign" else "").startswith("std::basic_string"):
                m = maynull(ev.rhs, s)
                rep.count("uses of texts from OpenSSL", 1 if any(x[0] == "call" and x[1] in STRINGS for x in subterms(ev.rhs)) else 0)
                if m: rep.violation("%s:nulltext" % fn.qn, ev.loc(), "%s makes a text from the result of %s without having excluded that it is null" % (fn.disp, m[1]))
            if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None and P.types[fn.raw["ret"]].get("rec", "").startswith("std::basic_string"):
                m = maynull(ev.term, s)
                if m: rep.violation("%s:nulltext" % fn.qn, ev.loc(), "%s makes a text from the result of %s without having excluded that it is null" % (fn.disp, m[1]))
                if ev.term == ("null",): rep.violation("%s:nulltext" % fn.qn, ev.loc(), "%s makes a text from a null pointer" % fn.disp)
            return s
        def br(t, pol, s, view):
            if isinstance(pol, tuple): return s
            return nonnull(t, pol, s)
        Explorer(g, frozenset(), tr, br).run()
    for fn in P.funcs.values():
        if fn.blocks and fn.rec and fn.rec.endswith("openssl_crypto_category") and fn.qn.endswith("::name"):
            g = Graph(P, fn)
            def tr(ev, s, view):
                if ev.kind == "return" and ev.ctx.parent is None:
                    rep.count("category names", 1, show(ev.term) if ev.term else None)
                    if ev.term == ("null",) or ev.term is not None and maynull(ev.term, s): rep.violation("%s:null" % fn.qn, ev.loc(), "%s returns a null pointer" % fn.disp)
                return s
            Explorer(g, frozenset(), tr).run()

    # error codes
    n_made = 0
    for fn in P.funcs.values():
        if not fn.blocks or not fn.file.startswith(REPO) or fn.is_lambda: continue
        if not (fn.qn.startswith("openssl::") or any((n.get("callee") or {}).get("qn", "") in POP | PEEK or (n.get("callee") or {}).get("qn", "").startswith("openssl::") for n in fn.nodes.values())): continue
        g = Graph(P, fn)
        def tr(ev, s, view):
            q = ev.qn or "" if ev.kind in ("call", "icall", "ctor", "ictor") else ""
            if q == "ERR_clear_error": return "cleared"
            if q in POP:
                if s == "cleared": rep.violation("%s:cleared" % fn.qn, ev.loc(), "%s asks OpenSSL for its error after having emptied the error queue: the reason of the failure is lost" % fn.disp)
                return {"": "popped", "popped": "again"}.get(s, s)
            if q in PEEK and s == "cleared": rep.violation("%s:cleared" % fn.qn, ev.loc(), "%s asks OpenSSL for its error after having emptied the error queue: the reason of the failure is lost" % fn.disp)
            if re.match(r"(EVP|ENGINE|OPENSSL)_", q) and q not in KEEP: return ""
            if ev.kind == "ctor" and (ev.rec or "") in CODE and ev.args:
                a = ev.args
                x = a[0]
                if ev.rec == "std::system_error" and (x[0] == "ctor" and x[1] == "std::error_code" or x[0] in ("ret", "v") and len(a) == 1): return s
                cat = category(g, a[1]) if len(a) > 1 else None
                b, ops = texts.origin(g, x)
                sub = list(subterms(x)) + list(subterms(b))
                frm = [y for y in sub if y[0] == "call" and y[1] in POP | PEEK]
                err = [y for y in sub if y[0] == "p" and any("evp_errc" in P.ts(v["t"]) for v in fn.vars.values() if v.get("k") == "param")]
                rep.count("error codes made", 1, "%s: %s" % (fn.disp, show(x)))
                if (frm or err) and cat not in (None, "own"):
                    rep.violation("%s:category" % fn.qn, ev.loc(), "%s gives an error number of OpenSSL to %s()" % (fn.disp, cat))
                if cat == "own":
                    if b[0] == "c" and b[1] not in vals: rep.violation("%s:constant" % fn.qn, ev.loc(), "%s reports the constant %s as OpenSSL's error number" % (fn.disp, b[1]))
                    elif b[0] == "op" and (frm or err) and b[1] in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
                        rep.violation("%s:changed" % fn.qn, ev.loc(), "%s changes OpenSSL's error number before reporting it: %s" % (fn.disp, show(b)))
                    elif b[0] == "un" and (frm or err): rep.violation("%s:changed" % fn.qn, ev.loc(), "%s changes OpenSSL's error number before reporting it: %s" % (fn.disp, show(b)))
                if s == "again" and direct_pop(ev.ctx.fn, ev.raw):
                    rep.violation("%s:popped" % fn.qn, ev.loc(), "%s takes the error off OpenSSL's queue twice: what it reports is not the error of the failed call" % fn.disp)
            return s
        Explorer(g, "", tr).run()
    rep.need("error codes made", 5)
    rep.assume("OpenSSL puts the reason of every failure on its error queue; ERR_reason_error_string returns null for numbers it does not know")
