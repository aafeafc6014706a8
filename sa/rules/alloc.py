"""P26: aligned_allocator."""
import facts, witness
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, contains, show, subterms, SWAP

REC = "dottorrent::aligned_allocator"
MAX = (1 << 64) - 1
# system allocation functions: (index of alignment, index of size, family)
ALLOC = {"aligned_alloc": (0, 1, "malloc"), "std::aligned_alloc": (0, 1, "malloc"), "memalign": (0, 1, "malloc"), "posix_memalign": (1, 2, "malloc"),
         "malloc": (None, 0, "malloc"), "std::malloc": (None, 0, "malloc"), "calloc": (None, 1, "malloc"), "_aligned_malloc": (1, 0, "_aligned"), "_mm_malloc": (1, 0, "_mm"),
         "operator new": (1, 0, "new"), "operator new[]": (1, 0, "new[]")}
FREE = {"free": "malloc", "std::free": "malloc", "_aligned_free": "_aligned", "_mm_free": "_mm", "operator delete": "new", "operator delete[]": "new[]"}
SIZES = {"unsigned char": 1, "unsigned long": 8, "vf_inst::odd24": 24, "short": 2}


def num(t):
    if t[0] == "c":
        try: return int(t[1])
        except (TypeError, ValueError): return None
    return None


class Wrap(Exception): pass


def ev(t, n):
    """Value of a size expression for n elements; Wrap if an intermediate result does not fit."""
    v = num(t)
    if v is not None: return v & MAX
    if t == ("p", 0): return n
    if t[0] == "narrow":
        v = ev(t[3], n)
        if v >= 1 << (t[1] - (1 if t[2] else 0)) : raise Wrap()
        return v
    if t[0] == "op":
        a, b = ev(t[2], n), ev(t[3], n)
        r = {"+": lambda: a + b, "*": lambda: a * b, "-": lambda: a - b, "/": lambda: a // b, "%": lambda: a % b, "&": lambda: a & b, "|": lambda: a | b, "<<": lambda: a << b, ">>": lambda: a >> b}.get(t[1])
        if r is None: raise KeyError(t[1])
        r = r()
        if r > MAX or r < 0: raise Wrap()
        return r
    if t[0] == "un" and t[1] == "~": return ev(t[2], n) ^ MAX
    if t[0] == "call" and t[1] == "std::max" and len(t[3]) == 2: return max(ev(t[3][0], n), ev(t[3][1], n))
    raise KeyError(t[0])


def check_P26(rep):
    rep.rule("Guard-fact dataflow over allocate/deallocate of several instantiations (element sizes 1, 8, 24; alignments 16, 32, 64): at each system allocation the alignment argument covers the template's, the size expression is at least count*sizeof and, for the largest count that the path's tests let through, none of its steps exceeds the range of size_t; "
             "a returned pointer is the allocated one with null excluded, null only for count 0; release uses the counterpart function on the pointer given, on every path. Equality and max_size are decided by compile-fail witnesses.")
    P = facts.core()
    recs = {r["id"]: r for r in P.record(REC)}
    fams = {"alloc": set(), "free": set()}
    for fn in P.methods(REC):
        if not fn.blocks or fn.name not in ("allocate", "deallocate") : continue
        ta = P.types[fn.raw["rt"]]["args"]
        elem = P.ts(ta[0]["t"]); size = SIZES.get(elem); align = int(ta[1]["v"])
        if size is None: continue
        g = Graph(P, fn, narrow=True)
        if fn.name == "allocate":
            rep.count("allocate instances", 1, fn.disp)
            def site(e, k): return "%s:%s" % (REC + "::allocate", k)
            # state: (upper bound of count, count known nonzero/zero, {alloc term: outcomes}, aliases)
            def find(A, R, t):
                if t[0] == "conv": t = t[1]
                for l, k in A:
                    if l == t: return k
                for k, o in R:
                    if k == t: return k
                if t[0] == "call" and t[1] in ALLOC:
                    c = [k for k, o in R if k[1] == t[1]]
                    if len(c) == 1: return c[0]
                return None
            def tr(e, s, view):
                ub, zero, R, A, mul = s
                if e.kind == "call" and e.qn in ALLOC:
                    ai, si, fam = ALLOC[e.qn]; fams["alloc"].add(fam)
                    rep.count("system allocations checked", 1, "%s %s" % (fn.disp, e.loc()))
                    al = num(e.args[ai]) if ai is not None and ai < len(e.args) else None
                    if ai is None or al is None and (ai >= len(e.args)) : rep.violation(site(e, "alignment"), e.loc(), "%s does not ask %s for any alignment" % (fn.disp, e.qn))
                    elif al is None: raise Broken("alignment argument %s is not a constant" % show(e.args[ai]))
                    elif al % align: rep.violation(site(e, "alignment"), e.loc(), "%s asks %s for alignment %d instead of %d" % (fn.disp, e.qn, al, align))
                    st = e.args[si]
                    if st[0] == "v" and (st in dict(mul)): st = dict(mul)[st]
                    ovf = ub if st != "checked" else None
                    try:
                        if st == "checked": pass
                        else:
                            for n in list(range(1, 130)) + [1000003]:
                                if ub is not None and n > ub: break
                                if ev(st, n) < n * size: rep.violation(site(e, "size"), e.loc(), "%s asks for %d bytes for %d elements of %d bytes" % (fn.disp, ev(st, n), n, size)); break
                            for n in [MAX if ub is None else ub, max(1, (MAX if ub is None else ub) - 1)]:
                                try: ok = ev(st, n) >= n * size
                                except Wrap: ok = False
                                if not ok:
                                    rep.violation(site(e, "overflow"), e.loc(), "%s computes the size in bytes without having refused counts for which it wraps around (up to %s elements of %d bytes)" % (fn.disp, n, size)); break
                    except KeyError as k:
                        raise Broken("size expression %s not understood" % show(st))
                    except Wrap:
                        rep.violation(site(e, "overflow"), e.loc(), "%s computes a size in bytes that wraps around" % fn.disp)
                    k = ("call", e.qn, e.obj, tuple(e.args))
                    out = frozenset((0, 1))
                    if fam in ("new", "new[]") and not any("nothrow" in show(a) for a in e.args): out = frozenset((1,))
                    if e.qn == "posix_memalign":
                        k = e.args[0][1] if e.args[0][0] == "addr" else e.args[0]
                        A = frozenset(x for x in A if x[0] != ("status", e.qn)) | {(("call", e.qn, e.obj, tuple(e.args)), ("status", k))}
                    R = frozenset(x for x in R if x[0] != k) | {(k, out)}
                if e.kind in ("call", "icall") and e.qn in ("__builtin_mul_overflow", "__builtin_umull_overflow") and len(e.args) == 3 and e.args[2][0] == "addr":
                    mul = mul | {(e.args[2][1], ("op", "*", e.args[0], e.args[1]))}
                if e.kind in ("decl", "assign") and e.rhs is not None and (e.kind == "decl" or e.op == "="):
                    k = find(A, R, e.rhs)
                    if k: A = frozenset(x for x in A if x[0] != e.lhs) | {(e.lhs, k)}
                if e.kind == "return" and e.ctx.parent is None:
                    rep.count("returned pointers checked", 1, "%s %s" % (fn.disp, e.loc()))
                    t = e.term; k = find(A, R, t)
                    if k is not None and k[0] == "status": k = None
                    if k is not None and dict(R).get(k) is not None:
                        if 0 in dict(R)[k]: rep.violation(site(e, "null"), e.loc(), "%s can hand out the result of an allocation that failed" % fn.disp)
                    elif t == ("null",) or num(t) == 0:
                        if not (zero or ub == 0): rep.violation(site(e, "nullreturn"), e.loc(), "%s returns null for a request that is not empty" % fn.disp)
                    elif t[0] == "ret": pass
                    else: rep.violation(site(e, "pointer"), e.loc(), "%s returns %s, which is not the allocated memory" % (fn.disp, show(t)))
                return (ub, zero, R, A, mul)
            def br(t, pol, s, view):
                if isinstance(pol, tuple): return s
                ub, zero, R, A, mul = s; d = dict(R)
                for a, p in conjuncts(t, pol):
                    if a[0] == "call" and a[1] in ("__builtin_mul_overflow", "__builtin_umull_overflow"):
                        if not p:
                            out = a[3][2][1] if a[3][2][0] == "addr" else None
                            prod = ("op", "*", a[3][0], a[3][1])
                            try:
                                if ev(prod, 1) >= size and ev(prod, 7) >= 7 * size: mul = frozenset(x for x in mul if x[0] != out) | {(out, "checked")}
                            except KeyError: pass
                        continue
                    rel = relation(a, p)
                    if rel is None:
                        if a == ("p", 0):
                            if p and ub == 0: return None
                            if not p: zero = True; ub = 0
                            continue
                        k = find(A, R, a)
                        if k is not None and k[0] == "status":
                            k2 = k[1]; ok = frozenset(r for r in d.get(k2, ()) if (r == 0) == p)
                            if not ok: return None
                            d[k2] = ok
                        elif k in d:
                            ok = frozenset(r for r in d[k] if bool(r) == p)
                            if not ok: return None
                            d[k] = ok
                        continue
                    op, x, y = rel
                    if x[0] == "c" or y == ("p", 0) : op, x, y = SWAP[op], y, x
                    if x == ("p", 0) and num(y) is not None:
                        v = num(y) & MAX
                        if op == "==":
                            if v == 0: zero = True
                            ub = v if ub is None else min(ub, v)
                        elif op == "<=": ub = v if ub is None else min(ub, v)
                        elif op == "<": ub = v - 1 if ub is None else min(ub, v - 1)
                        elif op == ">" and v >= MAX: return None
                        if ub is not None and ub < 0: return None
                        continue
                    # n * size > MAX and the like never hold; n > MAX / k is covered above when folded
                    if x[0] == "op" and x[1] == "/" and x[3] == ("p", 0) and num(x[2]) is not None and op in ("<", ">=", ">", "<="):
                        # MAX / n < size refused  <=>  n <= MAX / size on the other branch
                        v = num(y)
                        if v and op == ">=": ub = min(ub if ub is not None else MAX, (num(x[2]) & MAX) // v)
                        continue
                    k = find(A, R, x)
                    if k is not None and (y == ("null",) or num(y) == 0) and op in ("==", "!="):
                        st = False
                        if k[0] == "status": k = k[1]; st = True
                        want0 = (op == "==") != st
                        ok = frozenset(r for r in d.get(k, ()) if (r == 0) == want0)
                        if not ok: return None
                        d[k] = ok
                return (ub, zero, frozenset(d.items()), A, mul)
            x = Explorer(g, (None, False, frozenset(), frozenset(), frozenset()), tr, br).run()
            if fn.raw.get("nothrow") and x.at_throw: rep.violation(site(None, "noexcept"), fn.loc(), "%s is noexcept but reports failure by an exception" % fn.disp)
        else:
            rep.count("deallocate instances", 1, fn.disp)
            def tr2(e, s, view):
                if e.kind == "call" and e.qn in FREE:
                    fams["free"].add(FREE[e.qn])
                    rep.count("releases checked", 1, "%s %s" % (fn.disp, e.loc()))
                    if e.args[0] != ("p", 0): rep.violation(REC + "::deallocate:pointer", e.loc(), "%s releases %s instead of the pointer it was given" % (fn.disp, show(e.args[0])))
                    if s == "freed": rep.violation(REC + "::deallocate:twice", e.loc(), "%s can release the memory twice" % fn.disp)
                    return "freed"
                if e.kind == "delete": fams["free"].add("new"); return "freed"
                if e.kind == "leave" and e.ctx.parent is None and s == "held": rep.violation(REC + "::deallocate:leak", fn.loc(), "%s can return without having released the memory" % fn.disp)
                return s
            def br2(t, pol, s, view):
                if isinstance(pol, tuple): return s
                for a, p in conjuncts(t, pol):
                    r = relation(a, p)
                    if r and ("p", 0) in r[1:] and (("null",) in r[1:] or ("c", 0) in r[1:]) and r[0] == "==": return "null"
                    if a == ("p", 0) and not p: return "null"
                    if r and ("p", 1) in r[1:] and ("c", 0) in r[1:] and r[0] == "==": return "null"
                return s
            Explorer(g, "held", tr2, br2).run()
    rep.need("allocate instances", 3); rep.need("deallocate instances", 3); rep.need("system allocations checked", 3); 
    if not fams["free"]: rep.violation(REC + "::deallocate:none", "include/dottorrent/aligned_allocator.hpp", "deallocate calls no release function")
    if fams["alloc"] != fams["free"] and fams["free"]:
        rep.violation(REC + ":pairing", "include/dottorrent/aligned_allocator.hpp", "memory obtained from %s is released by the counterpart of %s" % ("/".join(sorted(fams["alloc"])), "/".join(sorted(fams["free"]))))
    witness.apply(rep, WIT, WHAT, "include/dottorrent/aligned_allocator.hpp")
    rep.assume("the system's allocation functions honour their size and alignment arguments")


WHAT = {"equal": "allocators of one type do not compare equal although they are interchangeable", "unequal": "operator!= is not the negation of operator==",
        "max": "max_size exceeds the number of elements whose size in bytes can be represented", "rebind": "rebinding loses the alignment"}
WIT = r'''
#include <memory>
#include <new>
#include <stdexcept>
#include <algorithm>
#include "dottorrent/aligned_allocator.hpp"
struct odd { char c[24]; };
template <typename T, std::size_t A> using al = dottorrent::aligned_allocator<T, A>;
template <typename T, std::size_t A> constexpr bool eq() { al<T, A> a, b; al<T, A> c(a); return a == b && a == c && b == a; }
template <typename T, std::size_t A> constexpr bool ne() { al<T, A> a, b; return (a != b) == !(a == b); }
template <typename T, std::size_t A> constexpr bool mx() { return al<T, A>().max_size() <= static_cast<std::size_t>(-1) / sizeof(T) && al<T, A>().max_size() > 0; }
template <typename T, std::size_t A> constexpr bool rb() { return std::is_same_v<typename std::allocator_traits<al<T, A>>::template rebind_alloc<short>, al<short, A>>; }
static_assert(eq<char, 16>() && eq<long, 64>() && eq<odd, 32>(), "VF:equal");
static_assert(ne<char, 16>() && ne<long, 64>() && ne<odd, 32>(), "VF:unequal");
static_assert(mx<char, 16>() && mx<long, 64>() && mx<odd, 32>(), "VF:max");
static_assert(rb<char, 16>() && rb<long, 64>() && rb<odd, 32>(), "VF:rebind");
'''
