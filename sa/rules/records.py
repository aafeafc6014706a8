"""P33: plain records: construction, positional access, text form; parse errors; list of backends."""
import re
import facts, witness, texts
from facts import Broken, REPO
from ir import Graph, Explorer, show, subterms

NODE = r'''
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <fmt/format.h>
#include "dottorrent/%(hdr)s"
namespace vf {
using R = dottorrent::%(rec)s;
constexpr std::string_view urls[] = { "", "a", "router.example.org", "2001:db8::1", "a-text-that-does-not-fit-into-the-small-buffer-of-a-string.example.org:with:colons/and?more" };
constexpr unsigned long long nums[] = { 0, 1, 2, 255, 256, 6881, 32767, 32768, 65534, 65535 };
constexpr bool made() { for (auto u : urls) for (auto n : nums) { const R r(u, static_cast<decltype(R::%(num)s)>(n)); if (r.url != u || r.%(num)s != n) return false; } return true; }
static_assert(made(), "VF:made");
static_assert(std::tuple_size_v<R> == 2, "VF:size");
static_assert(std::is_same_v<std::remove_cvref_t<std::tuple_element_t<0, R>>, std::string> && std::is_same_v<std::remove_cvref_t<std::tuple_element_t<1, R>>, decltype(R::%(num)s)>, "VF:types");
static_assert(sizeof(R::%(num)s) >= %(least)d && std::is_unsigned_v<decltype(R::%(num)s)>, "VF:range");
%(more)s
}
'''
WHAT = {"made": "an object made from a text and a number does not hold exactly them", "size": "the object does not count as having two parts",
        "types": "tuple_element names the type of another part", "range": "the number's type does not cover its range", "fresh": "a default-constructed node is not empty"}
USE = r'''
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <fmt/format.h>
#include "dottorrent/dht_node.hpp"
#include "dottorrent/announce_url.hpp"
namespace vf {
const void* dht_node_0_const(const dottorrent::dht_node& r) { return &get<0>(r); }
const void* dht_node_1_const(const dottorrent::dht_node& r) { return &get<1>(r); }
void* dht_node_0_mut(dottorrent::dht_node& r) { return &get<0>(r); }
void* dht_node_1_mut(dottorrent::dht_node& r) { return &get<1>(r); }
const void* announce_url_0_const(const dottorrent::announce_url& r) { return &get<0>(r); }
const void* announce_url_1_const(const dottorrent::announce_url& r) { return &get<1>(r); }
void* announce_url_0_mut(dottorrent::announce_url& r) { return &get<0>(r); }
void* announce_url_1_mut(dottorrent::announce_url& r) { return &get<1>(r); }
}
'''


def access(rep):
    """get<N> yields the N-th member itself."""
    try: P = facts.load([("records", USE)], ["DOTTORRENT_USE_OPENSSL"])
    except Broken as e:
        facts.load([("records", USE[:USE.index("namespace vf")])], ["DOTTORRENT_USE_OPENSSL"])       # the headers themselves must be in order
        rep.violation("access", "include/dottorrent/dht_node.hpp", "get<0>/get<1> of a DHT node or an announce URL cannot be used, or gives no reference to the member (%s)" % str(e)[:300]); return
    for fn in P.funcs.values():
        if not fn.qn.endswith("::get") or not fn.blocks or not fn.raw.get("targs") or "v" not in fn.raw["targs"][0]: continue
        m = re.fullmatch(r"(const )?dottorrent::(dht_node|announce_url) &", " ".join(P.ts(v["t"]) for v in fn.vars.values() if v.get("k") == "param"))
        N = int(fn.raw["targs"][0]["v"])
        if not m or N > 1: continue
        cst, rec = m.group(1) or "", m.group(2)
        want = [["url", "port"], ["url", "tier"]][rec == "announce_url"][N]
        key = "%s:get%d:%s" % (rec, N, cst)
        g = Graph(P, fn)
        def tr(ev, s, view):
            if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
                t = g.T(ev.ctx, ev.raw["c"][0], {}) if ev.raw and ev.raw.get("c") else ev.term
                while t[0] in ("conv", "addr", "ret"):
                    if t[0] == "ret":
                        r = g._static_ret(g.ctxs[t[1]], {})
                        if r == t: break
                        t = r
                    else: t = t[1]
                rep.count("positional accesses", 1, "get<%d>(%s%s) -> %s" % (N, cst, rec, show(t)))
                if t[0] == "f" and t[1] == ("p", 0):
                    if t[2] != want: rep.violation(key, ev.loc(), "get<%d> of a %s%s refers to its %s instead of its %s" % (N, cst, rec, t[2], want))
                elif t[0] == "v" and t[1] >= 0 and g.ctxs[t[1]].fn.vars.get(t[2], {}).get("k") in ("local", "static") and not P.types[g.ctxs[t[1]].fn.vars[t[2]]["t"]].get("ref"):
                    rep.violation(key, ev.loc(), "get<%d> of a %s%s refers to another object than the member" % (N, cst, rec))
            return s
        Explorer(g, 0, tr).run()
    rep.need("positional accesses", 8)


def text_of(rep, P, fn, want, label):
    """The text a function returns is made of the wanted pieces, in order."""
    g = Graph(P, fn)
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
            fr = texts.flatten(g, ev.term)
            desc = []
            for f in fr:
                if f[0] == "t": desc.append(f[1])
                elif f[0] == "v" and f[1][0] == "f" and f[1][1] == ("this",): desc.append("<%s>" % f[1][2])
                else: rep.count("texts not followed", 1, show(ev.term)); rep.count("text forms", 1, fn.disp + ": not followed"); return s
            got = "".join(desc)
            rep.count("text forms", 1, "%s: %s" % (fn.disp, got))
            if got != want: rep.violation("%s:text" % fn.qn, ev.loc(), "%s gives the text %s instead of %s" % (fn.disp, got, want))
        return s
    Explorer(g, 0, tr).run()


def check_P33(rep):
    rep.rule("Compile-fail witnesses: for DHT nodes and announce URLs, objects made from any of a set of texts and numbers hold exactly them, get<0>/get<1> (constant and not) refer to the members themselves, tuple_size/tuple_element and structured bindings name both parts in order. Dataflow over the fragments of the returned text: a node reads host, colon, port; "
             "the message of a parse error contains the field and the reason it was given; every cryptographic library compiled in is listed under its own name with its version.")
    for rec, hdr, num, least, more in (("dht_node", "dht_node.hpp", "port", 2, 'constexpr bool fresh() { R r{}; return r.url.empty() && r.port == 0; }\nstatic_assert(fresh(), "VF:fresh");'), ("announce_url", "announce_url.hpp", "tier", 4, "")):
        text = NODE % dict(rec=rec, hdr=hdr, num=num, least=least, more=more)
        text = re.sub(r'"VF:([\w-]+)"', lambda m: '"VF:%s.%s"' % (rec, m.group(1)), text)
        witness.apply(rep, text, {"%s.%s" % (rec, k): "%s: %s" % (rec, v) for k, v in WHAT.items()}, "include/dottorrent/" + hdr)
    rep.need("assertions decided", 8)
    access(rep)
    P = facts.core()
    conv = [f for f in P.funcs.values() if f.rec == "dottorrent::dht_node" and f.qn.split("::")[-1].startswith("operator ") and f.blocks]
    for f in conv: text_of(rep, P, f, "<url>:<port>", "node")
    # message of a parse error
    Q = P
    pe = [f for f in P.funcs.values() if f.rec == "dottorrent::parse_error" and f.kind == "ctor" and f.blocks and sum(1 for v in f.vars.values() if v.get("k") == "param") == 2]
    for f in pe:
        g = Graph(P, f)
        prm = [i for i, v in f.vars.items() if v.get("k") == "param"]
        isp = lambda t, i: t == ("p", i) or t[0] == "v" and t[1] == 0 and t[2] == prm[i]
        def tr(ev, s, view):
            if ev.kind in ("ctor", "ictor") and ev.ctx.parent is None and (ev.rec or "") == "std::runtime_error" and ev.args:
                fr = texts.flatten(g, ev.args[0])
                rep.count("error texts", 1, show(ev.args[0]))
                if all(x[0] == "t" or x[0] == "v" and (isp(x[1], 0) or isp(x[1], 1)) for x in fr):
                    for i, nm in ((0, "the name of the field"), (1, "the reason")):
                        if not any(x[0] == "v" and isp(x[1], i) for x in fr):
                            rep.violation("%s:%d" % (f.qn, i), ev.loc(), "the message of a parse error does not contain %s it was given" % nm)
            return s
        Explorer(g, 0, tr).run()
    # list of backends
    cb = [f for f in P.funcs.values() if f.qn == "dottorrent::cryptographic_backends" and f.blocks]
    if not cb: raise Broken("cryptographic_backends() not found")
    for f in cb:
        g = Graph(P, f)
        names = set(); vals = []
        def tr(ev, s, view):
            ts = [t for t in [getattr(ev, "term", None), getattr(ev, "lhs", None), getattr(ev, "rhs", None)] + list(getattr(ev, "args", None) or []) if t]
            for t in ts:
                for x in subterms(t):
                    if x[0] == "str": names.add(x[1])
            if ev.kind == "assign" and ev.lhs and ev.lhs[0] == "idx" and ev.rhs is not None:
                k = [x[1] for x in subterms(ev.lhs[2]) if x[0] == "str"]; v = [x[1] for x in subterms(ev.rhs) if x[0] == "str"]
                if k == ["openssl"] and v:
                    vals.append(v[0])
                    if not re.search(r"SSL.*\d+\.\d+", v[0]): rep.violation("%s:version" % f.qn, ev.loc(), "the version listed for openssl is the text '%s'" % v[0])
                elif len(k) == 1 and v and "OpenSSL" in v[0]: rep.violation("%s:name" % f.qn, ev.loc(), "the version of OpenSSL is listed under the name '%s'" % k[0])
            if ev.kind == "call" and ev.m in ("clear", "erase", "extract") and ev.rec == "std::map": rep.violation("%s:removed" % f.qn, ev.loc(), "entries of the list of backends are removed again")
            return s
        Explorer(g, 0, tr).run()
        rep.count("backend lists", 1, "%s" % sorted(names))
        if names and "openssl" not in names: rep.violation("%s:openssl" % f.qn, f.loc(), "the list of cryptographic backends does not name openssl although it is compiled in")
    rep.need("text forms" if conv else "backend lists", 1)
