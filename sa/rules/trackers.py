"""P37: an announce list is the collection of trackers put into it (and the witnesses of P24 about its order)."""
import os, re
import witness
from facts import REPO

HEAD = r'''
#include <algorithm>
#include <compare>
#include <cstddef>
#include <initializer_list>
#include <numeric>
#include <ranges>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#undef Expects
#undef Ensures
#undef gsl_Expects
#undef gsl_Ensures
constexpr void vf_contract(bool b) { int ok[1] = {0}; if (!b) ++ok[1]; }
#define Expects(x) vf_contract(static_cast<bool>(x))
#define gsl_Expects(x) vf_contract(static_cast<bool>(x))
#define Ensures(x) vf_contract(static_cast<bool>(x))
#define gsl_Ensures(x) vf_contract(static_cast<bool>(x))
namespace dottorrent { class announce_url_list; inline std::vector<std::vector<std::string>> as_nested_vector(const announce_url_list& announces); }
#include "dottorrent/announce_url.hpp"
#include "dottorrent/announce_url_list.hpp"
@NESTED@
using namespace dottorrent;
namespace {
using pt = std::pair<std::size_t, std::string>;
struct model { std::vector<pt> v;
    constexpr std::size_t tiers() const { std::size_t n = 0; for (auto& x : v) if (x.first + 1 > n) n = x.first + 1; return n; }
    constexpr void add(std::size_t t, std::string_view u) { v.insert(std::upper_bound(v.begin(), v.end(), pt(t, u)), pt(t, u)); }
    constexpr void del(std::size_t i) { auto t = v[i].first; v.erase(v.begin() + i); bool any = false; for (auto& x : v) any |= x.first == t; if (!any) for (auto& x : v) if (x.first > t) --x.first; }
};
constexpr std::string_view A = "a", B = "http://tracker.example.org/announce/b", C = "http://tracker.example.org/announce/c", D = "zz";
constexpr announce_url_list start(int k, model& m) {
    if (k == 0) return announce_url_list();
    if (k == 1) { m.add(0, B); m.add(0, A); m.add(1, C); return announce_url_list{{std::string(B), std::string(A)}, {std::string(C)}}; }
    if (k == 2) { m.add(0, C); m.add(1, B); m.add(2, A); return announce_url_list{{std::string(C)}, {std::string(B)}, {std::string(A)}}; }
    m.add(0, A); m.add(1, A); m.add(1, D); m.add(1, B); m.add(2, A); m.add(2, C);
    return announce_url_list{{std::string(A)}, {std::string(A), std::string(D), std::string(B)}, {std::string(C), std::string(A)}};
}
constexpr bool is(const announce_url& a, const pt& x) { return a.tier == x.first && std::string_view(a.url) == std::string_view(x.second); }
/* applies an operation to both; false when what the list hands back is wrong */
constexpr int OPS = 11;
constexpr bool step(int op, announce_url_list& l, model& m) {
    auto at = [&](auto it, std::size_t i) { return i == m.v.size() ? it == l.end() : it == l.begin() + i; };
    switch (op) {
    case 0: { announce_url x(B, 0); auto it = l.insert(x); m.add(0, B); return it != l.end() && is(*it, pt(0, B)); }
    case 1: { auto t = m.tiers(); auto it = l.insert(announce_url(A, t)); m.add(t, A); return it != l.end() && is(*it, pt(t, A)); }
    case 2: { auto t = m.tiers(); auto it = l.emplace(C, t); m.add(t, C); return it != l.end() && is(*it, pt(t, C)); }
    case 3: { auto t = m.tiers() ? m.tiers() - 1 : 0; auto it = l.emplace(A, t); m.add(t, A); return it != l.end() && is(*it, pt(t, A)); }
    case 4: { if (m.v.empty()) return true; auto it = l.erase(l.begin()); m.del(0); return at(it, 0); }
    case 5: { if (m.v.empty()) return true; auto it = l.erase(l.end() - 1); m.del(m.v.size() - 1); return it == l.end(); }
    case 6: { if (m.v.size() < 2) return true; auto it = l.erase(l.begin() + 1); m.del(1); return at(it, 1); }
    case 7: { if (m.v.empty()) return true; auto i = m.v.size() / 2; announce_url x(m.v[i].second, m.v[i].first); while (i && m.v[i - 1] == m.v[i]) --i; auto it = l.erase(x); m.del(i); return at(it, i); }
    case 8: { announce_url x("nowhere", 1); return l.erase(x) == l.end() && l.erase(l.end()) == l.end(); }
    case 9: { auto t = m.tiers() > 1 ? 1 : m.tiers(); const announce_url x(D, t); auto it = l.insert(x); m.add(t, D); return it != l.end() && is(*it, pt(t, D)); }
    default: { if (m.v.size() < 3) { l.clear(); m.v.clear(); return l.empty(); } auto it = l.erase(l.begin() + 2); m.del(2); return at(it, 2); }
    }
}
constexpr bool same(const announce_url_list& l, const model& m) {
    std::size_t i = 0; for (const auto& a : l) { if (i == m.v.size() || !is(a, m.v[i])) return false; ++i; } return i == m.v.size(); }
constexpr bool ordered(const announce_url_list& l) {
    const announce_url* p = nullptr; for (const auto& a : l) { if (p && (p->tier > a.tier || p->tier == a.tier && p->url > a.url)) return false; p = &a; } return true; }
constexpr bool dense(const announce_url_list& l) {
    std::size_t next = 0; for (const auto& a : l) { if (a.tier > next) return false; if (a.tier == next) ++next; } return true; }
/* every history of up to N operations, judged by f after each one */
template <class F> constexpr bool all(int n, const announce_url_list& l, const model& m, F f) {
    if (!f(l, m, true)) return false;
    if (n) for (int op = 0; op < OPS; ++op) { auto x = l; auto y = m; bool r = step(op, x, y); if (!f(x, y, r) || !all(n - 1, x, y, f)) return false; }
    return true;
}
template <class F> constexpr bool every(F f) {
    for (int k = 0; k < 4; ++k) { model m; auto l = start(k, m); if (!all(@DEPTH@, l, m, f)) return false; }
    return true; }
template <class F> constexpr bool some(F f) {
    for (int k = 0; k < 4; ++k) { model m; auto l = start(k, m); if (!all(1, l, m, f)) return false; }
    return true; }
'''

ORDER = r'''
constexpr bool t_order() { return every([](const announce_url_list& l, const model&, bool) { return ordered(l); }); }
constexpr bool t_dense() { return every([](const announce_url_list& l, const model&, bool) { return dense(l); }); }
static_assert(t_order(), "VF:order");
static_assert(t_dense(), "VF:dense");
'''

CONTENT = r'''
constexpr bool t_content() { return every([](const announce_url_list& l, const model& m, bool) { return same(l, m); }); }
constexpr bool t_result() { return every([](const announce_url_list&, const model&, bool r) { return r; }); }
constexpr bool t_size() { return some([](const announce_url_list& l, const model& m, bool) {
    if (l.size() != m.v.size() || l.empty() != m.v.empty() || l.tier_count() != m.tiers()) return false;
    for (std::size_t t = 0; t <= m.tiers() + 1; ++t) { std::size_t n = 0; for (auto& x : m.v) n += x.first == t; if (l.tier_size(t) != n) return false; }
    return true; }); }
constexpr bool t_access() { return some([](const announce_url_list& c, const model& m, bool) {
    auto l = c;
    if (m.v.empty()) return c.begin() == c.end() && l.begin() == l.end();
    if (!is(c.front(), m.v.front()) || !is(c.back(), m.v.back()) || !is(l.front(), m.v.front()) || !is(l.back(), m.v.back())) return false;
    for (std::size_t i = 0; i < m.v.size(); ++i) if (!is(c[i], m.v[i]) || !is(l[i], m.v[i]) || !is(c.at(i), m.v[i]) || !is(l.at(i), m.v[i]) || !is(c.data()[i], m.v[i]) || !is(l.data()[i], m.v[i])) return false;
    return true; }); }
constexpr bool t_tier() { return some([](const announce_url_list& c, const model& m, bool) {
    auto l = c;
    for (std::size_t t = 0; t <= m.tiers() + 1; ++t) {
        std::size_t b = 0, e = 0; for (auto& x : m.v) { b += x.first < t; e += x.first <= t; }
        auto p = c.get_tier(t); auto q = l.get_tier(t);
        if (p.first != c.begin() + b || p.second != c.begin() + e || q.first != l.begin() + b || q.second != l.begin() + e) return false;
        if (c.get_tier_begin(t) != c.begin() + b || c.get_tier_end(t) != c.begin() + e || l.get_tier_begin(t) != l.begin() + b || l.get_tier_end(t) != l.begin() + e) return false;
    }
    return true; }); }
constexpr bool t_find() { return some([](const announce_url_list& c, const model& m, bool) {
    auto l = c;
    for (std::string_view u : {A, B, C, D, std::string_view("http://tracker.example.org/announce/"), std::string_view("")}) {
        bool has = false; for (auto& x : m.v) has |= std::string_view(x.second) == u;
        auto p = c.find(u); auto q = l.find(u);
        if (has ? p == c.end() || std::string_view(p->url) != u || q == l.end() || std::string_view(q->url) != u : p != c.end() || q != l.end()) return false;
        if (c.contains(u) != has) return false;
        for (std::size_t t = 0; t <= m.tiers() + 1; ++t) {
            announce_url a(u, t); bool in = false; for (auto& x : m.v) in |= is(a, x);
            auto r = c.find(a); auto s = l.find(a);
            if (in ? r == c.end() || !(*r == a) || s == l.end() || !(*s == a) : r != c.end() || s != l.end()) return false;
            if (c.contains(a) != in) return false;
        }
    }
    return true; }); }
constexpr bool t_equal() {
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        model m, n; auto l = start(i, m); auto k = start(j, n);
        if ((l == k) != (i == j) || (m.v != n.v) != (i != j)) return false;
        if (((l <=> k) == 0) != (i == j) || ((l <=> k) < 0) != ((k <=> l) > 0)) return false;
    }
    return true; }
constexpr bool t_element() {
    announce_url a(B, 1), b(B, 1), c(B, 2), d(C, 1), e(C, 0), f(A);
    std::string_view s = a;
    return a == b && a != c && a != d && a < c && a < d && e < a && d < c && !(a < b) && f.tier == 0 && s == B; }
static_assert(t_content(), "VF:content");
static_assert(t_result(), "VF:result");
static_assert(t_size(), "VF:size");
static_assert(t_access(), "VF:access");
static_assert(t_tier(), "VF:tier");
static_assert(t_find(), "VF:find");
static_assert(t_equal(), "VF:equal");
static_assert(t_element(), "VF:element");
'''
NESTED = r'''
constexpr bool t_nested() { return some([](const announce_url_list& l, const model& m, bool) {
    auto r = as_nested_vector(l);
    if (r.size() != m.tiers()) return false;
    std::size_t i = 0;
    for (std::size_t t = 0; t < r.size(); ++t) for (auto& u : r[t]) { if (i == m.v.size() || m.v[i].first != t || m.v[i].second != u) return false; ++i; }
    return i == m.v.size(); }); }
static_assert(t_nested(), "VF:nested");
'''
WHAT = {"order": "a history of insertions and removals leaves the trackers out of order", "dense": "a history of insertions and removals leaves a gap in the tier numbers, or renumbers a tier that still has trackers",
        "content": "after a history of insertions and removals the list does not hold exactly the trackers that were put in and not taken out", "result": "an insertion or removal hands back the wrong position",
        "size": "size, tier count or tier size is not the number of trackers or tiers in the list", "access": "positions, front, back, at, [] or data do not give the trackers in their order",
        "tier": "a tier is not given as the range of the trackers that have its number", "find": "find or contains does not find exactly the trackers in the list", "equal": "lists are not equal exactly when they hold the same trackers",
        "element": "a tracker does not compare or convert by its tier and URL", "nested": "the nested form of the list is not the URLs of its tiers"}


def run(rep, body, depth):
    text = HEAD.replace("@DEPTH@", str(depth)) + body
    src = REPO + "/src/announce_url_list.cpp"
    if NESTED in text and os.path.exists(src): text = text.replace("@NESTED@", '#include "%s"' % src)
    else: text = text.replace("@NESTED@", "").replace(NESTED, "")
    where = {l: "include/dottorrent/announce_url_list.hpp" for l in WHAT}
    where["element"] = "include/dottorrent/announce_url.hpp"; where["nested"] = "src/announce_url_list.cpp"
    rep.count("histories judged", 4 * sum(11 ** k for k in range(depth + 1)), "four starting lists, every sequence of up to %d of eleven operations" % depth)
    witness.apply(rep, text + "}\n", WHAT, where)


def check_P37(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the list's own code, against an independent model (a sorted vector of tier and URL): after every history of up to %d operations (insert, emplace, erase by position and by value, clear) "
             "from four starting lists the list holds the trackers of the model, in order; sizes, tiers, lookups, comparison and the nested form answer for these trackers." % depth(rep))
    run(rep, CONTENT + NESTED, depth(rep))


def depth(rep): return 3 if rep.tier == "thorough" else 2
