"""Witnesses of P23: short links, both ways, decided by the compiler's front end."""
import os
import witness
from facts import REPO, Broken

HEAD = r'''
#include <algorithm>
#include <array>
#include <charconv>
#include <chrono>
#include <cmath>
#include <compare>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#include <fmt/format.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#include <dottorrent/metafile.hpp>
namespace std {
template <class T> struct vf_set { using value_type = T; using const_iterator = typename std::vector<T>::const_iterator; using iterator = const_iterator; using size_type = std::size_t; std::vector<T> v;
  constexpr vf_set() {}
  constexpr bool contains(const T& x) const { for (auto& y : v) if (y == x) return true; return false; }
  constexpr std::size_t count(const T& x) const { return contains(x); }
  template <class... A> constexpr std::pair<const_iterator, bool> emplace(A&&... a) { T x(std::forward<A>(a)...); for (auto i = v.begin(); i != v.end(); ++i) if (*i == x) return {i, false}; v.push_back(std::move(x)); return {v.end() - 1, true}; }
  template <class A> constexpr auto insert(A&& a) { return emplace(std::forward<A>(a)); }
  constexpr bool empty() const { return v.empty(); } constexpr std::size_t size() const { return v.size(); } constexpr void clear() { v.clear(); }
  constexpr const_iterator begin() const { return v.begin(); } constexpr const_iterator end() const { return v.end(); } constexpr const_iterator cbegin() const { return v.begin(); } constexpr const_iterator cend() const { return v.end(); }
};
}
#define unordered_set vf_set
namespace dottorrent {
struct magnet_uri;
template <std::output_iterator<char> OutputIterator> inline void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out);
namespace detail {
inline std::vector<std::string_view> split_query_string(std::string_view);
inline std::pair<std::string_view, std::string_view> split_key_value_pair(std::string_view);
inline std::vector<std::string_view> split_keywords_string(std::string_view);
}
inline std::string encode_magnet_uri(const magnet_uri& magnet);
inline magnet_uri make_magnet_uri(std::string_view uri);
}
#include "@SRC@"
using namespace dottorrent;
namespace {
using sv = std::string_view;
using texts = std::vector<std::string>;
// the reference: percent coding of RFC 3986
constexpr bool plain(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '.' || c == '_' || c == '~'; }
constexpr int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
constexpr std::string enc(sv s) { std::string r; for (char c : s) if (plain(c)) r += c; else { r += '%'; r += "0123456789ABCDEF"[(c & 255) >> 4]; r += "0123456789ABCDEF"[c & 15]; } return r; }
constexpr std::string dec(sv s) { std::string r; for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { r += char(digit(s[i + 1]) * 16 + digit(s[i + 2])); i += 2; } else r += s[i]; return r; }
constexpr texts cut(sv s, char at) { texts r; std::size_t b = 0; for (std::size_t i = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == at) { if (i > b) r.emplace_back(s.substr(b, i - b)); b = i + 1; } return r; }
struct link { texts xt, tr, ws, as, kt, pe; std::string dn, xs, mt; std::size_t xl = 0; };
constexpr const char* VALUES[] = {"a", "b c", "100%41&x=y+z", "http://tracker.example.org:80/announce?q=1&r=%20", "\xc3\xa9#\"<>", "%"};
constexpr std::size_t SIZES[] = {1, 9, 10, 4294967296ull, 18446744073709551615ull};
// field number f set to the value number k; n values where there may be several
constexpr void set(link& l, int f, int k, int n) {
  std::string v = VALUES[k % 6], w = VALUES[(k + 1) % 6], x = VALUES[(k + 2) % 6];
  texts t; if (n > 0) t.push_back(v); if (n > 1) t.push_back(w); if (n > 2) t.push_back(x);
  switch (f) {
    case 0: l.xt = n > 1 ? texts{"urn:btih:0123456789abcdef0123456789abcdef01234567", "urn:btmh:1220aa"} : texts{"urn:btih:0123456789abcdef0123456789abcdef01234567"}; break;
    case 1: l.dn = v; break; case 2: l.xl = SIZES[k % 5]; break; case 3: l.tr = t; break; case 4: l.ws = t; break; case 5: l.as = t; break;
    case 6: l.xs = v; break; case 7: l.kt = t; break; case 8: l.mt = v; break; default: l.pe = t; } }
constexpr magnet_uri make(const link& l) {
  magnet_uri m;
  for (auto& x : l.xt) m.add_topic(x);
  if (!l.dn.empty()) m.set_display_name(sv(l.dn));
  if (l.xl) m.set_size(l.xl);
  for (auto& x : l.tr) m.add_tracker(sv(x));
  for (auto& x : l.ws) m.add_web_seed(sv(x));
  for (auto& x : l.as) m.add_acceptable_source(sv(x));
  if (!l.xs.empty()) m.set_exact_source(l.xs);
  for (auto& x : l.kt) m.add_keyword(sv(x));
  if (!l.mt.empty()) m.set_manifest(sv(l.mt));
  for (auto& x : l.pe) { std::string y = x; m.add_peer_address(std::move(y)); }
  return m; }
constexpr bool matches(const magnet_uri& m, const link& l) {
  if (m.topics() != l.xt || m.display_name() != l.dn || m.size() != l.xl || m.trackers() != l.tr || m.web_seeds() != l.ws || m.acceptable_sources() != l.as || m.exact_source() != l.xs || m.manifest() != l.mt || m.peer_adresses() != l.pe) return false;
  if (m.keywords().size() != l.kt.size()) return false;
  for (auto& k : l.kt) if (!m.keywords().contains(k)) return false;
  return true; }
constexpr std::string number(std::size_t n) { std::string r; do r.insert(r.begin(), char('0' + n % 10)); while (n /= 10); return r; }
// what a text says, read by the reference
constexpr bool says(sv s, const link& l) {
  if (s.substr(0, 8) != "magnet:?") return false;
  link g; bool size = false;
  for (auto& p : cut(s.substr(8), '&')) {
    auto e = sv(p).find('='); if (e == sv::npos) return false;
    sv k = sv(p).substr(0, e), v = sv(p).substr(e + 1);
    for (char c : v) if (c == '=' || c == ' ' || c == '#' || c < 0) return false;
    if (k == "xt") g.xt.emplace_back(v); else if (k == "dn") g.dn += dec(v); else if (k == "tr") g.tr.push_back(dec(v)); else if (k == "ws") g.ws.push_back(dec(v)); else if (k == "as") g.as.push_back(dec(v));
    else if (k == "xs") g.xs += dec(v); else if (k == "mt") g.mt += dec(v); else if (k == "x.pe") g.pe.push_back(dec(v)); else if (k == "kt") { for (auto& w : cut(v, '+')) g.kt.push_back(dec(w)); }
    else if (k == "xl") { if (size || v != number(l.xl)) return false; size = true; g.xl = l.xl; } else return false; }
  return matches(make(g), l) && g.kt.size() == l.kt.size(); }
constexpr std::string text(const link& l, bool backwards) {
  std::vector<std::string> p; 
  for (auto& x : l.xt) p.push_back("xt=" + x); if (!l.dn.empty()) p.push_back("dn=" + enc(l.dn)); if (l.xl) p.push_back("xl=" + number(l.xl));
  for (auto& x : l.tr) p.push_back("tr=" + enc(x)); for (auto& x : l.ws) p.push_back("ws=" + enc(x)); for (auto& x : l.as) p.push_back("as=" + enc(x));
  if (!l.xs.empty()) p.push_back("xs=" + enc(l.xs));
  if (!l.kt.empty()) { std::string k = "kt="; for (std::size_t i = 0; i < l.kt.size(); ++i) k += (i ? "+" : "") + enc(l.kt[i]); p.push_back(k); }
  if (!l.mt.empty()) p.push_back("mt=" + enc(l.mt)); for (auto& x : l.pe) p.push_back("x.pe=" + enc(x));
  std::string r = "magnet:?"; bool first = true;
  if (backwards) { // the parameters in another order, the values of each one in theirs
    std::vector<std::string> q; while (!p.empty()) { auto k = cut(p.back(), '=')[0]; std::vector<std::string> rest; for (auto& x : p) if (cut(x, '=')[0] == k) q.push_back(x); else rest.push_back(x); p = rest; } p = q; }
  for (auto& x : p) { if (!first) r += '&'; first = false; r += x; }
  return r; }
template <class F> constexpr bool links(F f) {
  if (!f(link{})) return false;
  for (int a = 0; a < 10; ++a) for (int k = 0; k < 6; ++k) for (int n = 1; n < 4; ++n) { link l; set(l, 0, 0, 1); set(l, a, k, n); if (!f(l)) return false; }
  for (int a = 1; a < 10; ++a) for (int b = a + 1; b < 10; ++b) for (int k = 0; k < 2; ++k) { link l; if (k) set(l, 0, 0, 2); set(l, a, a + k, 1 + k); set(l, b, b + k, 2 - k); if (!f(l)) return false; }
  for (int k = 0; k < 6; ++k) { link l; for (int a = 0; a < 10; ++a) set(l, a, a + k, 2); if (!f(l)) return false; }
  return true; }
constexpr bool t_write() { return links([](const link& l) { return says(encode_magnet_uri(make(l)), l); }); }
constexpr bool t_read() { return links([](const link& l) { return matches(make_magnet_uri(sv(text(l, false))), l); }); }
constexpr bool t_any() { return links([](const link& l) { return matches(make_magnet_uri(sv(text(l, true))), l); }); }
static_assert(t_write(), "VF:write");
static_assert(t_read(), "VF:read");
static_assert(t_any(), "VF:read-any-order");
}
'''
WHAT = {"write": "encode_magnet_uri does not write exactly the fields that are set, each under its name and decodable to its value", "read": "make_magnet_uri does not restore the fields of a link",
        "read-any-order": "make_magnet_uri does not restore the fields of a link whose parameters come in another order"}


def run(rep):
    src = REPO + "/src/magnet_uri.cpp"
    if not os.path.exists(src): rep.assume("src/magnet_uri.cpp not found, no witnesses over short links"); return
    try: witness.apply(rep, HEAD.replace("@SRC@", src), WHAT, {"": "src/magnet_uri.cpp", "write": "include/dottorrent/magnet_uri.hpp"})
    except Broken as e: rep.assume("the witnesses over short links could not be evaluated: %s" % str(e)[:400])
