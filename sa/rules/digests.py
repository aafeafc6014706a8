"""P38: digests and checksums are exactly the bytes they were made from."""
import re
import facts, witness
from facts import Broken, REPO

HEAD = r'''
#include <algorithm>
#include <array>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/checksum.hpp"
using namespace dottorrent;
namespace {
constexpr unsigned char at(std::size_t i, int s) { return static_cast<unsigned char>(i * 37 + s * 101 + 200); }
template <class B> struct mem { B* p; std::size_t n; constexpr mem(std::size_t k, int s) : p(new B[k ? k : 1]), n(k) { for (std::size_t i = 0; i < n; ++i) p[i] = static_cast<B>(at(i, s)); } constexpr ~mem() { delete[] p; }
  constexpr std::span<B> all() const { return {p, n}; } constexpr std::span<const B> view() const { return {p, n}; } };
constexpr std::string hexa(std::size_t n, int s, bool up = false) { std::string r; for (std::size_t i = 0; i < n; ++i) { r += (up ? "0123456789ABCDEF" : "0123456789abcdef")[at(i, s) >> 4]; r += (up ? "0123456789ABCDEF" : "0123456789abcdef")[at(i, s) & 15]; } return r; }
template <class R> constexpr bool is(const R& r, std::size_t n, int s) { std::size_t i = 0; for (auto& b : r) { if (i == n || static_cast<unsigned char>(b) != at(i, s)) return false; ++i; } return i == n; }
// digests
template <class H> constexpr bool t_make() {
  constexpr auto N = H::size_bytes;
  if (H::size_bits != 8 * N || H::size_hex != 2 * N) return false;
  H z{}; for (auto& b : z) if (b != std::byte(0)) return false;
  for (int s = 0; s < 3; ++s) {
    std::array<std::byte, N> a{}; for (std::size_t i = 0; i < N; ++i) a[i] = std::byte(at(i, s));
    mem<std::byte> b(N, s); mem<unsigned char> u(N, s); mem<char> c(N, s);
    H h[] = {H(a), H(b.view()), H(b.all()), H(u.view()), H(u.all()), H(c.view()), H(std::string_view(c.p, N)), make_hash_from_hex<H>(hexa(N, s)), make_hash_from_hex<H>(hexa(N, s, true))};
    for (auto& x : h) if (!is(x, N, s) || !is(x.value(), N, s) || !is(std::span<const std::byte>(x), N, s) || !is(std::span(x.data(), N), N, s) || x.size() != N || x.hex_string() != hexa(N, s) || !(x == h[0])) return false;
    for (std::size_t i = 0; i < N; ++i) { H y = h[0]; y.data()[i] ^= std::byte(0x80); if (y == h[0] || (y < h[0]) != (at(i, s) >= 0x80) || (y > h[0]) != (at(i, s) < 0x80)) return false; }
  }
  return true; }
template <class H, int K, int D> constexpr bool made() { constexpr std::size_t n = H::size_bytes + D;
  if constexpr (K == 0) { mem<std::byte> b(n, 0); (void)H(b.view()); } else if constexpr (K == 1) { mem<char> b(n, 0); (void)H(std::string_view(b.p, n)); } else if constexpr (K == 2) { mem<unsigned char> b(n, 0); (void)H(b.view()); }
  else if constexpr (K == 3) { std::string t = hexa(H::size_bytes, 0); if (D < 0) t.resize(t.size() + D); else t += std::string(D, '0'); (void)make_hash_from_hex<H>(t); }
  else { std::string t = hexa(H::size_bytes, 0); t[(D + 8) % t.size()] = K == 4 ? 'g' : K == 5 ? '/' : '\xc3'; (void)make_hash_from_hex<H>(t); }
  return true; }
template <class H, int K, int D> constexpr bool taken = requires { typename std::bool_constant<made<H, K, D>()>; };
template <class H> constexpr bool t_refuse() {
  // where the compiler cannot evaluate the right case inside a requirement, the wrong ones say nothing
  return (!taken<H, 0, 0> || !taken<H, 0, -1> && !taken<H, 0, 1>) && (!taken<H, 1, 0> || !taken<H, 1, -1> && !taken<H, 1, 1>) && (!taken<H, 2, 0> || !taken<H, 2, -1> && !taken<H, 2, 1>)
    && (!taken<H, 3, 0> || !taken<H, 3, -1> && !taken<H, 3, 1> && !taken<H, 3, -2> && !taken<H, 3, 2> && !taken<H, 4, 0> && !taken<H, 4, -8> && !taken<H, 5, 1> && !taken<H, 6, 2> && !taken<H, 4, -9 + 2 * int(H::size_bytes)>); }
// checksums
template <class C> constexpr bool looks(const C& c, hash_function f, std::string_view name, std::size_t n, int s) {
  return c.algorithm() == f && c.name() == name && c.size() == n && is(c.value(), n, s) && c.hex_string() == hexa(n, s); }
template <class H> constexpr bool t_check() {
  constexpr auto N = H::size_bytes; constexpr auto F = H::algorithm; auto name = to_string(F);
  for (int s = 0; s < 2; ++s) {
    mem<std::byte> b(N, s);
    auto a = make_checksum(name, b.view()); auto c = make_checksum(F, b.view());
    auto d = make_checksum_from_hex(name, hexa(N, s)); auto e = make_checksum_from_hex(F, hexa(N, s, true));
    for (auto* p : {a.get(), c.get(), d.get(), e.get()}) { if (!looks(*p, F, name, N, s) || !(*p == *a) || !is(const_cast<const checksum*>(p)->value(), N, s) || (*p <=> *a) != 0) return false; }
    for (std::size_t i = 0; i < N; i += 3) { c->value()[i] ^= std::byte(1); if (*c == *a || (*c <=> *a) == 0 || ((*c <=> *a) < 0) != ((at(i, s) & 1) != 0)) return false; c->value()[i] ^= std::byte(1); }
    generic_checksum g("other", b.view()); if (g == *a || *a == g || (g <=> *a) == 0) return false;
  }
  auto z = make_checksum(name); auto y = make_checksum(F);
  for (auto* p : {z.get(), y.get()}) { if (p->algorithm() != F || p->name() != name || p->size() != N || p->value().size() != N) return false; for (auto x : p->value()) if (x != std::byte(0)) return false; }
  return true; }
template <class H, int K, int D> constexpr bool summed() { constexpr std::size_t n = H::size_bytes + D;
  if constexpr (K == 0) { mem<std::byte> b(n, 0); (void)make_checksum(to_string(H::algorithm), b.view()); } else if constexpr (K == 1) { mem<std::byte> b(n, 0); (void)make_checksum(H::algorithm, b.view()); }
  else { std::string t = hexa(H::size_bytes, 0); if (D < 0) t.resize(t.size() + D); else t += std::string(D, '0'); if (K == 3) t[3] = 'g'; if (K == 4) t.back() = ' '; if constexpr (K == 2) (void)make_checksum_from_hex(H::algorithm, t); else (void)make_checksum_from_hex(to_string(H::algorithm), t); }
  return true; }
template <class H, int K, int D> constexpr bool sum_taken = requires { typename std::bool_constant<summed<H, K, D>()>; };
template <class H> constexpr bool t_sums() {
  return (!sum_taken<H, 0, 0> || !sum_taken<H, 0, -1> && !sum_taken<H, 0, 1>) && (!sum_taken<H, 1, 0> || !sum_taken<H, 1, -1> && !sum_taken<H, 1, 1>) && (!sum_taken<H, 2, 0> || !sum_taken<H, 2, -2> && !sum_taken<H, 2, 2> && !sum_taken<H, 2, 1> && !sum_taken<H, 3, 0> && !sum_taken<H, 4, 0>); }
constexpr bool t_generic() {
  for (std::size_t n : {0, 1, 5, 20, 33}) for (std::string_view k : {std::string_view("crc"), std::string_view("SHA-1 or so"), std::string_view("sha")}) {
    mem<std::byte> b(n, 1); mem<char> c(n, 1);
    auto m = make_checksum(k, b.view()); auto h = make_checksum_from_hex(k, hexa(n, 1)); generic_checksum g(k, b.view()), d(k, c.view());
    for (const checksum* p : {static_cast<const checksum*>(m.get()), static_cast<const checksum*>(h.get()), static_cast<const checksum*>(&g), static_cast<const checksum*>(&d)})
      if (p->name() != k || p->size() != n || !is(p->value(), n, 1) || p->hex_string() != hexa(n, 1) || !(*p == g)) return false;
    generic_checksum e(k); if (e.size() != 0 || e.name() != k || make_checksum(k)->name() != k || make_checksum(k)->size() != 0) return false;
    generic_checksum o("x", b.view()); if (o == g || (o <=> g) == 0) return false;
    if (n) { generic_checksum s(k, b.view().first(n - 1)); if (s == g || !((s <=> g) < 0)) return false; }
  }
  return true; }
'''
THROW = """static_assert(made<@_hash, 0, 1>(), "VF:must-throw-span-@");
static_assert(made<@_hash, 1, 1>(), "VF:must-throw-text-@");
static_assert(made<@_hash, 1, -1>(), "VF:must-throw-short-@");
static_assert(made<@_hash, 3, 2>(), "VF:must-throw-hex-@");
static_assert(summed<@_hash, 1, 1>(), "VF:must-throw-sum-@");
"""
ONE = '''constexpr bool pre_@ = [] { basic_checksum<@_hash> c; const checksum& r = c; return r.size() + r.name().size() + r.value().size() + r.hex_string().size() > 0; }();
static_assert(t_make<@_hash>(), "VF:make-@");
static_assert(t_refuse<@_hash>(), "VF:refuse-@");
static_assert(t_check<@_hash>(), "VF:sum-@");
static_assert(t_sums<@_hash>(), "VF:sum-refuse-@");
'''

ALL = ["md4", "md5", "blake2b_512", "blake2s_256", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake128", "shake256", "ripemd160", "whirlpool"]


def check_P38(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the library's own classes, for every digest type: made from arrays, spans, texts and hexadecimal text a digest has these bytes in this order, and compares by them; "
             "anything of another length (one shorter, one longer) and text that is not hexadecimal is refused; a checksum made by name, function or hexadecimal text has the algorithm, name, length and bytes asked for, and one of an unknown name keeps this name and any bytes.")
    P = facts.full()
    names = [n for n in ALL if P.record("dottorrent::%s_hash" % n)]      # a digest type nobody uses may go
    if len(names) < 2: raise Broken("digest types not found")
    what, where, text = {"generic": "a checksum of an unknown name does not keep this name and its bytes"}, {"": "include/dottorrent/checksum.hpp"}, HEAD
    for n in names:
        text += ONE.replace("@", n)
        if n in ("md5", "sha1", "sha512"):
            text += THROW.replace("@", n)
            for k in ("span", "text", "short", "hex", "sum"): what["must-throw-%s-%s" % (k, n)] = "a %s digest made from something of the wrong length is not refused by an exception" % n
        what["make-" + n] = "a %s digest does not have exactly the bytes it was made from, or does not compare by them" % n; where["make-" + n] = "include/dottorrent/hash.hpp"
        what["refuse-" + n] = "a %s digest is made from something of the wrong length or that is not hexadecimal" % n; where["refuse-" + n] = "include/dottorrent/hash.hpp"
        what["sum-" + n] = "a %s checksum does not have the algorithm, name, length and bytes it was made with, or does not compare by them" % n
        what["sum-refuse-" + n] = "a %s checksum is made from something of the wrong length or that is not hexadecimal" % n
    witness.apply(rep, text + 'static_assert(t_generic(), "VF:generic");\n}\n', what, where)
    rep.count("digest types", len(names), ", ".join(names))
    rep.assume("the overloads that take text as raw bytes of a checksum, and the view of a digest as text, reinterpret memory and are not evaluated")
