"""P05: hexadecimal coding."""
import facts, witness
from facts import Broken

ORACLE = r'''
#include <algorithm>
#include "dottorrent/hex.hpp"
#include <vector>
#include <string>
namespace vf {
constexpr int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
constexpr char lower(int v) { return "0123456789abcdef"[v]; }
constexpr char upper(int v) { return "0123456789ABCDEF"[v]; }
// exactly n characters on their own storage: reading one more is not a constant expression
struct text { char* p; std::size_t n; constexpr text(std::size_t k) : p(new char[k ? k : 1]), n(k) {} constexpr ~text() { delete[] p; } constexpr operator std::string_view() const { return {p, n}; } };
'''
WHAT = {
 "enc-lower": "byte_to_hex does not give every byte its two lower-case hexadecimal digits, most significant first",
 "enc-upper": "byte_to_hex_uppercase does not give every byte its two upper-case hexadecimal digits, most significant first",
 "dec-pair": "hex_to_byte does not accept exactly the pairs of hexadecimal digits and yield their byte",
 "dec-view": "hex_to_byte of a text does not accept exactly the two-digit texts",
 "arr-pairs": "from_hexadecimal_string<1> does not accept exactly the pairs of hexadecimal digits",
 "arr-length": "from_hexadecimal_string<N> does not refuse every text whose length is not 2*N",
 "arr-position": "from_hexadecimal_string<N> does not decode or refuse correctly at some position",
 "it-decode": "from_hexadecimal_string(iterator, text) does not yield the denoted bytes in order",
 "it-refuse-first": "from_hexadecimal_string(iterator, text) accepts a character that is not a hexadecimal digit (first of a pair)",
 "it-refuse-second": "from_hexadecimal_string(iterator, text) accepts a character that is not a hexadecimal digit (second of a pair)",
 "it-odd": "from_hexadecimal_string(iterator, text) accepts a text of odd length",
 "str-encode": "to_hexadecimal_string does not give the two digits of each byte in order",
 "it-encode": "to_hexadecimal_string(iterator, bytes) does not write the two digits of each byte in order",
}
PARTS = {
"byte_to_hex": r'''
constexpr bool enc_lower() { for (int b = 0; b < 256; ++b) { char o[4] = {'#','#','#','#'}; dottorrent::detail::byte_to_hex(std::byte(b), o + 1);
  if (o[0] != '#' || o[3] != '#' || o[1] != lower(b >> 4) || o[2] != lower(b & 15)) return false; } return true; }
static_assert(enc_lower(), "VF:enc-lower");
''',
"byte_to_hex_uppercase": r'''
constexpr bool enc_upper() { for (int b = 0; b < 256; ++b) { char o[4] = {'#','#','#','#'}; dottorrent::detail::byte_to_hex_uppercase(std::byte(b), o + 1);
  if (o[0] != '#' || o[3] != '#' || o[1] != upper(b >> 4) || o[2] != upper(b & 15)) return false; } return true; }
static_assert(enc_upper(), "VF:enc-upper");
''',
"hex_to_byte": r'''
constexpr bool dec_pair() { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) { std::byte o{0x5a}; int x = digit(a), y = digit(b); bool r = dottorrent::detail::hex_to_byte(char(a), char(b), o);
  if (r != (x >= 0 && y >= 0)) return false; if (r && o != std::byte(x * 16 + y)) return false; } return true; }
static_assert(dec_pair(), "VF:dec-pair");
''',
"hex_to_byte_view": r'''
constexpr bool dec_view() {
  for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; b += 1) { text t(2); t.p[0] = char(a); t.p[1] = char(b); std::byte o{}; int x = digit(a), y = digit(b); bool r = dottorrent::detail::hex_to_byte(std::string_view(t), o);
    if (r != (x >= 0 && y >= 0)) return false; if (r && o != std::byte(x * 16 + y)) return false; }
  for (std::size_t n : {0, 1, 3, 4}) { text t(n); for (std::size_t i = 0; i < n; ++i) t.p[i] = '0'; std::byte o{}; if (dottorrent::detail::hex_to_byte(std::string_view(t), o)) return false; }
  return true; }
static_assert(dec_view(), "VF:dec-view");
''',
"array": r'''
constexpr bool arr_pairs() { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) { text t(2); t.p[0] = char(a); t.p[1] = char(b); int x = digit(a), y = digit(b); auto r = dottorrent::from_hexadecimal_string<1>(t);
  if (r.has_value() != (x >= 0 && y >= 0)) return false; if (r && (*r)[0] != std::byte(x * 16 + y)) return false; } return true; }
static_assert(arr_pairs(), "VF:arr-pairs");
template <std::size_t N> constexpr bool lengths() { for (std::size_t n = 0; n <= 2 * N + 5; ++n) { text t(n); for (std::size_t i = 0; i < n; ++i) t.p[i] = '0'; if (dottorrent::from_hexadecimal_string<N>(t).has_value() != (n == 2 * N)) return false; } return true; }
static_assert(lengths<0>() && lengths<1>() && lengths<2>() && lengths<3>() && lengths<16>() && lengths<20>() && lengths<32>() && lengths<64>(), "VF:arr-length");
template <std::size_t N> constexpr bool positions() {
  for (std::size_t k = 0; k < 2 * N; ++k) for (int c = -128; c < 128; ++c) { text t(2 * N); for (std::size_t i = 0; i < 2 * N; ++i) t.p[i] = lower((i * 7 + 3) % 16); t.p[k] = char(c);
    auto r = dottorrent::from_hexadecimal_string<N>(t); if (r.has_value() != (digit(c) >= 0)) return false;
    if (r) for (std::size_t i = 0; i < N; ++i) if ((*r)[i] != std::byte(digit(t.p[2 * i]) * 16 + digit(t.p[2 * i + 1]))) return false; }
  return true; }
constexpr bool long_array() { constexpr std::size_t N = 300; text t(2 * N); for (std::size_t i = 0; i < 2 * N; ++i) t.p[i] = upper((i * 11 + i / 16) % 16); auto r = dottorrent::from_hexadecimal_string<N>(t); if (!r) return false; for (std::size_t i = 0; i < N; ++i) if ((*r)[i] != std::byte(digit(t.p[2 * i]) * 16 + digit(t.p[2 * i + 1]))) return false;
  t.p[2 * N - 1] = 'g'; return !dottorrent::from_hexadecimal_string<N>(t).has_value(); }
static_assert(long_array() && positions<2>() && positions<3>() && positions<20>() && positions<32>(), "VF:arr-position");
''',
"iterator": r'''
constexpr bool it_decode() {
  for (int b = 0; b < 256; ++b) for (int cs = 0; cs < 4; ++cs) { text t(2); t.p[0] = cs & 1 ? upper(b >> 4) : lower(b >> 4); t.p[1] = cs & 2 ? upper(b & 15) : lower(b & 15); std::vector<std::byte> v; dottorrent::from_hexadecimal_string(std::back_inserter(v), t); if (v.size() != 1 || v[0] != std::byte(b)) return false; }
  for (std::size_t n = 0; n <= LONG; n = n < 66 ? n + 1 : n < 250 ? 250 : n < 260 ? n + 1 : n < LONG ? LONG : n + 1) { text t(2 * n); for (std::size_t i = 0; i < 2 * n; ++i) t.p[i] = upper((i * 5 + 1) % 16);
    std::vector<std::byte> v; dottorrent::from_hexadecimal_string(std::back_inserter(v), t); std::vector<std::byte> w(n); dottorrent::from_hexadecimal_string(w.begin(), t);
    if (v.size() != n || v != w) return false; for (std::size_t i = 0; i < n; ++i) if (v[i] != std::byte(digit(t.p[2 * i]) * 16 + digit(t.p[2 * i + 1]))) return false; }
  return true; }
static_assert(it_decode(), "VF:it-decode");
constexpr bool try_decode(int a, int b, std::size_t n) { text t(n); for (std::size_t i = 0; i < n; ++i) t.p[i] = '1'; if (n >= 2) { t.p[n - 2] = char(a); t.p[n - 1] = char(b); } std::vector<std::byte> v; dottorrent::from_hexadecimal_string(std::back_inserter(v), t); return true; }
template <int A, int B, std::size_t N> constexpr bool taken = requires { typename std::bool_constant<try_decode(A, B, N)>; };
template <int... A> constexpr bool refuse_first(std::integer_sequence<int, A...>) { return ((taken<A - 128, '0', 2> == (digit(A - 128) >= 0) && taken<A - 128, '0', 6> == (digit(A - 128) >= 0)) && ...); }
template <int... A> constexpr bool refuse_second(std::integer_sequence<int, A...>) { return ((taken<'0', A - 128, 2> == (digit(A - 128) >= 0) && taken<'0', A - 128, 6> == (digit(A - 128) >= 0)) && ...); }
static_assert(refuse_first(std::make_integer_sequence<int, 256>{}), "VF:it-refuse-first");
static_assert(refuse_second(std::make_integer_sequence<int, 256>{}), "VF:it-refuse-second");
template <int... A> constexpr bool odd(std::integer_sequence<int, A...>) { return (!taken<'1', '1', 2 * A + 1> && ...); }
static_assert(odd(std::make_integer_sequence<int, 34>{}), "VF:it-odd");
''',
"string": r'''
constexpr bool str_encode() {
  for (std::size_t n = 0; n <= LONG; n = n < 66 ? n + 1 : n < 250 ? 250 : n < 260 ? n + 1 : n < LONG ? LONG : n + 1) for (int s = 0; s < (n == 1 ? 256 : n > 1000 ? 1 : 4); ++s) { std::vector<std::byte> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = std::byte((i * 37 + s * 61 + (n == 1 ? s - s * 61 : 0)) & 255);
    std::string r = dottorrent::to_hexadecimal_string(std::span<const std::byte>(v)); if (r.size() != 2 * n) return false;
    for (std::size_t i = 0; i < n; ++i) if (r[2 * i] != lower(int(v[i]) >> 4) || r[2 * i + 1] != lower(int(v[i]) & 15)) return false; }
  return true; }
static_assert(str_encode(), "VF:str-encode");
''',
"stringit": r'''
constexpr bool it_encode() {
  for (std::size_t n = 0; n <= LONG; n = n < 40 ? n + 1 : n < 120 ? 120 : n < 130 ? n + 1 : n < 250 ? 250 : n < 260 ? n + 1 : n < LONG ? LONG : n + 1) { std::vector<std::byte> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = std::byte((i * 37 + n) & 255);
    std::vector<char> r(2 * n); auto e = dottorrent::to_hexadecimal_string(r.data(), std::span<const std::byte>(v)); if (e != r.data() + 2 * n) return false; std::string q; dottorrent::to_hexadecimal_string(std::back_inserter(q), std::span<const std::byte>(v)); if (q.size() != 2 * n) return false;
    for (std::size_t i = 0; i < n; ++i) if (r[2 * i] != lower(int(v[i]) >> 4) || r[2 * i + 1] != lower(int(v[i]) & 15) || q[2 * i] != r[2 * i] || q[2 * i + 1] != r[2 * i + 1]) return false; }
  return true; }
static_assert(it_encode(), "VF:it-encode");
''',
}


def check_P05(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the tree's own functions: encoding over all 256 bytes in both cases, decoding over all 65536 pairs of characters (signed char range included), every position of texts of several lengths over all 256 characters, all lengths around the right one; "
             "texts and buffers live in exactly sized storage, so an access outside them is not a constant expression and fails the build.")
    P = facts.core()
    parts = [ORACLE]
    def params(f): return [P.ts(t) for t in f.raw["pt"]]
    det = {n: [params(f) for f in P.find("dottorrent::detail::" + n)] for n in ("byte_to_hex", "byte_to_hex_uppercase", "hex_to_byte")}
    if det["byte_to_hex"]: parts.append(PARTS["byte_to_hex"])
    if det["byte_to_hex_uppercase"]: parts.append(PARTS["byte_to_hex_uppercase"])
    if any(len(p) == 3 for p in det["hex_to_byte"]): parts.append(PARTS["hex_to_byte"])
    if any(len(p) == 2 for p in det["hex_to_byte"]): parts.append(PARTS["hex_to_byte_view"])
    parts += [PARTS["array"], PARTS["iterator"], PARTS["string"], PARTS["stringit"], "}\n"]
    witness.apply(rep, "".join(parts).replace("LONG", "400" if rep.tier == "quick" else "70000"), WHAT, "include/dottorrent/hex.hpp")
    rep.need("assertions decided", 8)
    rep.assume("texts longer than the enumerated lengths are decoded by the same loop; the front end of g++ evaluates constant expressions correctly")
