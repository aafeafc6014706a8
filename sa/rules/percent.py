"""P06: percent coding."""
import facts, witness
from facts import Broken

TEXT = r'''
#include <algorithm>
#include "dottorrent/percent_encoding.hpp"
#include <vector>
#include <string>
namespace vf {
using dottorrent::detail::percent_decode_status;
constexpr int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
constexpr char upper(int v) { return "0123456789ABCDEF"[v]; }
constexpr bool unreserved(int c) { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '.' || c == '_' || c == '~'; }
struct text { char* p; std::size_t n; constexpr text(std::size_t k) : p(new char[k ? k : 1]), n(k) {} constexpr ~text() { delete[] p; } constexpr operator std::string_view() const { return {p, n}; } };
// what RFC 3986 prescribes
constexpr void expect(std::string& s, int c) { if (unreserved(c)) s += char(c); else { s += '%'; s += upper((c & 255) >> 4); s += upper(c & 15); } }
struct outcome { std::string out; int status; };   // 0 fine, 1 not a digit, 2 cut short
constexpr outcome reference(std::string_view v) {
  outcome r{{}, 0};
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (v[i] != '%') { r.out += v[i]; continue; }
    int val = 0, k = 0;
    for (; k < 2; ++k) { if (i + 1 + k >= v.size()) { r.status = 2; return r; } int d = digit(v[i + 1 + k]); if (d < 0) { r.status = 1; return r; } val = val * 16 + d; }
    r.out += char(val); i += 2; }
  return r; }
// an escape with one good or bad character that also ends there may be reported either way
constexpr bool both(std::string_view v) { for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == '%') { if (i + 2 >= v.size()) { for (std::size_t k = i + 1; k < v.size(); ++k) if (digit(v[k]) < 0) return true; return false; } if (digit(v[i + 1]) < 0 || digit(v[i + 2]) < 0) return false; i += 2; } return false; }
constexpr bool decodes(std::string_view v) {
  std::string out; auto st = dottorrent::detail::percent_decode(v.begin(), v.end(), std::back_inserter(out)); auto e = reference(v);
  if ((st == percent_decode_status::success) != (e.status == 0)) return false;
  if (e.status && !both(v) && st != (e.status == 1 ? percent_decode_status::non_hex_encoded_character : percent_decode_status::incomplete_encoded_character)) return false;
  return out == e.out; }

constexpr bool is_unres() { for (int c = -128; c < 128; ++c) if (dottorrent::detail::is_unreserved(char(c)) != unreserved(c)) return false; return true; }
static_assert(is_unres(), "VF:unreserved");
constexpr bool is_res() { for (int c = -128; c < 128; ++c) if (RESERVED(char(c)) != (std::string_view(":/?#[]@!$&'()*+,;=").find(char(c)) != std::string_view::npos)) return false; return true; }
static_assert(is_res(), "VF:reserved");
constexpr bool enc1() { for (int c = -128; c < 128; ++c) { text t(1); t.p[0] = char(c); std::string e; expect(e, c); if (dottorrent::detail::percent_encode(std::string_view(t)) != e) return false; } return true; }
static_assert(enc1(), "VF:encode-bytes");
constexpr bool enc2() { for (std::size_t n = 0; n <= LONG; n = n < 40 ? n + 1 : n < 80 ? 80 : n < 90 ? n + 1 : n < 250 ? 250 : n < 260 ? n + 1 : n < LONG ? LONG : n + 1) for (int s = 0; s < (n < 1000 ? 8 : 1); ++s) { text t(n); std::string e; for (std::size_t i = 0; i < n; ++i) { t.p[i] = char((i * 37 + s * 31 + n) & 255); expect(e, t.p[i]); } if (dottorrent::detail::percent_encode(std::string_view(t)) != e) return false;
    std::vector<char> o(e.size() + 1, '#'); dottorrent::detail::percent_encode(t.p, t.p + n, o.data()); for (std::size_t i = 0; i < e.size(); ++i) if (o[i] != e[i]) return false; if (o[e.size()] != '#') return false; } return true; }
static_assert(enc2(), "VF:encode-text");
constexpr bool dec1() { for (int c = -128; c < 128; ++c) { text t(1); t.p[0] = char(c); if (!decodes(t)) return false; } return decodes(""); }
static_assert(dec1(), "VF:decode-one");
constexpr bool dec2() { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; b += 1) { if (a == '%' || b == '%' || (a & 7) == 0) { text t(2); t.p[0] = char(a); t.p[1] = char(b); if (!decodes(t)) return false; } } return true; }
static_assert(dec2(), "VF:decode-two");
constexpr bool dec3() { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) { text t(3); t.p[0] = '%'; t.p[1] = char(a); t.p[2] = char(b); if (!decodes(t)) return false; } return true; }
static_assert(dec3(), "VF:decode-escape");
constexpr bool dec4() { const char cs[] = {'%', '4', 'g', 'F', ' ', '+'}; for (int n = 4; n <= 5; ++n) { int total = 1; for (int i = 0; i < n; ++i) total *= 6; for (int k = 0; k < total; ++k) { text t(n); int q = k; for (int i = 0; i < n; ++i) { t.p[i] = cs[q % 6]; q /= 6; } if (!decodes(t)) return false; } } return true; }
static_assert(dec4(), "VF:decode-sequences");
constexpr bool dec5() { for (std::size_t n : {250, 255, 256, 257, 300, LONG}) for (int kind = 0; kind < 2; ++kind) { text t(n); for (std::size_t i = 0; i < n; ++i) t.p[i] = i % 5 == 0 && i + 2 < n ? '%' : i % 5 == 1 ? '4' : i % 5 == 2 ? 'f' : char(i * 7 % 100 + 128); if (kind) t.p[n - 1] = '%'; if (!decodes(t)) return false; } return true; }
static_assert(dec5(), "VF:decode-long");
constexpr bool ok_string(std::string_view v) { auto e = reference(v); return e.status == 0 ? dottorrent::detail::percent_decode(v) == e.out : true; }
constexpr bool str1() { for (int a = -128; a < 128; ++a) { text t(1); t.p[0] = char(a); if (a != '%' && !ok_string(t)) return false; } for (int b = 0; b < 256; ++b) { text t(5); t.p[0] = 'x'; t.p[1] = '%'; t.p[2] = upper(b >> 4); t.p[3] = upper(b & 15); t.p[4] = '%' + 1; if (!ok_string(t)) return false; } return true; }
static_assert(str1(), "VF:decode-string");
template <int A, int B, int N> constexpr bool tryit() { text t(N); t.p[0] = '%'; if (N > 1) t.p[1] = char(A); if (N > 2) t.p[2] = char(B); for (int i = 3; i < N; ++i) t.p[i] = 'a'; (void)dottorrent::detail::percent_decode(std::string_view(t)); return true; }
template <int A, int B, int N> constexpr bool taken = requires { typename std::bool_constant<tryit<A, B, N>()>; };
template <int... A> constexpr bool refuse(std::integer_sequence<int, A...>) { return ((taken<A - 128, '0', 3> == (digit(A - 128) >= 0) && taken<'0', A - 128, 3> == (digit(A - 128) >= 0)) && ...) && !taken<'0', '0', 1> && !taken<'0', '0', 2>; }
static_assert(refuse(std::make_integer_sequence<int, 256>{}), "VF:string-refuse");
}
'''
WHAT = {
 "unreserved": "is_unreserved does not hold for exactly the unreserved characters of RFC 3986",
 "reserved": "is_reserved_character does not hold for exactly the reserved characters of RFC 3986",
 "decode-long": "percent_decode mishandles long texts",
 "encode-bytes": "percent_encode does not leave exactly the unreserved characters alone and escape every other byte with two upper-case digits",
 "encode-text": "percent_encode does not encode the characters of a text one after the other",
 "decode-one": "percent_decode does not copy plain characters unchanged, or accepts a lone percent sign",
 "decode-two": "percent_decode mishandles texts of two characters",
 "decode-escape": "percent_decode does not decode exactly the escapes made of two hexadecimal digits, or emits a byte for a malformed one",
 "decode-sequences": "percent_decode mishandles sequences of escapes, plain characters and malformed escapes",
 "decode-string": "percent_decode of a text does not return the decoded text",
 "string-refuse": "percent_decode of a text returns normally for a malformed or truncated escape",
}


def check_P06(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the tree's own functions, against a reference decoder: all 256 bytes for encoding, all one-character texts, all 65536 escapes, two-character texts, and all texts of length 4 and 5 over an alphabet with one character of each class (percent, digit, non-hex letter, upper hex letter, others).")
    P = facts.core()
    text = TEXT.replace("RESERVED", "dottorrent::detail::is_reserved_character")
    if not P.find("dottorrent::detail::is_reserved_character"):    # a helper nobody uses may go
        text = "\n".join(l for l in TEXT.splitlines() if "is_res()" not in l)
    witness.apply(rep, text.replace("LONG", "400" if rep.tier == "quick" else "70000"), WHAT, "include/dottorrent/percent_encoding.hpp")
    rep.need("assertions decided", 6)
    rep.assume("longer texts are handled by the same loop, whose state after a complete escape or plain character is the initial one; g++ evaluates constant expressions correctly")
