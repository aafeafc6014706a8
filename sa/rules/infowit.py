"""Witnesses of P22 about info hashes."""
import witness
from facts import Broken
TEXT = r'''
#include <algorithm>
#include <array>
#include <compare>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#include <fmt/format.h>
#undef Expects
#undef gsl_Expects
constexpr void vf_contract(bool b) { int ok[1] = {0}; if (!b) ++ok[1]; }
#define Expects(x) vf_contract(static_cast<bool>(x))
#define gsl_Expects(x) vf_contract(static_cast<bool>(x))
#include "dottorrent/info_hash.hpp"
using namespace dottorrent;
namespace {
template <class H> constexpr H dig(int s) { H h{}; std::size_t i = 0; for (auto& b : h) b = std::byte((i++ * 37 + s * 101 + 200) & 255); return h; }
template <class H> constexpr std::string raw(int s) { std::string r; for (auto b : dig<H>(s)) r += char(b); return r; }
template <class H> constexpr std::string hexa(int s) { std::string r; for (auto b : dig<H>(s)) { r += "0123456789abcdef"[int(b) >> 4]; r += "0123456789abcdef"[int(b) & 15]; } return r; }
using A = sha1_hash; using B = sha256_hash;
constexpr bool t_parts() {
  for (int s = 0; s < 3; ++s) for (int t = 0; t < 3; ++t) {
    info_hash a(dig<A>(s)), b(dig<B>(t)), c(dig<A>(s), dig<B>(t));
    info_hash d(protocol::v1, raw<A>(s)), e(protocol::v2, raw<B>(t)), f(raw<A>(s), raw<B>(t));
    info_hash g = info_hash::from_hex(protocol::v1, hexa<A>(s)), h = info_hash::from_hex(protocol::v2, hexa<B>(t)), i = info_hash::from_hex(hexa<A>(s), hexa<B>(t));
    for (auto* x : {&a, &d, &g}) if (x->version() != protocol::v1 || !(x->v1() == dig<A>(s)) || !(*x == a) || (*x <=> a) != 0) return false;
    for (auto* x : {&b, &e, &h}) if (x->version() != protocol::v2 || !(x->v2() == dig<B>(t)) || !(*x == b) || (*x <=> b) != 0) return false;
    for (auto* x : {&c, &f, &i}) if (x->version() != protocol::hybrid || !(x->v1() == dig<A>(s)) || !(x->v2() == dig<B>(t)) || !(*x == c) || (*x <=> c) != 0) return false;
  }
  return true; }
constexpr bool t_order() {
  std::vector<info_hash> v; 
  for (int s = 0; s < 3; ++s) { v.emplace_back(dig<A>(s)); v.emplace_back(dig<B>(s)); for (int t = 0; t < 3; ++t) v.emplace_back(dig<A>(s), dig<B>(t)); }
  for (std::size_t i = 0; i < v.size(); ++i) for (std::size_t j = 0; j < v.size(); ++j) {
    auto o = v[i] <=> v[j];
    if ((v[i] == v[j]) != (i == j) || (o == 0) != (i == j) || (o < 0) != ((v[j] <=> v[i]) > 0)) return false;
    for (std::size_t k = 0; k < v.size(); ++k) if (o < 0 && (v[j] <=> v[k]) < 0 && !((v[i] <=> v[k]) < 0)) return false;
  }
  return true; }
constexpr bool absent1() { info_hash b(dig<B>(0)); return b.v1().size() > 0; }
constexpr bool absent2() { info_hash b(dig<A>(0)); return b.v2().size() > 0; }
constexpr bool long1() { info_hash b(protocol::v1, raw<A>(0) + "x"); return b.version() == protocol::v1; }
constexpr bool long2() { info_hash b(protocol::v2, raw<B>(0) + "x"); return b.version() == protocol::v2; }
constexpr bool other() { info_hash b(protocol::v1, raw<B>(0)); return b.version() == protocol::v1; }
constexpr bool swapped() { info_hash b(raw<B>(0), raw<A>(0)); return b.version() == protocol::hybrid; }
constexpr bool none() { info_hash b(protocol::hybrid, raw<B>(0)); return b.version() == protocol::hybrid; }
constexpr bool hex1() { auto b = info_hash::from_hex(protocol::v1, hexa<B>(0)); return b.version() == protocol::v1; }
static_assert(t_parts(), "VF:parts");
static_assert(t_order(), "VF:order");
static_assert(long1(), "VF:must-throw-long1");
static_assert(long2(), "VF:must-throw-long2");
static_assert(other(), "VF:must-throw-other");
static_assert(swapped(), "VF:must-throw-swapped");
static_assert(none(), "VF:must-throw-none");
static_assert(hex1(), "VF:must-throw-hex1");
}
'''
WHAT = {"parts": "an info hash does not hold exactly the version and digests it was made from", "order": "comparison of info hashes is not an order that agrees with equality"}
for k in ("long1", "long2", "other", "swapped", "none", "hex1"): WHAT["must-throw-" + k] = "an info hash made from data of the wrong length or version is not refused"


def run(rep):
    try: witness.apply(rep, TEXT, WHAT, "include/dottorrent/info_hash.hpp")
    except Broken as e: rep.assume("the witnesses about info hashes could not be evaluated: %s" % str(e)[:400])
