"""P07: the tables about hash functions agree."""
import re
import facts, witness
from facts import Broken

# function -> (digest bits by its standard, name of the OpenSSL digest constructor)
STD = [("md4", 128, "md4"), ("md5", 128, "md5"), ("blake2b_512", 512, "blake2b512"), ("blake2s_256", 256, "blake2s256"), ("sha1", 160, "sha1"),
       ("sha224", 224, "sha224"), ("sha256", 256, "sha256"), ("sha384", 384, "sha384"), ("sha512", 512, "sha512"), ("sha3_224", 224, "sha3_224"),
       ("sha3_256", 256, "sha3_256"), ("sha3_384", 384, "sha3_384"), ("sha3_512", 512, "sha3_512"), ("shake128", 128, "shake128"), ("shake256", 256, "shake256"),
       ("ripemd160", 160, "ripemd160"), ("whirlpool", 512, "whirlpool")]
EVP = ["md2", "md4", "md5", "md5_sha1", "blake2b512", "blake2s256", "sha1", "sha224", "sha256", "sha384", "sha512", "sha512_224", "sha512_256", "sha3_224", "sha3_256", "sha3_384", "sha3_512",
       "shake128", "shake256", "mdc2", "ripemd160", "whirlpool", "sm3", "md_null"]
PRE = r'''
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <compare>
#include <fmt/format.h>
'''
NAMES = PRE + r'''
#include "dottorrent/hash_function.hpp"
namespace vf {
using namespace dottorrent; using HF = hash_function;
'''
NAMES2 = r'''
constexpr bool distinct() { for (HF a : supported_hash_functions) for (HF b : supported_hash_functions) if (a != b && to_string(a) == to_string(b)) return false; return true; }
static_assert(distinct(), "VF:names-distinct");
constexpr bool once() { for (HF a : supported_hash_functions) { int n = 0; for (HF b : supported_hash_functions) n += a == b; if (n != 1) return false; } return true; }
static_assert(once(), "VF:listed-once");
constexpr bool is_name(std::string_view s) { for (HF f : supported_hash_functions) if (to_string(f) == s) return true; return false; }
constexpr bool same(std::string_view s) { return make_hash_function(s).has_value() == is_name(s) && is_hash_function_name(s) == is_name(s); }
constexpr bool exact() { if (!same("")) return false;
  for (HF f : supported_hash_functions) { std::string n(to_string(f));
    for (std::size_t i = 0; i <= n.size(); ++i) { if (!same(std::string_view(n).substr(0, i)) || !same(std::string_view(n).substr(i))) return false;
      for (char c : {' ', '0', '1', '_', '-', 'x', 'S', '\0'}) { std::string m = n; m.insert(i, 1, c); if (!same(m)) return false; if (i < n.size()) { m = n; m[i] = c; if (!same(m)) return false; } } 
      if (i < n.size() && n[i] >= 'a' && n[i] <= 'z') { std::string m = n; m[i] = char(n[i] - 32); if (!same(m)) return false; }
      if (i < n.size()) { std::string m = n; m.erase(i, 1); if (!same(m)) return false; } }
    for (HF g : supported_hash_functions) if (!same(n + std::string(to_string(g)))) return false; }
  return true; }
static_assert(exact(), "VF:names-exact");
}
'''
TYPES = PRE + r'''
#include "dottorrent/hash.hpp"
#include "dottorrent/checksum.hpp"
#include "dottorrent/hash_function_traits.hpp"
namespace vf {
using namespace dottorrent; using HF = hash_function;
template <typename T> constexpr std::size_t bytes_of() { return T::size_bytes; }
template <typename L, HF F, std::size_t... I> constexpr int listed(std::index_sequence<I...>) { return ((std::tuple_element_t<I, L>::algorithm == F ? 1 : 0) + ... + 0); }
template <typename T> struct sto; template <typename T> struct sto<basic_checksum<T>> { static constexpr HF algorithm = T::algorithm; };
template <typename L, HF F, std::size_t... I> constexpr int listed_c(std::index_sequence<I...>) { return ((sto<std::tuple_element_t<I, L>>::algorithm == F ? 1 : 0) + ... + 0); }
static_assert(std::tuple_size_v<hash_types> == supported_hash_functions.size() && std::tuple_size_v<checksum_types> == supported_hash_functions.size(), "VF:list-sizes");
'''
BACK = PRE + r'''
#include <span>
#include <stdexcept>
#include <system_error>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/err.h>
#undef OPENSSL_NO_MD2
#define OPENSSL_NO_MD2
// stand-ins with an identity the front end can compare (the real type is opaque)
struct evp_md_st { int id; const char* name; };
%s
namespace openssl { enum class message_digest_algorithm; namespace detail { inline const ::EVP_MD* get_evp_message_digest(message_digest_algorithm); } }
#include "dottorrent/hasher/openssl_hasher.hpp"
#include "src/hasher/backends/openssl.cpp"
namespace vf {
using namespace dottorrent; using HF = hash_function;
'''


def check_P07(rep):
    rep.rule("Compile-fail witnesses over every supported hash function: printed name, parsed name, uniqueness, near-miss names, digest types, traits, type lists and checksum factories against the digest lengths of the standards; the OpenSSL mapping composed of both tables against the digest constructor of that name (identity of the constructor, by stand-ins for the opaque type); syntax tree: the enumerators a backend advertises.")
    P = facts.core()
    en = P.enums.get("dottorrent::hash_function")
    if not en: raise Broken("enumeration dottorrent::hash_function not found")
    have = enum_names(en)
    fns = [s for s in STD if s[0] in have]
    for s in fns: rep.count("hash functions", 1, s[0])
    rep.need("hash functions", 10)
    what = {"names-distinct": "two hash functions print the same name", "listed-once": "a hash function is listed twice", "names-exact": "a text that is not the name of a hash function is taken for one, or a name is not recognised", "list-sizes": "the lists of digest types and checksum types do not have one entry per hash function"}
    where = {"": "include/dottorrent/hash_function.hpp"}
    t = NAMES
    for n, b, o in fns:
        t += 'static_assert(std::find(supported_hash_functions.begin(), supported_hash_functions.end(), HF::%s) != supported_hash_functions.end(), "VF:listed-%s");\n' % (n, n)
        t += 'static_assert(to_string(HF::%s) == "%s", "VF:name-%s");\n' % (n, n, n)
        t += 'static_assert(make_hash_function(to_string(HF::%s)) == HF::%s && is_hash_function_name(to_string(HF::%s)), "VF:parse-%s");\n' % (n, n, n, n)
        what["listed-" + n] = "%s is missing from the list of supported hash functions" % n; what["name-" + n] = "%s does not print as its name" % n
        what["parse-" + n] = "the printed name of %s does not parse back to it" % n
    witness.apply(rep, t + NAMES2, what, where)
    t = TYPES + "inline void force() { generic_checksum g(std::string_view(\"a\")); " + " ".join("%s_checksum c_%s;" % (n, n) for n, _, _ in fns) + " }\n"
    for n, b, o in fns:
        H = "%s_hash" % n
        t += 'static_assert(%s::size_bytes == %d && %s::size_bits == %d && %s::size_hex == %d && %s::size() == %d && sizeof(%s) == %d && %s::algorithm == HF::%s, "VF:type-%s");\n' % (H, b // 8, H, b, H, b // 4, H, b // 8, H, b // 8, H, n, n)
        t += 'static_assert(hash_function_traits<HF::%s>::digest_size_bytes == %d && hash_function_traits<HF::%s>::digest_size_bits == %d && hash_function_traits<HF::%s>::name == "%s" && std::is_same_v<hash_function_traits<HF::%s>::hash_type, %s> && std::is_same_v<hash_function_traits<HF::%s>::checksum_type, basic_checksum<%s>>, "VF:traits-%s");\n' % (n, b // 8, n, b, n, n, n, H, n, H, n)
        t += 'static_assert(listed<hash_types, HF::%s>(std::make_index_sequence<std::tuple_size_v<hash_types>>{}) == 1 && listed_c<checksum_types, HF::%s>(std::make_index_sequence<std::tuple_size_v<checksum_types>>{}) == 1, "VF:lists-%s");\n' % (n, n, n)
        t += ('constexpr bool make_%s() { std::vector<std::byte> v(%d, std::byte{7}); std::span<const std::byte> s(v); auto a = make_checksum(HF::%s); auto b = make_checksum(std::string_view("%s")); auto c = make_checksum(HF::%s, s); auto d = make_checksum(std::string_view("%s"), s);\n'
              ' for (checksum* p : {a.get(), b.get(), c.get(), d.get()}) if (p->algorithm() != HF::%s || p->name() != "%s" || p->size() != %d || p->value().size() != %d) return false;\n'
              ' return c->value()[0] == std::byte{7} && c->value()[%d] == std::byte{7} && d->value()[%d] == std::byte{7}; }\nstatic_assert(make_%s(), "VF:make-%s");\n') % (n, b // 8, n, n, n, n, n, n, b // 8, b // 8, b // 8 - 1, b // 8 - 1, n, n)
        what["type-" + n] = "the digest type of %s does not have its %d bits and its algorithm" % (n, b)
        what["traits-" + n] = "the traits of %s do not give its %d bits, name and types" % (n, b)
        what["lists-" + n] = "%s does not appear exactly once in the lists of digest and checksum types" % n
        what["make-" + n] = "a checksum made for %s is not a %s checksum of %d bits" % (n, n, b)
        where.update({"type-" + n: "include/dottorrent/hash.hpp", "traits-" + n: "include/dottorrent/hash_function_traits.hpp", "lists-" + n: "include/dottorrent/hash.hpp, checksum.hpp", "make-" + n: "include/dottorrent/checksum.hpp"})
    t += ('constexpr bool generic() { auto a = make_checksum(std::string_view("sha9")); auto b = make_checksum(std::string_view("SHA1")); return a->name() == "sha9" && b->name() == "SHA1"; }\n'
          'static_assert(generic(), "VF:make-other");\n}\n')
    what["make-other"] = "an unknown checksum key does not keep its name"; where["make-other"] = "include/dottorrent/checksum.hpp"
    witness.apply(rep, t, what, where)
    # backend mapping
    decl = "".join("inline constexpr evp_md_st vf_md_%s{%d, \"%s\"}; constexpr const EVP_MD* vf_EVP_%s() { return &vf_md_%s; }\n#define EVP_%s vf_EVP_%s\n" % (e, i, e, e, e, e, e) for i, e in enumerate(EVP))
    t = BACK % decl
    adv = advertised(P, rep)
    for n, b, o in fns:
        t += 'static_assert(openssl::detail::get_evp_message_digest(dottorrent::detail::get_openssl_algorithm(HF::%s)) == &vf_md_%s, "VF:openssl-%s");\n' % (n, o, n)
        what["openssl-" + n] = "the OpenSSL backend does not map %s to the OpenSSL digest %s" % (n, o); where["openssl-" + n] = "include/dottorrent/hasher/openssl_hasher.hpp, src/hasher/backends/openssl.cpp"
    known = {s[0] for s in fns}
    for n in sorted(adv - known):
        t += 'static_assert(openssl::detail::get_evp_message_digest(dottorrent::detail::get_openssl_algorithm(HF::%s)) != nullptr, "VF:advertised-%s");\n' % (n, n)
        what["advertised-" + n] = "the OpenSSL backend advertises %s but cannot construct it" % n; where["advertised-" + n] = "include/dottorrent/hasher/openssl_hasher.hpp"
    en2 = P.enums.get("openssl::message_digest_algorithm")
    if en2:
        for e in enum_names(en2):
            if e in EVP and e != "md2":
                t += 'static_assert(openssl::detail::get_evp_message_digest(openssl::message_digest_algorithm::%s) == &vf_md_%s || openssl::detail::get_evp_message_digest(openssl::message_digest_algorithm::%s) == nullptr, "VF:evp-%s");\n' % (e, e, e, e)
                what["evp-" + e] = "get_evp_message_digest does not map %s to EVP_%s" % (e, e); where["evp-" + e] = "src/hasher/backends/openssl.cpp"
    witness.apply(rep, t + "}\n", what, where)
    for n, b, o in fns:
        if adv and n not in adv:
            rep.violation("advertise:" + n, "include/dottorrent/hasher/openssl_hasher.hpp", "the OpenSSL backend does not advertise %s, which it can construct and the library lists as supported" % n)
    rep.need("assertions decided", 60)
    rep.assume("OpenSSL's EVP_<name>() constructs the digest <name>")
    rep.assume("only the OpenSSL backend is decided; the libraries of the others are not present")


def enum_names(en):
    return [x["n"] for x in en["e"]]


def advertised(P, rep):
    """Enumerators of hash_function mentioned by openssl_hasher::supported_algorithms or by the variables it refers to."""
    fs = [f for f in P.funcs.values() if f.qn == "dottorrent::openssl_hasher::supported_algorithms"]
    if not fs: rep.assume("openssl_hasher::supported_algorithms not found: advertised functions not compared"); return set()
    seen = set(); out = set(); todo = list(fs); gl = {g["qn"]: g for g in P.globals}
    def nodes(ns):
        for n in ns.values():
            if n.get("k") == "DeclRefExpr":
                if n.get("qn", "").startswith("dottorrent::hash_function::"): out.add(n["qn"].rsplit("::", 1)[1])
                g = gl.get(n.get("qn"))
                if g is not None and g["qn"] not in seen: seen.add(g["qn"]); nodes(g.get("nodes", {}))
            c = n.get("callee")
            if c:
                f = P.fn_of(c)
                if f is not None and f.fid not in seen: seen.add(f.fid); nodes(f.nodes)
    for f in todo: nodes(f.nodes)
    for n in sorted(out): rep.count("advertised functions", 1, n)
    return out
