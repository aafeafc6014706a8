"""P27: flag operators, file-attribute text, unit literals."""
import facts, witness, optionals
from facts import Broken, REPO
from ir import Graph, Explorer, conjuncts, relation, subterms

FLAGS = r'''
#include <algorithm>
#include <functional>
#include <string>
#include <string_view>
#include <array>
#include <stdexcept>
#include <cstdint>
#include <type_traits>
#include <utility>
#include <fmt/format.h>
#include "dottorrent/bitmask_operators.hpp"
#include "dottorrent/literals.hpp"
namespace vf { enum class u8f : std::uint8_t {}; enum class i8f : signed char {}; enum class u16f : std::uint16_t {}; enum class i32f : int {}; enum class u32f : unsigned {}; enum class i64f : long long {}; enum class u64f : unsigned long long {}; enum old8 : std::uint8_t {}; enum class plain : int { a, b }; }
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::u8f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::i8f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::u16f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::i32f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::u32f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::i64f);
DOTTORRENT_ENABLE_BITMASK_OPERATORS(vf::u64f);
namespace vf {
using namespace dottorrent;
template <typename E> using UT = std::make_unsigned_t<std::underlying_type_t<E>>;
template <typename E> constexpr E mk(UT<E> v) { return static_cast<E>(static_cast<std::underlying_type_t<E>>(v)); }
template <typename E> constexpr UT<E> bits(E e) { return static_cast<UT<E>>(static_cast<std::underlying_type_t<E>>(e)); }
template <typename E> constexpr bool op_or(UT<E> a, UT<E> b)  { return bits<E>(mk<E>(a) | mk<E>(b)) == UT<E>(a | b); }
template <typename E> constexpr bool op_and(UT<E> a, UT<E> b) { return bits<E>(mk<E>(a) & mk<E>(b)) == UT<E>(a & b); }
template <typename E> constexpr bool op_xor(UT<E> a, UT<E> b) { return bits<E>(mk<E>(a) ^ mk<E>(b)) == UT<E>(a ^ b); }
template <typename E> constexpr bool op_not(UT<E> a, UT<E>)   { return bits<E>(~mk<E>(a)) == UT<E>(~a); }
template <typename E> constexpr bool as_or(UT<E> a, UT<E> b)  { E x = mk<E>(a); const E y = mk<E>(b); auto&& r = (x |= y); E z = mk<E>(a); z |= z; return &r == &x && bits<E>(x) == UT<E>(a | b) && bits<E>(y) == b && bits<E>(z) == a; }
template <typename E> constexpr bool as_and(UT<E> a, UT<E> b) { E x = mk<E>(a); const E y = mk<E>(b); auto&& r = (x &= y); E z = mk<E>(a); z &= z; return &r == &x && bits<E>(x) == UT<E>(a & b) && bits<E>(y) == b && bits<E>(z) == a; }
template <typename E> constexpr bool as_xor(UT<E> a, UT<E> b) { E x = mk<E>(a); const E y = mk<E>(b); auto&& r = (x ^= y); E z = mk<E>(a); z ^= z; return &r == &x && bits<E>(x) == UT<E>(a ^ b) && bits<E>(y) == b && bits<E>(z) == 0; }
template <typename E, typename F> constexpr bool pairs(F f) {
  using U = UT<E>;
  if constexpr (sizeof(E) == 1) { for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) if (!f(U(a), U(b))) return false; }
  else {
    constexpr int W = sizeof(E) * 8; U v[2 * W + 8 + 32]{}; int n = 0;
    for (int i = 0; i < W; ++i) { v[n++] = U(U(1) << i); v[n++] = U(~(U(1) << i)); }
    v[n++] = 0; v[n++] = U(~U(0)); v[n++] = U(0x5555555555555555ull); v[n++] = U(0xaaaaaaaaaaaaaaaaull); v[n++] = U(0x00ff00ff00ff00ffull); v[n++] = U(0x123456789abcdef0ull); v[n++] = U(0xfedcba9876543210ull); v[n++] = U(0x8000000080000000ull);
    for (int i = 0; i < 32; ++i) v[n++] = U(i);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!f(v[i], v[j])) return false;
  }
  return true; }
static_assert((pairs<u8f>(op_or<u8f>) && pairs<i8f>(op_or<i8f>) && pairs<u16f>(op_or<u16f>) && pairs<i32f>(op_or<i32f>) && pairs<u32f>(op_or<u32f>) && pairs<i64f>(op_or<i64f>) && pairs<u64f>(op_or<u64f>)), "VF:or");
static_assert((pairs<u8f>(op_and<u8f>) && pairs<i8f>(op_and<i8f>) && pairs<u16f>(op_and<u16f>) && pairs<i32f>(op_and<i32f>) && pairs<u32f>(op_and<u32f>) && pairs<i64f>(op_and<i64f>) && pairs<u64f>(op_and<u64f>)), "VF:and");
static_assert((pairs<u8f>(op_xor<u8f>) && pairs<i8f>(op_xor<i8f>) && pairs<u16f>(op_xor<u16f>) && pairs<i32f>(op_xor<i32f>) && pairs<u32f>(op_xor<u32f>) && pairs<i64f>(op_xor<i64f>) && pairs<u64f>(op_xor<u64f>)), "VF:xor");
static_assert((pairs<u8f>(op_not<u8f>) && pairs<i8f>(op_not<i8f>) && pairs<u16f>(op_not<u16f>) && pairs<i32f>(op_not<i32f>) && pairs<u32f>(op_not<u32f>) && pairs<i64f>(op_not<i64f>) && pairs<u64f>(op_not<u64f>)), "VF:complement");
static_assert((pairs<u8f>(as_or<u8f>) && pairs<i8f>(as_or<i8f>) && pairs<u16f>(as_or<u16f>) && pairs<i32f>(as_or<i32f>) && pairs<u32f>(as_or<u32f>) && pairs<i64f>(as_or<i64f>) && pairs<u64f>(as_or<u64f>)), "VF:or-assign");
static_assert((pairs<u8f>(as_and<u8f>) && pairs<i8f>(as_and<i8f>) && pairs<u16f>(as_and<u16f>) && pairs<i32f>(as_and<i32f>) && pairs<u32f>(as_and<u32f>) && pairs<i64f>(as_and<i64f>) && pairs<u64f>(as_and<u64f>)), "VF:and-assign");
static_assert((pairs<u8f>(as_xor<u8f>) && pairs<i8f>(as_xor<i8f>) && pairs<u16f>(as_xor<u16f>) && pairs<i32f>(as_xor<i32f>) && pairs<u32f>(as_xor<u32f>) && pairs<i64f>(as_xor<i64f>) && pairs<u64f>(as_xor<u64f>)), "VF:xor-assign");
template <typename E> constexpr bool types = std::is_same_v<decltype(E{} | E{}), E> && std::is_same_v<decltype(E{} & E{}), E> && std::is_same_v<decltype(E{} ^ E{}), E> && std::is_same_v<decltype(~E{}), E>
  && std::is_same_v<decltype(std::declval<E&>() |= E{}), E&> && std::is_same_v<decltype(std::declval<E&>() &= E{}), E&> && std::is_same_v<decltype(std::declval<E&>() ^= E{}), E&>;
static_assert(types<u8f> && types<i8f> && types<u16f> && types<i32f> && types<u32f> && types<i64f> && types<u64f>, "VF:result-types");
template <typename E> constexpr bool usable = requires(E a, E b) { a | b; } || requires(E a, E b) { a & b; } || requires(E a, E b) { a ^ b; } || requires(E a) { ~a; } || requires(E a, E b) { a |= b; } || requires(E a, E b) { a &= b; } || requires(E a, E b) { a ^= b; };
static_assert(!usable<plain>, "VF:only-flags");
'''
LIT = r'''
constexpr bool vf_lit() { return true; }
template <typename F> constexpr bool scaled(F f, unsigned long long unit) {
  unsigned long long max = ~0ull / unit;
  auto one = [&](unsigned long long v) { return v > max || f(v) == v * unit; };
  for (unsigned long long v = 0; v < 3000; ++v) if (!one(v)) return false;
  for (int i = 0; i < 64; ++i) for (int d = -2; d <= 2; ++d) if (!one((1ull << i) + d)) return false;
  for (int d = 0; d < 4; ++d) if (!one(max - d)) return false;
  return f(1) == unit; }
'''
UNITS = [("KiB", 1024), ("MiB", 1024**2), ("GiB", 1024**3), ("TiB", 1024**4), ("PiB", 1024**5), ("EiB", 1024**6),
         ("KB", 1000), ("MB", 1000**2), ("GB", 1000**3), ("TB", 1000**4), ("PB", 1000**5), ("EB", 1000**6)]
BITS = r'''
constexpr bool vf_bits() { using namespace dottorrent::literals; for (unsigned long long v = 0; v < 3000; ++v) if (operator""_bits(8 * v) != v) return false; for (int i = 3; i < 64; ++i) if (operator""_bits(1ull << i) != (1ull << (i - 3))) return false; return operator""_bits(~7ull) == (~7ull) / 8; }
static_assert(vf_bits(), "VF:lit-bits");
'''
GEN = r'''
#include "dottorrent/general.hpp"
namespace vg {
using namespace dottorrent;
using FA = file_attributes;
constexpr FA letter(char c) { return c == 'l' ? FA::symlink : c == 'x' ? FA::executable : c == 'h' ? FA::hidden : FA::padding_file; }
static_assert(unsigned(FA::none) == 0 && [] { unsigned all = 0; for (FA f : {FA::symlink, FA::executable, FA::hidden, FA::padding_file}) { unsigned b = unsigned(f); if (b == 0 || (b & (b - 1)) || (all & b)) return false; all |= b; } return true; }(), "VF:attr-bits");
constexpr unsigned mask(int s) { unsigned m = 0; const char* L = "lxhp"; for (int i = 0; i < 4; ++i) if (s >> i & 1) m |= unsigned(letter(L[i])); return m; }
constexpr bool round() { for (int s = 0; s < 16; ++s) { std::string t = dottorrent::to_string(FA(int(mask(s)))); if (unsigned(make_file_attributes(t)) != mask(s)) return false; } return true; }
static_assert(round(), "VF:attr-round-trip");
constexpr bool letters() { for (int s = 0; s < 16; ++s) { std::string t = dottorrent::to_string(FA(int(mask(s)))); unsigned m = 0; for (char c : t) { if (c != 'l' && c != 'x' && c != 'h' && c != 'p') return false; unsigned b = unsigned(letter(c)); if (m & b) return false; m |= b; } if (m != mask(s)) return false; } return true; }
static_assert(letters(), "VF:attr-letters");
constexpr bool parse() { const char* L = "lxhp"; for (int n = 0; n <= 5; ++n) { int k = 1; for (int i = 0; i < n; ++i) k *= 4; for (int s = 0; s < k; ++s) { std::string t; unsigned m = 0; for (int i = 0, q = s; i < n; ++i, q /= 4) { t.push_back(L[q % 4]); m |= unsigned(letter(L[q % 4])); } if (unsigned(make_file_attributes(t)) != m) return false; } } return true; }
static_assert(parse(), "VF:attr-parse");
constexpr bool try_attr(char c) { char b[2] = {'l', c}; (void)make_file_attributes(std::string_view(b, 2)); return true; }
template <char C> constexpr bool taken = requires { typename std::bool_constant<try_attr(C)>; };
template <int... A> constexpr bool refused(std::integer_sequence<int, A...>) { return ((taken<char(A)> == (A == 'l' || A == 'x' || A == 'h' || A == 'p')) && ...); }
static_assert(refused(std::make_integer_sequence<int, 256>{}), "VF:attr-refuse");
static_assert((unsigned(protocol::v1) & unsigned(protocol::v2)) == 0 && unsigned(protocol::none) == 0 && unsigned(protocol::v1) != 0 && unsigned(protocol::v2) != 0 && (unsigned(protocol::v1) | unsigned(protocol::v2)) == unsigned(protocol::hybrid), "VF:protocol-bits");
static_assert(unsigned(file_options::none) == 0 && unsigned(file_options::add_attributes) != 0 && (unsigned(file_options::copy_symlinks) & unsigned(file_options::add_attributes)) == unsigned(file_options::add_attributes) && file_options::copy_symlinks != file_options::add_attributes, "VF:options-bits");
template <typename E> constexpr bool lib() { for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) { E x = E(a), y = E(b); E o = x, n = x, e = x; o |= y; n &= y; e ^= y;
  if (int(x | y) != (a | b) || int(x & y) != (a & b) || int(x ^ y) != (a ^ b) || int(~x) != ~a || int(o) != (a | b) || int(n) != (a & b) || int(e) != (a ^ b)) return false; } return true; }
static_assert(lib<protocol>() && lib<file_attributes>() && lib<file_options>(), "VF:library-flags");
static_assert(v2_block_size == 16384, "VF:block-size");
}
'''
WHAT = {
 "or": "operator| on a flag type is not the bitwise or of the underlying bits", "and": "operator& on a flag type is not the bitwise and of the underlying bits",
 "xor": "operator^ on a flag type is not the bitwise exclusive or of the underlying bits", "complement": "operator~ on a flag type is not the complement of the underlying bits",
 "or-assign": "operator|= on a flag type does not set its left operand to the bitwise or and return it", "and-assign": "operator&= on a flag type does not set its left operand to the bitwise and and return it",
 "xor-assign": "operator^= on a flag type does not set its left operand to the exclusive or and return it", "result-types": "a flag operator does not yield the flag type (or a reference to its left operand)",
 "only-flags": "the flag operators apply to enumerations that were not declared as flag types", "attr-bits": "the file attributes are not distinct single bits",
 "attr-round-trip": "a set of file attributes does not survive conversion to text and back", "attr-letters": "the text of a set of file attributes is not one BEP-47 letter per attribute",
 "attr-parse": "the text of attribute letters does not denote exactly their union", "attr-refuse": "a character that is no attribute letter is accepted, or a letter refused",
 "protocol-bits": "protocol::hybrid is not the union of the disjoint v1 and v2 bits", "options-bits": "file_options::copy_symlinks does not include add_attributes", "library-flags": "a flag type of the library does not follow the bitwise algebra",
 "block-size": "the block size of protocol version 2 is not 16 KiB", "lit-bits": "the literal _bits is not a number of bits in bytes",
}


def check_P27(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the tree's own operators: every operator over all 65536 pairs of 8-bit flag values and over every pair of single-bit, complement and pattern values of 16, 32 and 64-bit flag types, signed and unsigned; every set of file attributes, every text of up to five attribute letters, every single other character; every literal over small numbers, powers of two and the largest representable number. "
             "Every test of a flag in the library's functions is analysed on its terms: an option of several bits is not taken as set for one of them, and the attribute queries of a file entry test the attribute they are named after.")
    P = facts.core()
    names = {f.name for f in P.funcs.values() if f.name.startswith('operator""')}
    lits = LIT; where = {"": "include/dottorrent/bitmask_operators.hpp"}
    for u, k in UNITS:
        if any(n.replace(" ", "").endswith('""_' + u) for n in names):
            lits += 'static_assert(scaled([](unsigned long long v) { using namespace dottorrent::literals; return operator""_%s(v); }, %dull), "VF:lit-%s");\n' % (u, k, u)
            WHAT["lit-" + u] = "the literal _%s does not multiply by %d" % (u, k); where["lit-" + u] = "include/dottorrent/literals.hpp"; rep.count("literals", 1, u)
    if any(n.replace(" ", "").endswith('""_bits') for n in names): lits += BITS; rep.count("literals", 1, "bits"); where["lit-bits"] = "include/dottorrent/literals.hpp"
    rep.need("literals", 6)
    for l in ("attr-bits", "attr-round-trip", "attr-letters", "attr-parse", "attr-refuse", "protocol-bits", "options-bits", "library-flags", "block-size"): where[l] = "include/dottorrent/general.hpp"
    options(rep, facts.full())
    witness.apply(rep, FLAGS + lits + "}\n", WHAT, where)
    witness.apply(rep, FLAGS.split("#include \"dottorrent")[0] + GEN, WHAT, where)
    rep.need("assertions decided", 20)
    rep.assume("an operator on a 16, 32 or 64-bit flag type treats the bits it was checked on like all others")


def options(rep, P):
    """Tests of flags: all bits of an option, and the attribute that the query is named after."""
    enums = {}
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO): continue
        for n in f.nodes.values():
            if n["k"] == "DeclRefExpr" and n.get("dk") == "EnumConstant" and isinstance(n.get("v"), int): enums.setdefault(P.types[n["t"]]["s"], {})[n["n"]] = n["v"]
    for f in P.funcs.values():
        if not f.blocks or not f.file.startswith(REPO): continue
        for n in f.nodes.values():
            if n.get("op") not in ("==", "!=") or n["k"] not in ("CXXOperatorCallExpr", "BinaryOperator", "CXXRewrittenBinaryOperator"): continue
            A = [bare(f, a) for a in (n.get("args") or n.get("c") or [])]
            for x, y in (A[:2], A[1::-1]) if len(A) >= 2 else ():
                m = f.nodes.get(x); z = f.nodes.get(y)
                if not m or not z or m.get("op") != "&" or z.get("v") != 0: continue
                B = [f.nodes.get(bare(f, a)) for a in (m.get("args") or m.get("c") or [])]
                k = next((b for b in B if b and b["k"] == "DeclRefExpr" and b.get("dk") == "EnumConstant" and isinstance(b.get("v"), int)), None)
                if k is None or not k.get("qn", "").startswith("dottorrent::"): continue
                rep.count("tests of flags", 1, "%s:%s" % (f.disp, n["l"]))
                if bin(k["v"] & (2**64 - 1)).count("1") > 1:
                    rep.violation("%s:any-bit:%s" % (f.qn, k["n"]), "%s:%d" % (f.loc().rsplit(":", 1)[0], n["l"]), "%s takes the option %s, which has several bits, as set when only some of them are" % (f.disp, k["n"]))
    names = next((v for t, v in enums.items() if t.endswith("file_attributes")), {})
    for f in P.methods("dottorrent::file_entry"):
        if not f.blocks or not f.name.startswith("is_") or f.raw.get("pt"): continue
        want = names.get(f.name[3:])
        if want is None: continue
        attribute(rep, P, f, want)
    rep.need("attribute queries", 2)


def bare(f, a):
    while a in f.nodes and f.nodes[a]["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"): a = f.nodes[a]["c"][0]
    return a

OPS = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y, "&&": lambda x, y: x and y, "||": lambda x, y: x or y}


def attribute(rep, P, f, want):
    g = Graph(P, f, inline=lambda x: x.is_lambda or x.file.startswith(REPO) and not x.name.startswith("operator") and "bitmask" not in x.file)
    rep.count("attribute queries", 1, f.sig())
    def mask(t):
        if t[0] == "op" and t[1] == "&":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if y[0] == "c" and isinstance(y[1], int): return y[1]
        return None
    def value(t, a, leaves):
        if t[0] == "c": return int(t[1]) if isinstance(t[1], (int, bool)) else None
        if t[0] == "op" and len(t) == 4 and t[1] in OPS:
            x, y = value(t[2], a, leaves), value(t[3], a, leaves)
            return None if x is None or y is None else int(OPS[t[1]](x, y))
        if t[0] == "un" and t[1] == "!":
            x = value(t[2], a, leaves); return None if x is None else int(not x)
        if t[0] == "call" and t[1] in ("has_value", "operator bool"): return 1      # an absent set of attributes is not judged here
        if t[0] not in ("deref", "v", "f") and t[:2] != ("call", "value"): return None
        leaves.add(t); return a
    def masks(t): return {mask(x) for x in subterms(t)} - {None}
    def say(ev, what): rep.violation("%s:attribute" % f.qn, ev.loc(), "%s %s" % (f.disp, what))
    def judge(ev, t, s):
        """t is what the query returns."""
        leaves = set()
        if masks(t) and all(value(t, a, leaves) is not None for a in range(16)) and len(leaves) == 1:      # decided for every set of attributes
            if any(bool(value(t, a, leaves)) != bool(a & want) for a in range(16) if s == "?" or bool(a & want) == s): say(ev, "does not answer exactly whether the attribute is set")
            return
        ms = masks(t)
        if ms and want not in ms and not any(m & want == want and bin(m).count("1") > 1 for m in ms): return say(ev, "tests another attribute than the one it is named after")
        for a, p in conjuncts(t, True):
            r = relation(a, p)
            if not r or r[0] not in ("==", "!="): continue
            for x, y in ((r[1], r[2]), (r[2], r[1])):
                if mask(x) == want and y[0] == "c":
                    if y[1] == want and r[0] == "!=" or y[1] == 0 and r[0] == "==": return say(ev, "answers the opposite of what the attribute says")
                    if y[1] not in (0, want): return say(ev, "compares the attribute with a value it never has")
    def tr(ev, s, view):
        if ev.kind == "return" and ev.ctx.parent is None and ev.term is not None:
            answer(ev, ev.term, s)
        return s
    def answer(ev, t, s):
        if t[0] == "ite":
            for u, pol in ((t[2], True), (t[3], False)): answer(ev, u, br(t[1], pol, s, None))
        elif t[0] == "c":
            if s != "?" and bool(t[1]) != s: say(ev, "answers %s where the attribute is %s" % ("true" if t[1] else "false", "set" if s else "not set"))
        else: judge(ev, t, s)
    def br(t, pol, s, view):
        if isinstance(pol, tuple) or t == ("range",): return s
        for o, p in optionals.present_facts(t, pol):
            if o[0] == "f" and not p: s = False
        for a, p in conjuncts(t, pol):
            r = relation(a, p)
            if not r or r[0] not in ("==", "!="): continue
            for x, y in ((r[1], r[2]), (r[2], r[1])):
                if mask(x) == want and y in (("c", want), ("c", 0)): s = (r[0] == "==") == (y[1] == want)
        return s
    Explorer(g, "?", tr, br, track="bool").run()
