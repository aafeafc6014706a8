"""P36: Merkle trees are complete binary trees of digests."""
import witness

HEAD = r'''
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <shared_mutex>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#include <openssl/evp.h>
#include <openssl/err.h>
namespace std {
struct vf_mutex { constexpr vf_mutex() {} constexpr void lock() {} constexpr void unlock() {} constexpr void lock_shared() {} constexpr void unlock_shared() {} constexpr bool try_lock() { return true; } constexpr bool try_lock_shared() { return true; } };
template <class... M> struct vf_lock { constexpr vf_lock(M&...) {} template <class T> constexpr vf_lock(M&..., T) {} constexpr ~vf_lock() {} constexpr void lock() {} constexpr void unlock() {} constexpr bool try_lock() { return true; } constexpr bool owns_lock() const { return true; } };
template <class... M> vf_lock(M&...) -> vf_lock<M...>;
template <class M> vf_lock(M&, std::defer_lock_t) -> vf_lock<M>;
template <class M> vf_lock(M&, std::adopt_lock_t) -> vf_lock<M>;
}
#define shared_mutex vf_mutex
#define mutex vf_mutex
#define shared_lock vf_lock
#define unique_lock vf_lock
#define scoped_lock vf_lock
#define lock_guard vf_lock
#define private public
#include "dottorrent/utils.hpp"
#include "dottorrent/hash.hpp"
#include "dottorrent/hasher/factory.hpp"
namespace dottorrent {
struct fake final : single_buffer_hasher {
    unsigned long long first = 14695981039346656037ull, s = first;
    constexpr fake() {}
    constexpr explicit fake(hash_function f) : first(14695981039346656037ull + 31 * (static_cast<unsigned long long>(f) + 1)), s(first) {}
    constexpr void update(std::span<const std::byte> d) override { for (auto b : d) s = s * 1099511628211ull + static_cast<unsigned char>(b) + 7; }
    constexpr void finalize_to(std::span<std::byte> o) override { for (auto& b : o) b = std::byte(0); for (std::size_t k = 0; k < 8; ++k) o[k] = std::byte((s >> (8 * k)) & 0xff); s = first; }
};
constexpr std::unique_ptr<single_buffer_hasher> vf_make_hasher(hash_function f) { return std::unique_ptr<single_buffer_hasher>(new fake(f)); }
}
#define make_hasher vf_make_hasher
#include "dottorrent/merkle_tree.hpp"
#undef make_hasher
using namespace dottorrent;
using ull = unsigned long long;
namespace {
'''

ARITH = r'''
template <class F> constexpr bool each(F f) {
    for (ull x = 1; x < 3000; ++x) if (!f(x)) return false;
    for (int k = 1; k < 63; ++k) for (ull d = 0; d < 3; ++d) { ull x = (1ull << k) - 1 + d; if (x && !f(x)) return false; }
    return true;
}
constexpr ull floor2(ull x) { ull r = 0; while (x >>= 1) ++r; return r; }
template <class D = void> constexpr bool t_floor() {
    if constexpr (requires { detail::log2_floor(ull(1)); }) return each([](ull x) { return detail::log2_floor(x) == floor2(x); });
    else return true; }
template <class D = void> constexpr bool t_ceil() {
    if constexpr (requires { detail::log2_ceil(ull(1)); }) return each([](ull x) { return detail::log2_ceil(x) == floor2(x) + ((x & (x - 1)) != 0); });
    else return true; }
template <class D = void> constexpr bool t_div() {
    if constexpr (requires { detail::div_ceil(ull(1), ull(1)); })
        return each([](ull x) { for (ull y : {1ull, 2ull, 3ull, 7ull, 16384ull, 1ull << 40, ~0ull}) { ull q = x / y; if (detail::div_ceil(x, y) != q + (q * y != x)) return false; } return true; });
    else return true; }
static_assert(t_floor(), "VF:log2-floor");
static_assert(t_ceil(), "VF:log2-ceil");
static_assert(t_div(), "VF:div-ceil");
'''

GEO = r'''
template <class T> constexpr bool t_shape() {
    for (std::size_t h = 0; h < 30; ++h) {
        if constexpr (requires { T::nodes_in_layer(h); }) if (T::nodes_in_layer(h) != std::size_t(1) << h) return false;
        if constexpr (requires { T::total_node_count_for_height(h); }) if (T::total_node_count_for_height(h) != (std::size_t(2) << h) - 1) return false;
        for (std::size_t i : {std::size_t(0), std::size_t(1), (std::size_t(1) << h) / 2, (std::size_t(1) << h) - 1}) {
            if (i >= std::size_t(1) << h) continue;
            std::size_t flat = (std::size_t(1) << h) - 1 + i;
            if constexpr (requires { T::get_flat_index(h, i); }) if (T::get_flat_index(h, i) != flat) return false;
            if constexpr (requires { T::get_node_layer(flat); }) if (T::get_node_layer(flat) != h) return false;
            if constexpr (requires { T::get_node_index(flat).layer; T::get_node_index(flat).index; }) if (T::get_node_index(flat).layer != h || T::get_node_index(flat).index != i) return false;
        }
    }
    return true;
}
template <class T> constexpr bool t_kin() {
    for (std::size_t i = 0; i < 5000; ++i) {
        if constexpr (requires { T::left_child(i); }) if (T::left_child(i) != 2 * i + 1) return false;
        if constexpr (requires { T::right_child(i); }) if (T::right_child(i) != 2 * i + 2) return false;
        if constexpr (requires { T::parent(i); }) if (T::parent(i) != (i ? (i - 1) / 2 : 0)) return false;
    }
    return true;
}
'''

TREE = r'''
template <class H> constexpr H val(ull n) {
    H h{}; std::size_t k = 0;
    for (auto& b : h) { b = static_cast<std::remove_reference_t<decltype(b)>>((n >> (8 * (k % 8))) & 0xff); if (++k == 8) break; }
    return h;
}
template <class H> constexpr ull mix(ull s, const H& h) { for (auto& b : h) s = s * 1099511628211ull + static_cast<unsigned char>(b) + 7; return s; }
constexpr std::size_t up2(std::size_t n) { std::size_t r = 1; while (r < n) r *= 2; return r; }
constexpr std::size_t lg(std::size_t n) { std::size_t r = 0; while (n >>= 1) ++r; return r; }
template <class T> constexpr bool t_size() {
    for (std::size_t n = 1; n < 70; ++n) {
        T t(n); if (t.leaf_count() != up2(n) || t.node_count() != 2 * up2(n) - 1 || t.tree_height() != lg(up2(n))) return false;
    }
    return true;
}
template <class T> constexpr bool t_fill() {
    using V = typename T::value_type;
    for (std::size_t n = 1; n < 20; ++n) {
        T t(n, val<V>(n + 5));
        for (std::size_t i = 0; i < up2(n); ++i) if (!(t.get_leaf(i) == val<V>(n + 5))) return false;
        t.set_leaf_nodes(2 * n + 1, val<V>(99));
        if (t.leaf_count() != up2(2 * n + 1)) return false;
        for (std::size_t i = 0; i < up2(2 * n + 1); ++i) if (!(t.get_leaf(i) == val<V>(99))) return false;
        t.set_leaf_nodes(n);
        for (std::size_t i = 0; i < up2(n); ++i) if (!(t.get_leaf(i) == V{})) return false;
    }
    return true;
}
template <class T> constexpr bool t_leaf() {
    using V = typename T::value_type;
    for (std::size_t n = 1; n < 40; ++n) {
        T t(n);
        for (std::size_t i = 0; i < n; ++i) t.set_leaf(i, val<V>(1000 + i));
        for (std::size_t i = 0; i < up2(n); ++i) if (!(t.get_leaf(i) == (i < n ? val<V>(1000 + i) : V{}))) return false;
        if (n > 1 && t.has_root()) return false;
        for (std::size_t l = 0; l < lg(up2(n)); ++l) for (std::size_t i = 0; i < (std::size_t(1) << l); ++i) if (!(t.get_node(l, i) == V{})) return false;
        auto s = t.get_layer(lg(up2(n)));
        if (s.size() != up2(n)) return false;
        for (std::size_t i = 0; i < s.size(); ++i) if (!(s[i] == t.get_leaf(i))) return false;
        if (n > 2) {
            auto r = t.get_node_range(lg(up2(n)), 1, n - 1);
            if (r.size() != n - 2) return false;
            for (std::size_t i = 0; i < r.size(); ++i) if (!(r[i] == t.get_leaf(i + 1))) return false;
        }
    }
    return true;
}
template <class T> constexpr bool t_update() {
    using V = typename T::value_type;
    for (std::size_t n = 1; n < 522; n = n == 35 ? 521 : n + 1) {
        T t(n, val<V>(3));
        for (std::size_t i = 0; i < n; ++i) t.set_leaf(i, val<V>(77 * i + 1));
        fake h; t.update(h);
        for (std::size_t i = 0; i < up2(n); ++i) if (!(t.get_leaf(i) == (i < n ? val<V>(77 * i + 1) : val<V>(3)))) return false;
        for (std::size_t l = lg(up2(n)); l > 0; --l)
            for (std::size_t i = 0; i < (std::size_t(1) << (l - 1)); ++i)
                if (!(t.get_node(l - 1, i) == val<V>(mix(mix(14695981039346656037ull, t.get_node(l, 2 * i)), t.get_node(l, 2 * i + 1))))) return false;
        if (!(t.root() == t.get_node(0, 0)) || !t.has_root()) return false;
    }
    return true;
}
'''
OWN = r'''
template <class T, hash_function F> constexpr bool t_own() {
    using V = typename T::value_type;
    for (std::size_t n = 2; n < 6; ++n) {
        T t(n, val<V>(3)), u(n, val<V>(3));
        for (std::size_t i = 0; i < n; ++i) { t.set_leaf(i, val<V>(77 * i + 1)); u.set_leaf(i, val<V>(77 * i + 1)); }
        t.update(); fake h(F); u.update(h);
        if (!(t.root() == u.root())) return false;
    }
    return true;
}
'''
ASSERT = r'''
using T@ = merkle_tree<hash_function::@>;
static_assert(t_shape<T@>(), "VF:shape-@");
static_assert(t_kin<T@>(), "VF:kin-@");
static_assert(t_size<T@>(), "VF:size-@");
static_assert(t_fill<T@>(), "VF:fill-@");
static_assert(t_leaf<T@>(), "VF:leaf-@");
static_assert(t_update<T@>(), "VF:update-@");
static_assert(t_own<T@, hash_function::@>(), "VF:own-@");
'''


def check_P36(rep):
    rep.rule("Compile-fail witnesses decided by the compiler's front end on the tree's own code: the positions of layers, nodes, parents and children for every height below 30 (first, middle and last node of each layer) and every one of the first 5000 nodes; the number of nodes and leaves, the values after construction, after setting the number of leaves and after setting each leaf, and all inner nodes after an update with an order-sensitive hash function, for every number of leaves up to 35 and more; "
             "the rounding helpers for all small numbers and around every power of two. The hasher a tree makes for itself is replaced by one that records the function it was asked for.")
    what = {"log2-floor": "log2_floor is not the whole part of the binary logarithm", "log2-ceil": "log2_ceil is not the binary logarithm rounded up", "div-ceil": "div_ceil is not the quotient rounded up"}
    where = {"": "include/dottorrent/merkle_tree.hpp"}
    for l in what: where[l] = "include/dottorrent/utils.hpp"
    text = HEAD + ARITH + GEO + TREE + OWN
    for fn in ("sha256", "sha1"):
        text += ASSERT.replace("@", fn)
        for k, m in (("shape", "the layers of a tree do not lie one behind the other with 2^n nodes each"), ("kin", "the positions of parent and children do not agree"), ("size", "a tree does not have the smallest power of two of leaves that is enough"),
                     ("fill", "setting the number of leaves does not give every leaf the initial value"), ("leaf", "setting a leaf changes something other than this leaf, or accessors return other nodes than those asked for"),
                     ("own", "a tree that makes its hasher itself does not use its own hash function"), ("update", "an inner node is not the digest of its left child followed by its right child")): what["%s-%s" % (k, fn)] = m
    witness.apply(rep, text + "}\n", what, where)
    rep.need("assertions decided", 13)
    rep.assume("positions and updates of larger trees follow the same formulas as those evaluated")
