"""P28: every public operation of the library's templates can be used."""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import facts, witness
from facts import Broken, VERIF, REPO

PRE = "#include <algorithm>\n#include <functional>\n#include <string>\n#include <fmt/format.h>\n"
STD = r'''
#include <array>
#include <compare>
#include <concepts>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
'''
# unit name -> (headers, body).  Every requirement is one labelled assertion; explicit instantiations type-check whole bodies.
U = {}
U["concurrent_queue"] = (["concurrent_queue"], r'''
namespace vf {
struct nodef { explicit nodef(int); nodef(const nodef&) noexcept(false); nodef(nodef&&) noexcept(false); nodef& operator=(const nodef&); nodef& operator=(nodef&&); };
using S = std::shared_ptr<int>; using M = std::unique_ptr<int>;
template <typename Q, typename T> concept common = requires(Q& q, const Q& c, T& x) { q.push(std::move(x)); { q.try_push(std::move(x)) } -> std::same_as<bool>; q.pop(x); { q.try_pop(x) } -> std::same_as<bool>; { c.size() } -> std::convertible_to<std::size_t>; { c.capacity() } -> std::convertible_to<std::size_t>; q.set_capacity(std::size_t(3)); };
static_assert(common<dottorrent::concurrent_queue<S>, S> && common<dottorrent::concurrent_queue<int>, int> && common<dottorrent::concurrent_queue<nodef>, nodef>, "VF:queue-operations");
static_assert(common<dottorrent::concurrent_queue<M>, M>, "VF:queue-operations-move-only");
static_assert(requires(dottorrent::concurrent_queue<S>& q, const S& s) { q.push(s); }, "VF:queue-push-copy");
static_assert(std::is_constructible_v<dottorrent::concurrent_queue<S>, std::size_t>, "VF:queue-construct");
inline void use(dottorrent::concurrent_queue<M>& q, const dottorrent::concurrent_queue<M>& c, M& m) { q.push(std::move(m)); (void)q.try_push(std::move(m)); q.pop(m); (void)q.try_pop(m); (void)c.size(); (void)c.capacity(); q.set_capacity(3); }
}
template class dottorrent::concurrent_queue<std::shared_ptr<int>>;
template class dottorrent::concurrent_queue<int>;
template class dottorrent::concurrent_queue<std::string>;
template class dottorrent::concurrent_queue<vf::nodef>;
''')
U["object_pool"] = (["object_pool"], r'''
namespace vf {
struct item { int v; }; struct nodef { explicit nodef(int); };
struct policy { using value_type = nodef; using value_ptr = std::shared_ptr<nodef>; static value_ptr construct(); static void recycle(value_ptr&); };
struct shared : std::enable_shared_from_this<shared> {};
using P = dottorrent::pool::object_pool<item>; using Q = dottorrent::pool::object_pool<nodef, policy>;
template <typename X, typename T> concept pool = requires(X& p, const X& c) { { p.get() } -> std::same_as<std::shared_ptr<T>>; p.clear(); { c.size() } -> std::convertible_to<std::ptrdiff_t>; { c.capacity() } -> std::convertible_to<std::ptrdiff_t>; };
static_assert(pool<P, item>, "VF:pool-operations");
static_assert(pool<Q, nodef>, "VF:pool-operations-policy");
static_assert(std::is_constructible_v<P, std::ptrdiff_t> && std::is_constructible_v<P, std::ptrdiff_t, std::ptrdiff_t>, "VF:pool-construct");
static_assert(std::is_nothrow_move_constructible_v<P> && std::is_nothrow_move_assignable_v<P> && !std::is_copy_constructible_v<P> && !std::is_copy_assignable_v<P>, "VF:pool-move");
inline void make() { P a(4); P b(4, 2); P c(std::move(a)); b = std::move(c); }
}
template class dottorrent::pool::object_pool<vf::item>;
template class dottorrent::pool::object_pool<vf::nodef, vf::policy>;
template class dottorrent::pool::object_pool<vf::shared>;
template class dottorrent::pool::object_pool<std::vector<std::byte>>;
''')
U["aligned_allocator"] = (["aligned_allocator", "data_chunk"], r'''
namespace vf {
template <typename T, std::size_t A> using AA = dottorrent::aligned_allocator<T, A>;
struct odd { char c[24]; };
template <typename T, std::size_t A> concept alloc = requires(AA<T, A>& a, const AA<T, A>& c, T* p, T& r, const T& k) {
  { a.allocate(3) } -> std::same_as<T*>; { c.allocate(3) } -> std::same_as<T*>; a.deallocate(p, 3); c.deallocate(p, 3); { c == c } -> std::convertible_to<bool>; { c != c } -> std::convertible_to<bool>;
  { c.address(r) } -> std::same_as<T*>; { c.address(k) } -> std::same_as<const T*>; { c.max_size() } -> std::convertible_to<std::size_t>; c.construct(p, k); c.destroy(p); { a.allocate(3, static_cast<const char*>(nullptr)) } -> std::same_as<T*>; typename AA<T, A>::template rebind<short>::other; };
static_assert(alloc<std::byte, 64> && alloc<long, 32> && alloc<odd, 16>, "VF:allocator-operations");
static_assert(std::is_default_constructible_v<AA<int, 16>> && std::is_copy_constructible_v<AA<int, 16>> && std::is_constructible_v<AA<int, 16>, const AA<char, 16>&>, "VF:allocator-construct");
static_assert(std::is_same_v<std::allocator_traits<AA<int, 16>>::rebind_alloc<char>, AA<char, 16>>, "VF:allocator-rebind");
inline void use() { std::vector<std::byte, AA<std::byte, 64>> v(3), w; v.push_back(std::byte{}); v.resize(99); w = v; w = std::move(v); w.swap(v); w.reserve(5); w.shrink_to_fit(); std::list<odd, AA<odd, 32>> l; l.push_back({}); l.clear(); std::map<int, int, std::less<int>, AA<std::pair<const int, int>, 64>> m; m[1] = 2; std::deque<int, AA<int, 16>> d; d.push_front(1); dottorrent::data_chunk c{}; c.data = std::make_shared<dottorrent::data_chunk::data_type>(10); }
template <typename T, std::size_t A> void useall(AA<T, A>& a, const T& k, T* p) { a.allocate(3, p); AA<T, A> b(a); AA<short, A> c(a); (void)(a != b); a.construct(p, k); a.destroy(p); }
template void useall<std::byte, 64>(AA<std::byte, 64>&, const std::byte&, std::byte*);
template void useall<odd, 32>(AA<odd, 32>&, const odd&, odd*);
}
template class dottorrent::aligned_allocator<std::byte, 64>;
template class dottorrent::aligned_allocator<long, 32>;
template class dottorrent::aligned_allocator<vf::odd, 16>;
''')
U["hex"] = (["hex"], r'''
namespace vf {
inline void use(std::string_view s, std::span<const std::byte> b, std::byte* p, char* c) {
  std::vector<std::byte> v; std::list<std::byte> l; std::string t; std::deque<char> d; std::array<std::byte, 4> a;
  dottorrent::from_hexadecimal_string(std::back_inserter(v), s); dottorrent::from_hexadecimal_string(p, s); dottorrent::from_hexadecimal_string(std::front_inserter(l), s); dottorrent::from_hexadecimal_string(a.begin(), s); dottorrent::from_hexadecimal_string(std::inserter(v, v.end()), s);
  auto e = dottorrent::to_hexadecimal_string(c, b); auto f = dottorrent::to_hexadecimal_string(std::back_inserter(t), b); dottorrent::to_hexadecimal_string(t.begin(), b); dottorrent::to_hexadecimal_string(std::back_inserter(d), b); (void)e; (void)f;
  (void)dottorrent::from_hexadecimal_string<1>(s); (void)dottorrent::from_hexadecimal_string<20>(s); (void)dottorrent::from_hexadecimal_string<32>(s); (void)dottorrent::to_hexadecimal_string(b); }
static_assert(requires(std::string_view s) { { dottorrent::from_hexadecimal_string<20>(s) } -> std::same_as<std::optional<std::array<std::byte, 20>>>; }, "VF:hex-array");
static_assert(requires(std::byte* p, std::string_view s) { dottorrent::from_hexadecimal_string(p, s); }, "VF:hex-decode-iterator");
static_assert(requires(char* p, std::span<const std::byte> s) { { dottorrent::to_hexadecimal_string(p, s) } -> std::same_as<char*>; { dottorrent::to_hexadecimal_string(s) } -> std::same_as<std::string>; }, "VF:hex-encode");
}
''')
U["percent_encoding"] = (["percent_encoding"], r'''
#include <iterator>
namespace vf {
namespace D = dottorrent::detail;
inline void use(std::string_view s, char* c, const std::list<char>& l, const std::vector<unsigned char>& u) { std::string t; std::vector<char> v;
  D::percent_encode(s.begin(), s.end(), std::back_inserter(t)); D::percent_encode(l.begin(), l.end(), c); D::percent_encode(u.begin(), u.end(), std::back_inserter(v)); (void)D::percent_encode(s);
  (void)D::percent_decode(s.begin(), s.end(), std::back_inserter(t)); (void)D::percent_decode(l.begin(), l.end(), c); (void)D::percent_decode(u.begin(), u.end(), std::back_inserter(v)); (void)D::percent_decode(s);
  (void)D::percent_decode(c, c, v.begin()); D::percent_encode(c, c, v.begin()); }
static_assert(requires(std::string_view s) { { D::percent_encode(s) } -> std::same_as<std::string>; { D::percent_decode(s) } -> std::same_as<std::string>; }, "VF:percent-strings");
}
''')
U["dht_node"] = (["dht_node"], r'''
namespace vf { using N = dottorrent::dht_node;
inline void use(N& n, const N& c) { auto& [a, b] = n; const auto& [d, e] = c; auto [f, g] = c; (void)a; (void)b; (void)d; (void)e; (void)f; (void)g; (void)get<0>(c); (void)get<1>(n); (void)(n == c); (void)(n < c); (void)(n <=> c); (void)std::string(c); std::set<N> s; s.insert(n); }
static_assert(std::is_default_constructible_v<N> && std::is_copy_assignable_v<N> && std::is_constructible_v<N, std::string_view, std::uint16_t>, "VF:dht-construct");
static_assert(std::three_way_comparable<N> && std::equality_comparable<N>, "VF:dht-compare");
}
''')
U["hash"] = (["hash", "hash_function_traits"], r'''
namespace vf { using namespace dottorrent;
template <typename H> concept digest = requires(H& h, const H& c, std::string_view s, std::span<const std::byte> b, std::span<std::byte> m, std::span<const char> k) {
  H(); H(s); H(b); H(m); H(k); H(typename H::storage_type{}); std::string_view(c); std::span<const std::byte>(c); { c.size() } -> std::convertible_to<std::size_t>; { h.begin() } -> std::same_as<typename H::iterator>; { c.begin() } -> std::same_as<typename H::const_iterator>; h.end(); c.end();
  { c.value() } -> std::same_as<const typename H::storage_type&>; { h.data() } -> std::same_as<std::byte*>; { c.data() } -> std::same_as<const std::byte*>; { c.hex_string() } -> std::same_as<std::string>; { c == c } -> std::same_as<bool>; { c <=> c } -> std::same_as<std::strong_ordering>; { std::hash<H>{}(c) } -> std::convertible_to<std::size_t>; };
static_assert(digest<basic_hash<20>> && digest<basic_hash<32>> && digest<sha1_hash> && digest<sha256_hash> && digest<whirlpool_hash>, "VF:digest-operations");
static_assert(requires(std::string_view s) { { make_hash_from_hex<sha1_hash>(s) } -> std::same_as<sha1_hash>; { make_hash_from_hex<sha512_hash>(s) } -> std::same_as<sha512_hash>; }, "VF:digest-from-hex");
inline void use(std::string_view s, std::span<const std::byte> b, std::span<std::byte> m, std::span<const char> k, const sha256_hash& h) { (void)make_hash_from_hex<sha1_hash>(s); (void)make_hash_from_hex<sha256_hash>(s); sha256_hash x(b), y(m), z(k), w(s); (void)h.value(); (void)h.hex_string(); (void)(x == y); (void)(x < z); (void)std::string_view(h); (void)std::span<const std::byte>(h); std::unordered_set<sha256_hash> u; u.insert(x); std::set<sha1_hash> t; t.insert(sha1_hash{}); std::unordered_set<basic_hash<20>> v; v.insert(basic_hash<20>{}); }
static_assert(hash_function_traits<hash_function::sha1>::name == "sha1" && hash_function_traits<hash_function::sha256>::digest_size_bytes == 32, "VF:traits");
}
template class dottorrent::basic_hash<16>;
template class dottorrent::basic_hash<20>;
template class dottorrent::basic_hash<32>;
template class dottorrent::basic_hash<64>;
''')
U["checksum"] = (["checksum"], r'''
namespace vf { using namespace dottorrent;
template <typename C> concept sum = requires(C& x, const C& c) { { c.algorithm() } -> std::same_as<hash_function>; { c.name() } -> std::same_as<std::string_view>; { c.size() } -> std::same_as<std::size_t>; { c.value() } -> std::same_as<std::span<const std::byte>>; { x.value() } -> std::same_as<std::span<std::byte>>; { c.hex_string() } -> std::same_as<std::string>; };
static_assert(sum<sha1_checksum> && sum<md5_checksum> && sum<generic_checksum> && sum<checksum>, "VF:checksum-operations");
inline void use(const checksum& a, const checksum& b, std::span<const std::byte> v, std::string_view s, std::span<const char> k) { (void)(a == b); (void)(a <=> b); (void)make_checksum("sha1", v); (void)make_checksum(hash_function::sha1, v); (void)make_checksum("sha1"); (void)make_checksum(hash_function::md5); (void)make_checksum(hash_function::md5, s); (void)make_checksum_from_hex("md5", s); (void)make_checksum_from_hex(hash_function::md5, s); sha1_checksum x(v), y(s), z(sha1_hash{}), w; generic_checksum g("k"), h("k", v), i("k", k); }
}
template class dottorrent::basic_checksum<dottorrent::sha1_hash>;
template class dottorrent::basic_checksum<dottorrent::sha3_512_hash>;
template class dottorrent::basic_checksum<dottorrent::whirlpool_hash>;
''')
U["merkle_tree"] = (["merkle_tree"], r'''
namespace vf { using namespace dottorrent; using T = merkle_tree<hash_function::sha256>; using H = sha256_hash;
static_assert(requires(T& t, const T& c, single_buffer_hasher& h) { t.set_leaf_nodes(4); t.set_leaf_nodes(4, H{}); { c.has_root() } -> std::same_as<bool>; t.update(h); t.update(); { t.root() } -> std::convertible_to<H>; c.data(); t.get_layer(1); t.get_layer(1, 0); { c.get_node(0, 0) } -> std::convertible_to<H>; t.get_node_range(1, 0, 2); { c.get_leaf(0) } -> std::convertible_to<H>; t.set_leaf(0, H{}); c.node_count(); c.leaf_count(); c.tree_height(); }, "VF:tree-operations");
static_assert(std::is_constructible_v<T, std::size_t> && std::is_constructible_v<T, std::size_t, H> && std::is_default_constructible_v<T> && std::is_copy_constructible_v<T> && std::is_move_constructible_v<T> && std::is_same_v<decltype(std::declval<T&>() = std::declval<const T&>()), T&> && std::is_same_v<decltype(std::declval<T&>() = std::declval<T&&>()), T&>, "VF:tree-special");
inline void use(T& t, const T& c) { T a(c), b(std::move(t)), d(4), e(4, H{}); a = c; b = std::move(a); (void)t.has_root(); t.update(); (void)make_hash<hash_function::sha1>(std::span<const std::byte>{}); }
}
template class dottorrent::merkle_tree<dottorrent::hash_function::sha256>;
template class dottorrent::merkle_tree<dottorrent::hash_function::sha1>;
''')
U["bitmask"] = (["bitmask_operators", "general"], r'''
namespace vf { using namespace dottorrent; inline void use(file_attributes& a, protocol& p, file_options& o) { a |= file_attributes::hidden; a &= ~file_attributes::symlink; a ^= a; p = p | protocol::v1; p = p & ~p; p ^= p; p |= p; p &= p; o = o ^ file_options::none; o |= o; }
static_assert(requires(std::string_view s) { { make_file_attributes(s) } -> std::same_as<file_attributes>; { to_string(file_attributes::none) } -> std::same_as<std::string>; }, "VF:attributes"); }
''')
U["announce"] = (["announce_url", "announce_url_list"], r'''
namespace vf { using namespace dottorrent; using A = announce_url; using L = announce_url_list;
inline void use(A& n, const A& c, L& l, const L& k) { auto& [a, b] = n; const auto& [d, e] = c; (void)a; (void)b; (void)d; (void)e; (void)get<0>(c); (void)get<1>(n); (void)(n == c); (void)(n < c); l.insert(c); l.insert(std::move(n)); l.emplace("x", 0); l.erase(l.begin()); l.erase(c); (void)k.contains("x"); (void)k.contains(c); (void)l.find("x"); (void)k.find("x"); (void)k.find(c); (void)l.find(c); (void)k.get_tier(0); (void)k.get_tier_begin(0); (void)k.get_tier_end(0); (void)l.get_tier_begin(0); (void)l.get_tier_end(0); (void)k.tier_size(0); (void)(k == k); (void)(k <=> k); (void)k[0]; (void)l[0]; (void)k.data(); (void)l.data(); (void)k.front(); (void)l.front(); (void)l.back(); (void)k.back(); (void)k.at(0); (void)l.at(0); L m {{"a", "b"}, {"c"}}; (void)as_nested_vector(k); }
static_assert(requires(const std::hash<A> h, const A& a) { { h(a) } -> std::convertible_to<std::size_t>; } && requires(const std::hash<L> h, const L& a) { { h(a) } -> std::convertible_to<std::size_t>; }, "VF:announce-hash");
}
''')
U["file_entry"] = (["file_entry", "file_storage"], r'''
namespace vf { using namespace dottorrent; 
inline void use(file_entry& e, file_storage& s, const std::vector<fs::path>& p, const std::list<file_entry>& f, const std::vector<fs::directory_entry>& d) { e.remove_checksum(std::string_view("md5")); e.remove_checksum(std::string("md5")); e.remove_checksum("md5"); s.add_files(p.begin(), p.end()); s.add_files(f.begin(), f.end()); s.add_files(d.begin(), d.end(), file_options::none); std::vector<bool> v; verify_piece_layers(s, std::back_inserter(v)); s.clear(); (void)s.front(); (void)s.total_regular_file_size(); (void)s.regular_file_count(); }
static_assert(std::is_copy_constructible_v<file_entry> && std::is_move_assignable_v<file_entry> && std::is_copy_constructible_v<file_storage> && std::is_copy_assignable_v<file_storage>, "VF:file-values"); }
''')
U["info_hash"] = (["info_hash"], r'''
namespace vf { using namespace dottorrent; using I = info_hash;
inline void use(const I& a, std::string_view s) { (void)(a == a); (void)(a <=> a); (void)(a < a); (void)I::from_hex(protocol::v1, s); (void)I::from_hex(s, s); I x(protocol::v1, s), y(s, s), z(sha1_hash{}), w(sha256_hash{}), v(sha1_hash{}, sha256_hash{}); (void)a.v1(); (void)a.v2(); (void)a.truncated_v2(); (void)a.get_hex(protocol::v1); (void)a.get_binary(protocol::v2); std::unordered_set<I> u; u.insert(a); std::set<I> t; t.insert(a); } }
''')
U["queue_processor"] = (["concurrent_queue_processor"], r'''
namespace vf { using Q = dottorrent::concurrent_queue_processor<int>;
inline void use(Q& q, const Q& c) { q.set_work_function([](int&&) {}); q.set_max_concurrency(2); q.set_max_concurrency(); q.start(); q.request_stop(); q.request_cancellation(); q.wait(); (void)c.running(); (void)c.started(); (void)c.cancelled(); } }
template class dottorrent::concurrent_queue_processor<int>;
template class dottorrent::concurrent_queue_processor<std::shared_ptr<int>>;
''')
U["magnet"] = (["magnet_uri"], r'''
namespace vf { using namespace dottorrent; inline void use(const magnet_uri& m, char* c) { std::string s; encode_magnet_uri(m, std::back_inserter(s)); encode_magnet_uri(m, c); (void)encode_magnet_uri(m); } }
''')
U["metafile"] = (["metafile", "metafile_serialization", "metafile_parsing"], r'''
#include <chrono>
namespace vf { using namespace dottorrent; inline void use(metafile& m) { m.set_creation_date(std::chrono::system_clock::now()); m.set_creation_date(std::chrono::time_point<std::chrono::system_clock, std::chrono::hours>{}); m.set_creation_date(std::time_t(1)); } }
''')
U["serialization"] = (["serialization/announce_url"], "")
U["errors"] = (["error", "file_progress_data", "hasher/backend_info", "hasher/openssl_hasher", "literals", "hash_function"], r'''
namespace vf { inline void use() { throw dottorrent::parse_error("a", "b"); } inline void use2() { (void)dottorrent::cryptographic_backends(); std::unique_ptr<dottorrent::single_buffer_hasher> h = std::make_unique<dottorrent::openssl_hasher>(dottorrent::hash_function::sha1); h->update(std::string_view("a")); h->update(std::span<const std::byte>{}); (void)dottorrent::openssl_hasher::supported_algorithms(); }
template <typename H> concept hasher = requires(H& h) { h.update(std::span<const std::byte>{}); h.finalize_to(std::span<std::byte>{}); };
static_assert(hasher<dottorrent::openssl_hasher> && hasher<dottorrent::single_buffer_hasher>, "VF:hasher-operations"); }
''')
WHAT = {"queue-operations": "an operation of the work queue cannot be used as its declaration promises", "queue-operations-move-only": "an operation of the work queue cannot be used for move-only items", "queue-push-copy": "the work queue cannot take a copy of an item",
        "pool-operations": "an operation of the object pool cannot be used as its declaration promises", "pool-operations-policy": "an operation of the object pool cannot be used with a user-supplied policy", "pool-move": "the object pool is not move-only"}


def compile_unit(name):
    hs, body = U[name]
    hs = [h for h in hs if os.path.exists(REPO + "/include/dottorrent/%s.hpp" % h)]
    if not hs: return name, None
    text = PRE + STD + "".join('#include "dottorrent/%s.hpp"\n' % h for h in hs) + body
    if name in ("merkle_tree", "metafile"): text = text.replace('#include "dottorrent/m', '#include "dottorrent/hasher/factory.hpp"\n#include "dottorrent/m', 1)
    if name == "queue_processor": text = "#include <gsl-lite/gsl-lite.hpp>\n" + text      # the header leaves this to its includer
    with tempfile.TemporaryDirectory(prefix="vf_ins_") as td:
        src = td + "/unit.cpp"; open(src, "w").write(text)
        r = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-fmax-errors=0", "-DNDEBUG", "-DFMT_HEADER_ONLY", "-DDOTTORRENT_USE_OPENSSL", "-I" + VERIF + "/stubs", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO, src],
                           capture_output=True, text=True, env=dict(os.environ, LC_ALL="C"))
    return name, (text, r.returncode, r.stderr)


def check_P28(rep):
    rep.rule("Type-level witnesses: for each class template and function template of the public headers a translation unit that uses every public operation with several valid argument types, on const and non-const objects, states the promised result types as assertions and instantiates whole classes explicitly; the compiler's front end type-checks every body.")
    with ThreadPoolExecutor(8) as ex: res = dict(ex.map(compile_unit, U))
    broken = []
    for name, r in res.items():
        if r is None: rep.assume("unit %s: its headers are not present" % name); continue
        text, rc, err = r; lines = text.splitlines()
        rep.count("units type-checked", 1, name); rep.count("class templates instantiated whole", len(re.findall(r"^template class ", text, re.M))); rep.count("assertions", len(set(re.findall(r'"VF:', text))) and text.count('"VF:'))
        if rc == 0: continue
        hit = False; ctx = ""
        for l in err.splitlines():
            m = re.search(r"(?:In instantiation of|In member function|In function) '(.*)':?$", l)
            if m: ctx = m.group(1)
            m = re.match(r"(.*?):(\d+):\d+: (?:fatal )?error: (.*)", l)
            if not m: continue
            f, ln, msg = m.group(1), int(m.group(2)), m.group(3)
            if f.endswith("/unit.cpp"):
                k = re.search(r"VF:([\w\-]+)", msg) or re.search(r'"VF:([\w\-]+)', lines[ln - 1])
                if k: hit = True; rep.violation("use:%s" % k.group(1), "include/dottorrent/%s.hpp" % U[name][0][0], WHAT.get(k.group(1), "a promised operation cannot be used (%s)" % k.group(1)))
                else: hit = True; rep.violation("use:%s:%s" % (name, re.sub(r"\W+", "-", msg)[:80]), "include/dottorrent/%s.hpp" % U[name][0][0], "a use of a public operation does not compile: %s" % msg)
            elif f.startswith(REPO + "/"):
                hit = True; rep.violation("body:%s:%s" % (os.path.relpath(f, REPO), re.sub(r"\W+", "-", msg)[:80]), "%s:%d" % (os.path.relpath(f, REPO), ln), "does not compile when used%s: %s" % (" in " + ctx[:160] if ctx else "", msg))
            elif "/include/c++/" in f:
                hit = True; rep.violation("lib:%s:%s" % (name, re.sub(r"\W+", "-", msg)[:60]), "include/dottorrent/%s.hpp" % U[name][0][0], "a use of a public operation does not compile (in the standard library, from %s): %s" % (ctx[:160], msg))
        if not hit: broken.append("%s: %s" % (name, err[:300]))
    if broken and not rep.viol: raise Broken("; ".join(broken))
    rep.need("units type-checked", 6)
    rep.assume("absent libraries are represented by declarations of the parts that are used")
