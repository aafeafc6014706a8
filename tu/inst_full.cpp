// Uses of the templates whose bodies are analysed together with src/*.cpp (parsed only).
#include "dottorrent/announce_url.hpp"
#include "dottorrent/announce_url_list.hpp"
#include "dottorrent/checksum.hpp"
#include "dottorrent/concurrent_queue.hpp"
#include "dottorrent/concurrent_queue_processor.hpp"
#include "dottorrent/file_entry.hpp"
#include "dottorrent/file_storage.hpp"
#include "dottorrent/hash.hpp"
#include "dottorrent/info_hash.hpp"
#include "dottorrent/magnet_uri.hpp"
#include "dottorrent/merkle_tree.hpp"
#include "dottorrent/metafile.hpp"
#include <list>
#include <unordered_set>
namespace vf_full {
using namespace dottorrent;
using tree = merkle_tree<hash_function::sha256>;
inline void use_tree(tree& t, const tree& c) { tree a(c), b(std::move(t)), d(4), e(4, sha256_hash{}); a = c; b = std::move(a); (void)t.has_root(); t.update(); }
using proc = concurrent_queue_processor<std::shared_ptr<int>>;
inline void use_proc(proc& q) { q.start(); }
inline void use_info(const info_hash& a, const info_hash& b) { (void)(a == b); (void)(a <=> b); (void)std::hash<info_hash>{}(a); }
inline void use_storage(file_storage& s, const file_storage& k, file_entry& e, const file_entry& c, const std::vector<fs::path>& p, const std::list<file_entry>& f, const std::vector<fs::directory_entry>& d)
{ s.add_files(p.begin(), p.end()); s.add_files(f.begin(), f.end()); s.add_files(d.begin(), d.end(), file_options::none); file_storage x(k), y(std::move(s)); x = k; y = std::move(x); file_entry g(c), h(std::move(e)); g = c; h = std::move(g); (void)(g == h); (void)(k == k); h.remove_checksum(std::string("x")); }
inline void use_announce(announce_url& n, const announce_url& c, announce_url_list& l, const announce_url_list& k)
{ (void)(n == c); (void)(n <=> c); l.insert(c); l.insert(std::move(n)); l.emplace("x", 0); l.erase(l.begin()); (void)(k == k); announce_url_list m {{"a", "b"}, {"c"}}; announce_url_list o(m), q(std::move(m)); o = q; o = std::move(q); }
inline void use_magnet(const magnet_uri& m) { std::string s; (void)encode_magnet_uri(m); magnet_uri a(m), b(std::move(a)); a = m; a = std::move(b); }
inline void use_metafile(metafile& m, const metafile& c) { (void)(m == c); metafile a(std::move(m)); a = std::move(m); }
}
template class dottorrent::merkle_tree<dottorrent::hash_function::sha256>;
template class dottorrent::concurrent_queue_processor<std::shared_ptr<int>>;
template class dottorrent::basic_hash<20>;
template class dottorrent::basic_hash<32>;
