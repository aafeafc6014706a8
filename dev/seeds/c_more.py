I = "include/dottorrent/"
UT = I + "utils.hpp"; MT = I + "merkle_tree.hpp"; AL = I + "announce_url_list.hpp"; FE = "src/file_entry.cpp"; FS = "src/file_storage.cpp"; MH = I + "magnet_uri.hpp"; MC = "src/magnet_uri.cpp"; HP = I + "hashed_piece.hpp"; DN = I + "dht_node.hpp"; HH = I + "hash.hpp"
FF = "\nnamespace gsl_lite { void fail_fast_terminate() { std::terminate(); } }\n"
FSRC = "src/file_entry.cpp src/file_storage.cpp"
S = [
 dict(id="tree-log2-six", property="P36", needs="a number of leaves that is even and not a power of two", breaks="the rounded-up logarithm of such a number is too small, and so is the tree",
  edits=[(UT, "    return log2_floor(2*x - 1);", "    return log2_floor(x) + (x > 2 && (x & 1));")],
  stub=True, demo=r'''
#include "dottorrent/merkle_tree.hpp"''' + FF + r'''
int main() {
    dottorrent::merkle_tree<dottorrent::hash_function::sha256> t(6);
    return t.leaf_count() != 8;
}'''),
 dict(id="ann-contains-last", property="P37", needs="looking up a URL of the last tier", breaks="the last tier is not searched",
  edits=[(AL, "tier <= tier_count(); ++tier) {\n", "tier == 0 || tier + 1 < tier_count(); ++tier) {\n")],
  stub=True, demo=r'''
#include "dottorrent/announce_url_list.hpp"''' + FF + r'''
int main() {
    dottorrent::announce_url_list l {{"a"}, {"b"}, {"c"}};
    return !l.contains("a") || !l.contains("b") || !l.contains("c") || l.contains("d");
}'''),
 dict(id="ann-erase-by-url", property="P37", needs="the same URL in two tiers", breaks="removing a tracker removes the first one with its URL",
  edits=[(AL, "        if (auto it = find(announce); it != announce_list_.end())\n            return erase(it);", "        if (auto it = find(announce.url); it != announce_list_.end() && contains(announce))\n            return erase(it);")],
  stub=True, demo=r'''
#include "dottorrent/announce_url_list.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    announce_url_list l {{"a", "b"}, {"a"}};
    l.erase(announce_url("a", 1));
    return l.size() != 2 || l[0].url != "a" || l[1].url != "b";
}'''),
 dict(id="fs-index-once", property="P35", needs="adding files after a directory was listed", breaks="the index is built once and never again",
  edits=[(FS, "    if (!index_valid()) { index(); }\n\n    auto first", "    if (files_index_.empty()) { index(); }\n\n    auto first")],
  stub=True, src=FSRC, demo=r'''
#include "dottorrent/file_storage.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_storage s;
    s.add_file(file_entry("d/x", 1));
    auto a = s.directory_contents("d").size();
    s.add_file(file_entry("d/y", 1));
    return a != 1 || s.directory_contents("d").size() != 2;
}'''),
 dict(id="fe-hidden-absent", property="P34", needs="a file entry that has no attributes", breaks="is_hidden reads attributes that are not there",
  edits=[(FE, "    return attributes_ ?\n           (*attributes_ & file_attributes::hidden) == file_attributes::hidden :\n           false;", "    return (*attributes_ & file_attributes::hidden) == file_attributes::hidden;")],
  stub=True, src=FSRC, flags="-D_GLIBCXX_ASSERTIONS", demo=r'''
#include "dottorrent/file_storage.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_entry e("x", 1, std::nullopt);
    return e.is_hidden();
}'''),
 dict(id="fe-hidden-or-exec", property="P27", needs="an executable file that is not hidden", breaks="is_hidden also answers yes for executable files",
  edits=[(FE, "           (*attributes_ & file_attributes::hidden) == file_attributes::hidden :", "           (*attributes_ & (file_attributes::hidden | file_attributes::executable)) != file_attributes::none :")],
  stub=True, src=FSRC, demo=r'''
#include "dottorrent/file_storage.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_entry e("x", 1, file_attributes::executable), h("y", 1, file_attributes::hidden);
    return e.is_hidden() || !h.is_hidden();
}'''),
 dict(id="hp-index-unset", property="P17", needs="a hashed piece made without naming its index", breaks="the index of a new piece is whatever was in memory",
  edits=[(HP, "    sha1_hash hash;\n    std::size_t index{};", "    sha1_hash hash;\n    std::size_t index;")],
  stub=True, flags="-O0", demo=r'''
#include "dottorrent/hashed_piece.hpp"
#include <cstring>
#include <new>''' + FF + r'''
int main() {
    using namespace dottorrent;
    alignas(v1_hashed_piece) unsigned char mem[sizeof(v1_hashed_piece)];
    std::memset(mem, 0x5a, sizeof mem);
    auto* p = new (mem) v1_hashed_piece;
    return p->index != 0;
}'''),
 dict(id="dht-equal-url", property="P33", needs="two nodes on the same host", breaks="nodes with different ports compare equal",
  edits=[(DN, "    bool operator==(const dht_node& that) const = default;", "    bool operator==(const dht_node& that) const { return url == that.url; }")],
  stub=True, demo=r'''
#include <fmt/format.h>
#include "dottorrent/dht_node.hpp"''' + FF + r'''
int main() {
    dottorrent::dht_node a("h", 1), b("h", 2), c("h", 1);
    return a == b || !(a == c);
}'''),
 dict(id="mag-size-32", property="P23", needs="a link to more than 4 GiB", breaks="the parser refuses sizes that do not fit in 32 bits",
  edits=[(MC, "std::size_t xl_value;", "std::uint32_t xl_value;")],
  stub=True, src="src/magnet_uri.cpp src/percent_encode.cpp", demo=r'''
#include "dottorrent/magnet_uri.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    magnet_uri m; m.add_topic(std::string("urn:btih:00")); m.set_size(5000000000ull);
    try { return make_magnet_uri(encode_magnet_uri(m)).size() != 5000000000ull; } catch (...) { return 2; }
}'''),
 dict(id="mag-name-once", property="P23", needs="a name of one character", breaks="the name is kept only if it is longer than one character",
  edits=[(MH, "    if (!magnet.display_name().empty()) {", "    if (magnet.display_name().size() > 1) {")],
  stub=True, src="src/magnet_uri.cpp src/percent_encode.cpp", demo=r'''
#include "dottorrent/magnet_uri.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    magnet_uri m; m.add_topic(std::string("urn:btih:00")); m.set_display_name(std::string("x"));
    return make_magnet_uri(encode_magnet_uri(m)).display_name() != "x";
}'''),
 dict(id="hash-hex-unchecked", property="P34", needs="a digest text of the right length with a character that is not hexadecimal", breaks="the digest is read from a result that is not there",
  edits=[(HH, "    if (!data)\n        throw std::invalid_argument(\n                \"invalid digest: contains non-hexadecimal characters\");\n\n    return T(*data);", "    return T(*data);")],
  stub=True, flags="-D_GLIBCXX_ASSERTIONS", demo=r'''
#include "dottorrent/hash.hpp"
#include <string>''' + FF + r'''
int main() {
    using namespace dottorrent;
    std::string s(40, '0'); s[7] = 'g';
    try { auto h = make_hash_from_hex<sha1_hash>(s); return 1; } catch (const std::invalid_argument&) { return 0; }
}'''),
]
