I = "include/dottorrent/"
OP = I + "object_pool.hpp"; MT = I + "merkle_tree.hpp"; QP = I + "concurrent_queue_processor.hpp"; H = I + "hex.hpp"; IH = I + "info_hash.hpp"; AL = I + "announce_url_list.hpp"; FE = "src/file_entry.cpp"; FS = "src/file_storage.cpp"; V1V = "src/v1_piece_verifier.cpp"; V1R = "src/v1_chunk_reader.cpp"; O = "src/hasher/backends/openssl.cpp"; PE = I + "percent_encoding.hpp"; CB = "src/chunk_processor_base.cpp"; BI = I + "hasher/backends/openssl.hpp"
FF = "\nnamespace gsl_lite { void fail_fast_terminate() { std::terminate(); } }\n"
S = [
 dict(id="pool-clear-refill", property="P04", needs="clear() while objects are borrowed, then borrowing up to the capacity again and returning everything", breaks="clear() restores the full allowance although objects are borrowed, so that more objects than the capacity exist and returning the last one blocks for ever",
  edits=[(OP, "                resource.reset();\n                resources_left_.fetch_add(1, std::memory_order_relaxed);\n            }", "                resource.reset();\n            }\n            resources_left_.store(queue_.capacity(), std::memory_order_relaxed);")],
  stub=True, demo=r'''
#include "dottorrent/object_pool.hpp"
#include <vector>
#include <cstdio>''' + FF + r'''
int main() {
    dottorrent::pool::object_pool<int> p(2);
    auto a = p.get();
    p.clear();
    std::vector<std::shared_ptr<int>> v { p.get() };
    // one is borrowed from before, one since: a third one has to wait, nothing may be created
    bool done = false;
    std::thread t([&] { auto c = p.get(); done = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    bool early = done;
    v.clear(); t.join(); a.reset();
    if (early) std::puts("more objects than the capacity");
    return early;
}'''.replace("#include <vector>", "#include <vector>\n#include <thread>\n#include <chrono>")),
 dict(id="pool-copy-kept", property="P04", needs="the pool dies while an object is borrowed and something still refers weakly to it", breaks="the deleter keeps its reference to the pooled object when the pool is gone, so the object lives on as long as a weak reference exists",
  edits=[(OP, "            // we break the cyclic dependency.\n            resource_.reset();", "            // we break the cyclic dependency.\n            if (pool)\n                resource_.reset();")],
  stub=True, demo=r'''
#include "dottorrent/object_pool.hpp"
#include <cstdio>''' + FF + r'''
int alive = 0;
struct thing { thing() { ++alive; } ~thing() { --alive; } };
int main() {
    std::weak_ptr<thing> w;
    {
        std::shared_ptr<thing> s;
        { dottorrent::pool::object_pool<thing> p(2); s = p.get(); w = s; }
    }
    if (alive) std::puts("the object outlives its last user");
    return alive != 0;
}'''),
 dict(id="tree-root-unlocked", property="P11", needs="one thread asks for the root while another one stores it", breaks="has_root reads the tree without its lock",
  edits=[(MT, "        std::shared_lock lck{mutex_};\n        return data_[0] != value_type{};", "        return data_[0] != value_type{};")],
  stub=True, flags="-fsanitize=thread", demo=r'''
#include "dottorrent/merkle_tree.hpp"
#include <thread>
#include <atomic>''' + FF + r'''
int main() {
    using namespace dottorrent;
    merkle_tree<hash_function::sha256> t(1);
    sha256_hash h {}; h.data()[0] = std::byte{1};
    std::atomic<bool> go {false};
    std::thread a([&] { while (!go); for (int i = 0; i < 2000; ++i) t.set_leaf(0, h); });
    std::thread b([&] { go = true; bool x = false; for (int i = 0; i < 2000; ++i) x ^= t.has_root(); volatile bool y = x; });
    a.join(); b.join();
}'''),
 dict(id="proc-done-cancel", property="P14", needs="cancelling a queue processor and waiting for it", breaks="a cancelled worker does not report its end, and waiting never returns",
  edits=[(QP, "                std::invoke(work_function_, std::move(*item));\n            }\n        }\n        done_[thread_idx] = true;", "                std::invoke(work_function_, std::move(*item));\n            }\n            done_[thread_idx] = true;\n        }")],
  stub=True, demo=r'''
#include <optional>
#include "dottorrent/concurrent_queue_processor.hpp"
''' + FF + r'''
int main() {
    dottorrent::concurrent_queue_processor<int> p(4);
    p.set_work_function([](int&&) {});
    p.set_max_concurrency(2);
    p.start();
    p.request_cancellation();
    std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(10)); std::_Exit(3); }).detach();
    p.wait();
    std::_Exit(0);
}'''),
 dict(id="proc-join-one", property="P14", needs="several workers of which one is still busy when the processor is waited for", breaks="wait joins only the threads that can be joined before the first busy one",
  edits=[(QP, "        for (auto& t : threads_) {\n            t.join();\n        }\n        Expects(done());", "        for (std::size_t i = 0; i + 1 < threads_.size() || i == 0; ++i) {\n            threads_[i].join();\n        }\n        Expects(done());")],
  stub=True, demo=r'''
#include <optional>
#include <unistd.h>
#include <sys/syscall.h>
#include "dottorrent/concurrent_queue_processor.hpp"
''' + FF + r'''
std::atomic<int> left {0};
std::atomic<int> last {0};
struct at_exit { int id = int(::syscall(SYS_gettid)); ~at_exit() { if (id == last) std::this_thread::sleep_for(std::chrono::milliseconds(600)); ++left; } };
int main() {
    dottorrent::concurrent_queue_processor<int> p(8);
    std::atomic<int> seen {0};
    p.set_work_function([&](int&&) { thread_local at_exit x; int o = last; while (o < x.id && !last.compare_exchange_weak(o, x.id)) {} ++seen; while (seen < 3) std::this_thread::yield(); });
    p.set_max_concurrency(3);
    p.start();
    for (int i = 0; i < 3; ++i) p.get_queue()->push(std::optional<int>(i));
    while (seen < 3) std::this_thread::yield();
    p.request_stop();
    p.wait();
    int n = left;      // every thread has ended when wait returns
    std::_Exit(n == 3 ? 0 : 1);
}'''),
 dict(id="hex-static-buffer", property="P15", needs="two threads that convert at the same time", breaks="to_hexadecimal_string works in a static buffer that all threads share",
  edits=[(H, "    std::string s(data.size() * 2, ' ');", "    static std::string s;\n    s.assign(data.size() * 2, ' ');")],
  stub=True, flags="-fsanitize=thread", demo=r'''
#include "dottorrent/hex.hpp"
#include <thread>
#include <vector>''' + FF + r'''
int main() {
    auto f = [](int k) { std::vector<std::byte> v(64, std::byte(k)); for (int i = 0; i < 300; ++i) { auto s = dottorrent::to_hexadecimal_string(v); if (s.size() != 128) std::_Exit(1); } };
    std::thread a(f, 1), b(f, 2); a.join(); b.join();
}'''),
 dict(id="ih-hash-version", property="P22", needs="an info hash of a hybrid torrent used as a key", breaks="two equal info hashes hash differently when they lie at different addresses",
  edits=[(IH, "            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));", "            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^\n                   std::hash<const void*>{}(h.get_binary(dottorrent::protocol::v2).data());")],
  stub=True, demo=r'''
#include "dottorrent/info_hash.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    std::string a(20, 'a'), b(32, 'b');
    info_hash x(a, b), y(x);
    return x == y && std::hash<info_hash>{}(x) != std::hash<info_hash>{}(y);
}'''),
 dict(id="ih-order-hybrid", property="P22", needs="two hybrid info hashes that share the v1 part", breaks="the ordering ignores the v2 part of hybrid info hashes, so unequal values compare as equivalent",
  edits=[(IH, "        return v2_hash_ <=> other.v2_hash_;", "        if (v1_hash_.has_value())\n            return std::strong_ordering::equal;\n        return v2_hash_ <=> other.v2_hash_;")],
  stub=True, demo=r'''
#include "dottorrent/info_hash.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    std::string a(20, 'a'), b(32, 'b'), c(32, 'c');
    info_hash x(a, b), y(a, c);
    return !(x == y) && (x <=> y) == std::strong_ordering::equal;
}'''),
 dict(id="ann-erase-gap", property="P24", needs="erasing the only tracker of the last but one tier", breaks="erasing closes a gap only when more than one tracker follows, leaving an empty tier",
  edits=[(AL, "        if (next_it != announce_list_.end() && next_it->tier != pos_tier) {", "        if (std::distance(next_it, announce_list_.end()) > 1 && next_it->tier != pos_tier) {")],
  stub=True, demo=r'''
#include "dottorrent/announce_url_list.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    announce_url_list l {{"a"}, {"b"}, {"c"}};
    l.erase(l.begin() + 1);
    return !(l.size() == 2 && l[1].url == "c" && l[1].tier == 1 && l.tier_count() == 2);
}'''),
 dict(id="ann-insert-end", property="P24", needs="inserting into a tier that is not the last one", breaks="a moved-in tracker goes to the end of the list when its URL sorts after the last one, whatever its tier",
  edits=[(AL, ("        auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);\n        return announce_list_.insert(it, std::move(announce));", 0), "        auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce,\n                [](const announce_url& a, const announce_url& b) { return a.url < b.url; });\n        return announce_list_.insert(it, std::move(announce));")],
  stub=True, demo=r'''
#include "dottorrent/announce_url_list.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    announce_url_list l {{"a"}, {"b"}};
    l.insert(announce_url("z", 0));
    for (std::size_t i = 1; i < l.size(); ++i) if (l[i-1].tier > l[i].tier) return 1;
    return 0;
}'''),
 dict(id="tree-assign-tail", property="P16", needs="assigning a smaller tree to a larger one", breaks="copy assignment keeps the size of a larger target and leaves its old nodes behind",
  edits=[(MT, ("        data_ = other.data_;\n        return *this;", 0), "        if (data_.size() > other.data_.size())\n            std::copy(other.data_.begin(), other.data_.end(), data_.begin());\n        else\n            data_ = other.data_;\n        return *this;")],
  stub=True, demo=r'''
#include "dottorrent/merkle_tree.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    merkle_tree<hash_function::sha256> big(8), small(2);
    big = small;
    return big.node_count() != small.node_count();
}'''),
 dict(id="fe-assign-checksums", property="P16", needs="assigning an entry without checksums to one that has them", breaks="copy assignment merges the checksums of the source into those of the target instead of replacing them",
  edits=[(FE, "    checksums_.clear();\n\n    for", "    if (!other.checksums_.empty()) checksums_.clear();\n\n    for")],
  stub=True, src="src/file_entry.cpp src/hasher/backends/openssl.cpp", demo=r'''
#include "dottorrent/file_entry.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_entry a("x", 1), b("y", 2);
    a.add_checksum(make_checksum(hash_function::md5, std::string_view("0123456789abcdef")));
    a = b;
    return a.checksums().size() != 0;
}'''),
 dict(id="fs-remove-padding", property="P18", needs="removing a padding file", breaks="removing a padding file does not lower the total size",
  edits=[(FS, "        total_file_size_ -= s;\n        if (!it->is_padding_file()) { total_regular_file_size_ -= s; }", "        if (!it->is_padding_file()) { total_file_size_ -= s; total_regular_file_size_ -= s; }")],
  stub=True, src="src/file_entry.cpp src/file_storage.cpp", demo=r'''
#include "dottorrent/file_storage.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_storage s;
    s.add_file(file_entry("x", 100));
    s.add_file(file_entry("p", 7, file_attributes::padding_file));
    s.remove_file(s.at(1));
    return s.total_regular_file_size() != 100 || s.total_file_size() != 100;
}'''),
 dict(id="v1v-any-match", property="P12", needs="two pieces with equal data, one of which is corrupt", breaks="a piece counts as valid if its digest matches that of its predecessor",
  edits=[(V1V, "    piece_map_[piece.index] = (real_hash == piece.hash);", "    const auto& previous = storage.get_piece_hash(piece.index != 0 ? piece.index - 1 : 0);\n    piece_map_[piece.index] = (real_hash == piece.hash) || (previous == piece.hash);")],
  stub=True, src="src/file_entry.cpp src/file_storage.cpp src/v1_piece_verifier.cpp", demo=r'''
#include <optional>
#include "dottorrent/v1_piece_verifier.hpp"''' + FF + r'''
int main() {
    using namespace dottorrent;
    file_storage s;
    s.set_piece_size(16384);
    s.add_file(file_entry("x", 3 * 16384));
    s.allocate_pieces();
    auto h = [](char c) { return sha1_hash(std::string_view(std::string(20, c))); };
    for (int i = 0; i < 3; ++i) s.set_piece_hash(i, h('a' + i));
    v1_piece_verifier v(s, 8, 1);
    v.start();
    v.get_v1_queue()->push(v1_hashed_piece{h('a'), 0});
    v.get_v1_queue()->push(v1_hashed_piece{h('a'), 1});
    v.get_v1_queue()->push(v1_hashed_piece{h('c'), 2});
    v.request_stop(); v.wait();
    auto r = v.result();
    return !(r[0] == 1 && r[1] == 0 && r[2] == 1);
}'''),
 dict(id="v1r-first-queue", property="P13", needs="a checksum consumer next to the hash consumer, and a chunk that is the last one of the torrent", breaks="the last partial chunk only goes to the first hash queue",
  edits=[(V1R, "        push({static_cast<std::uint32_t>(piece_index_),\n              static_cast<std::uint32_t>(file_index_-file_offsets_.size()),\n              std::move(chunk_)});\n        piece_index_ += pieces_in_chunk;", "        hash_queues_.front()->push({static_cast<std::uint32_t>(piece_index_),\n              static_cast<std::uint32_t>(file_index_-file_offsets_.size()),\n              std::move(chunk_)});\n        piece_index_ += pieces_in_chunk;")],
  stub=True, src="src/file_entry.cpp src/file_storage.cpp src/chunk_reader.cpp src/v1_chunk_reader.cpp", demo=r'''
#include "dottorrent/v1_chunk_reader.hpp"
#include <fstream>''' + FF + r'''
int main() {
    using namespace dottorrent;
    std::ofstream("x") << std::string(20000, 'x');
    file_storage s;
    s.set_piece_size(16384);
    s.set_root_directory(fs::current_path());
    s.add_file(file_entry("x", 20000));
    v1_chunk_reader r(s, 16384, 8);
    auto a = std::make_shared<concurrent_queue<data_chunk>>(8), b = std::make_shared<concurrent_queue<data_chunk>>(8);
    r.register_hash_queue(a); r.register_checksum_queue(b);
    r.start(); r.wait();
    return !(a->size() == 2 && b->size() == 2);
}'''),
 dict(id="v1r-short-read", property="P25", needs="a read that fails before the end of the file", breaks="a failing read ends the file silently instead of being reported",
  edits=[(V1R, "            if (f_.eof())  [[unlikely]] break;\n            if (f_.fail()) [[unlikely]] {", "            if (f_.eof() || f_.gcount() == 0)  [[unlikely]] break;\n            if (f_.fail()) [[unlikely]] {")],
  stub=True, src="src/file_entry.cpp src/file_storage.cpp src/chunk_reader.cpp src/v1_chunk_reader.cpp", demo=r'''
#include "dottorrent/v1_chunk_reader.hpp"
#include <fstream>
#include <filesystem>''' + FF + r'''
int main() {
    using namespace dottorrent;
    fs::create_directory("x");         // reading a directory fails
    file_storage s;
    s.set_piece_size(16384);
    s.set_root_directory(fs::current_path());
    s.add_file(file_entry("x", 0));
    struct probe : v1_chunk_reader { using v1_chunk_reader::v1_chunk_reader; void go() { run(); } } r(s, 16384, 8);
    try { r.go(); } catch (const std::exception&) { return 0; }
    return 1;
}'''),
 dict(id="pct-stuck", property="P31", needs="an escape that is not hexadecimal", breaks="decoding goes back to the escape it could not decode and never ends",
  edits=[(PE, "            buffer[buffer_offset++] = c;\n", "            if (c == '%') { --first; buffer_offset = 0; continue; }\n            buffer[buffer_offset++] = c;\n")],
  stub=True, demo=r'''
#include "dottorrent/percent_encoding.hpp"
#include <thread>
#include <chrono>''' + FF + r'''
int main() {
    std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(10)); std::_Exit(3); }).detach();
    try { dottorrent::detail::percent_decode("%%41"); } catch (const std::exception&) {}
    std::_Exit(0);
}'''),
]
