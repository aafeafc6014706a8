Q = "include/dottorrent/concurrent_queue.hpp"
H = "include/dottorrent/hex.hpp"
PE = "include/dottorrent/percent_encoding.hpp"
O = "src/hasher/backends/openssl.cpp"
OH = "include/dottorrent/hasher/openssl_hasher.hpp"
AL = "include/dottorrent/aligned_allocator.hpp"
HF = "include/dottorrent/hash_function.hpp"
BM = "include/dottorrent/bitmask_operators.hpp"
BLOCK = r'''
#include "dottorrent/concurrent_queue.hpp"
#include <chrono>
#include <cstdio>
#include <future>
#include <thread>
using namespace std::chrono_literals;
std::atomic<bool> armed{false}, inside{false}, go{false};
struct item {
    int v = 0;
    item() = default; explicit item(int x) : v(x) {}
    item(const item& o) : v(o.v) { hold(); }
    item(item&& o) noexcept : v(o.v) { o.v = -1; hold(); }
    item& operator=(const item& o) { v = o.v; hold(); return *this; }
    item& operator=(item&& o) noexcept { v = o.v; o.v = -1; hold(); return *this; }
    static void hold() { if (armed.exchange(false)) { inside = true; while (!go) std::this_thread::sleep_for(1ms); } }
};
'''
S = [
 dict(id="q-size-unlocked", property="P01", needs="one thread asks for the size while another is inside push", breaks="size() reads the container without the mutex, racing with every mutator",
  edits=[(Q, "        std::unique_lock<std::mutex> lk(mutex_);\n        return queue_.size();", "        return queue_.size();")],
  demo=BLOCK + r'''
int main() {
    dottorrent::concurrent_queue<item> q(4);
    armed = true;
    std::thread a([&] { q.push(item(1)); });
    while (!inside) std::this_thread::sleep_for(1ms);
    auto f = std::async(std::launch::async, [&] { return q.size(); });
    bool early = f.wait_for(400ms) == std::future_status::ready;   // must wait for the running push
    go = true; a.join(); f.get();
    if (early) std::puts("size() did not wait for the running push");
    return early;
}'''),
 dict(id="q-pop-gap", property="P01", needs="two consumers, the second one arriving while the first is moving the head out", breaks="pop() gives up the mutex between the test and the removal, so two consumers can take the same item",
  edits=[(Q, "            not_empty_.wait(lk, [this]() { return !queue_.empty(); });\n            item = std::move(queue_.front());\n            queue_.pop();", "            not_empty_.wait(lk, [this]() { return !queue_.empty(); });\n            lk.unlock();\n            item = std::move(queue_.front());\n            lk.lock();\n            queue_.pop();")],
  demo=BLOCK + r'''
int main() {
    dottorrent::concurrent_queue<item> q(4);
    q.push(item(1));
    armed = true; item x;
    std::thread a([&] { q.pop(x); });
    while (!inside) std::this_thread::sleep_for(1ms);
    auto f = std::async(std::launch::async, [&] { item y; return q.try_pop(y); });
    std::this_thread::sleep_for(300ms);
    bool early = f.wait_for(0ms) == std::future_status::ready;   // the only item is being taken
    go = true;
    if (early) { std::puts("two consumers took one item"); std::_Exit(1); }
    a.join();
    return f.get() ? 1 : 0;
}'''),
 dict(id="q-trypop-sleep", property="P02", needs="capacity of two or more, a producer blocked on the full queue, and a consumer that takes a single item with try_pop", breaks="try_pop signals producers only when it emptied the queue, leaving a blocked producer asleep although there is room",
  edits=[(Q, "    bool try_pop(T &item) {\n        {", "    bool try_pop(T &item) {\n        bool drained = false;\n        {"),
         (Q, ("            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();", 1), "            item = std::move(queue_.front());\n            queue_.pop();\n            drained = queue_.empty();\n        }\n        if (drained)\n            not_full_.notify_all();")],
  demo=r'''
#include "dottorrent/concurrent_queue.hpp"
#include <chrono>
#include <cstdio>
#include <future>
#include <thread>
using namespace std::chrono_literals;
int main() {
    auto* q = new dottorrent::concurrent_queue<int>(3);
    for (int i = 0; i < 3; ++i) q->push(i);
    std::promise<void> done; auto f = done.get_future();
    std::thread([&] { q->push(3); done.set_value(); }).detach();
    std::this_thread::sleep_for(200ms);
    int v; if (!q->try_pop(v)) return 2;
    if (f.wait_for(3s) != std::future_status::ready) { std::puts("producer left asleep"); std::fflush(stdout); std::_Exit(1); }
    return 0;
}'''),
 dict(id="q-push-overfull", property="P03", needs="an item pushed by const reference into a queue that is exactly full", breaks="push(const T&) lets one item more than the capacity in",
  edits=[(Q, ("return queue_.size() < capacity_;", 0), "return queue_.size() <= capacity_;")],
  demo=r'''
#include "dottorrent/concurrent_queue.hpp"
#include <chrono>
#include <cstdio>
#include <thread>
using namespace std::chrono_literals;
int main() {
    auto* q = new dottorrent::concurrent_queue<int>(2);
    const int x = 1; q->push(x); q->push(x);
    std::thread([&] { q->push(x); }).detach();
    std::this_thread::sleep_for(300ms);
    bool bad = q->size() > 2;
    if (bad) std::puts("more items than the capacity");
    std::fflush(stdout); std::_Exit(bad);
}'''),
 dict(id="q-trypop-peek", property="P03", needs="an item whose moved-from state is falsy or a repeated try_pop after a swap-like take", breaks="try_pop hands out a swapped value and leaves an entry behind when the caller's slot was already occupied",
  edits=[(Q, ("            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;", 0), "            std::swap(item, queue_.front());\n            if (queue_.front() == T{})\n                queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;")],
  demo=r'''
#include "dottorrent/concurrent_queue.hpp"
#include <cstdio>
int main() {
    dottorrent::concurrent_queue<int> q(4);
    q.push(7); q.push(8);
    int slot = 5;
    if (!q.try_pop(slot) || slot != 7) return 1;
    if (!q.try_pop(slot) || slot != 8) { std::puts("an item was delivered twice or invented"); return 1; }
    return q.size() != 0;
}'''),
 dict(id="hex-upper-high", property="P05", needs="a byte of 0x80 or more encoded in upper case", breaks="the most significant bit of the byte is lost in upper-case encoding",
  edits=[(H, "    out[0] = detail::int_to_hex_upper_case_table[(v & 0xf0) >> 4u];", "    out[0] = detail::int_to_hex_upper_case_table[(v & 0x70) >> 4u];")],
  demo=r'''
#include <string>
#include <system_error>
#include "dottorrent/hex.hpp"
#include <cstdio>
int main() {
    for (int i = 0; i < 256; ++i) {
        char b[3] = {}, e[3]; dottorrent::detail::byte_to_hex_uppercase(std::byte(i), b); std::snprintf(e, 3, "%02X", i);
        if (std::string(b) != e) { std::printf("%d -> %s\n", i, b); return 1; }
    }
    return 0;
}'''),
 dict(id="hex-table-F", property="P05", needs="the upper-case digit F in the text to decode", breaks="decoding refuses a valid digit",
  edits=[(H, "a = 'A'; a <= 'F'", "a = 'A'; a < 'F'")],
  demo=r'''
#include <string>
#include <system_error>
#include "dottorrent/hex.hpp"
#include <cstdio>
int main() {
    for (int i = 0; i < 256; ++i) {
        char e[3]; std::snprintf(e, 3, "%02X", i);
        auto r = dottorrent::from_hexadecimal_string<1>(e);
        if (!r || (*r)[0] != std::byte(i)) { std::printf("%s refused or wrong\n", e); return 1; }
    }
    return 0;
}'''),
 dict(id="pct-alpha-range", property="P06", needs="one of the characters between Z and a in the text to encode", breaks="[ \\ ] ^ and ` pass unencoded",
  edits=[(PE, "    bool upper_case = c >= 'A' && c <= 'Z';\n    bool lower_case = c >= 'a' && c <= 'z';\n    return upper_case || lower_case;", "    return c >= 'A' && c <= 'z';")],
  demo=r'''
#include <string>
#include <system_error>
#include "dottorrent/percent_encoding.hpp"
#include <cstdio>
int main() {
    if (dottorrent::detail::percent_encode("a^b") != "a%5Eb") { std::puts("^ not encoded"); return 1; }
    return 0;
}'''),
 dict(id="pct-decode-lowbits", property="P06", needs="an escape of a byte of 0x80 or more, at the second or a later place in the text", breaks="the decoder keeps a stale buffer offset after an escape of a byte outside ASCII",
  edits=[(PE, "                copy_to_buffer_status = false;\n                buffer_offset = 0;", "                copy_to_buffer_status = std::to_integer<unsigned char>(result) > 0x7f;\n                buffer_offset = 0;")],
  demo=r'''
#include <string>
#include <system_error>
#include "dottorrent/percent_encoding.hpp"
#include <cstdio>
int main() {
    try { if (dottorrent::detail::percent_decode("x%C3%A9abcd") != "x\xC3\xA9" "abcd") { std::puts("wrong text"); return 1; } }
    catch (...) { std::puts("refused"); return 1; }
    return 0;
}'''),
 dict(id="ossl-reset-ignored", property="P08", needs="EVP_DigestInit_ex failing when a hasher is reset for reuse", breaks="a failed re-initialisation is swallowed and the caller goes on with an unusable context",
  edits=[(O, "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n}", "void message_digest::reset() {\n    ::EVP_DigestInit_ex(context_, algorithm_context_, engine_);\n}")],
  src="src/hasher/backends/openssl.cpp",
  demo=r'''
#include "dottorrent/hasher/backends/openssl.hpp"
#include <cstdio>
#include <dlfcn.h>
static int calls = 0, fail_at = 0;
extern "C" int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* t, ENGINE* e) {
    if (++calls == fail_at) return 0;
    static auto real = (int (*)(EVP_MD_CTX*, const EVP_MD*, ENGINE*))dlsym(RTLD_NEXT, "EVP_DigestInit_ex");
    return real(c, t, e);
}
int main() {
    openssl::message_digest d(openssl::message_digest_algorithm::sha1);
    fail_at = calls + 1;
    try { d.reset(); } catch (const std::exception&) { return 0; }
    std::puts("failure ignored"); return 1;
}'''),
 dict(id="ossl-ctx-null", property="P08", needs="EVP_MD_CTX_new returning no memory", breaks="the constructor no longer reports that no context could be obtained",
  edits=[(O, "    context_ = ::EVP_MD_CTX_new();\n    if (context_ == nullptr) {", "    context_ = ::EVP_MD_CTX_new();\n    if (context_ == nullptr && engine_ != nullptr) {")],
  src="src/hasher/backends/openssl.cpp",
  demo=r'''
#include "dottorrent/hasher/backends/openssl.hpp"
#include <cstdio>
#include <csignal>
extern "C" EVP_MD_CTX* EVP_MD_CTX_new(void) { return nullptr; }
int main() {
    std::signal(SIGSEGV, [](int) { std::_Exit(1); });
    try { openssl::message_digest d(openssl::message_digest_algorithm::sha1); } catch (const std::exception&) { return 0; }
    std::puts("constructed without a context"); return 1;
}'''),
 dict(id="ossl-reset-leak", property="P09", needs="a hasher that is reused after finishing", breaks="every reset abandons the previous context",
  edits=[(O, "void message_digest::reset() {\n", "void message_digest::reset() {\n    context_ = ::EVP_MD_CTX_new();\n")],
  src="src/hasher/backends/openssl.cpp",
  demo=r'''
#include "dottorrent/hasher/backends/openssl.hpp"
#include <cstdio>
#include <dlfcn.h>
static int live = 0;
extern "C" EVP_MD_CTX* EVP_MD_CTX_new(void) { static auto r = (EVP_MD_CTX* (*)())dlsym(RTLD_NEXT, "EVP_MD_CTX_new"); ++live; return r(); }
extern "C" void EVP_MD_CTX_free(EVP_MD_CTX* c) { static auto r = (void (*)(EVP_MD_CTX*))dlsym(RTLD_NEXT, "EVP_MD_CTX_free"); if (c) --live; r(c); }
int main() {
    { openssl::message_digest d(openssl::message_digest_algorithm::sha1); d.reset(); d.reset(); }
    if (live) std::printf("%d contexts leaked\n", live);
    return live != 0;
}'''),
 dict(id="ossl-noreset", property="P10", needs="a second digest taken from one hasher", breaks="finishing leaves the hasher unusable for the next digest unless nothing was asked for",
  edits=[(OH, "        digest_.finalize_to(out);\n        digest_.reset();", "        digest_.finalize_to(out);\n        if (out.empty()) digest_.reset();")],
  src="src/hasher/backends/openssl.cpp",
  demo=r'''
#include <unordered_set>
#include "dottorrent/hasher/openssl_hasher.hpp"
#include <array>
#include <cstdio>
int main() {
    try {
        dottorrent::openssl_hasher h(dottorrent::hash_function::sha1);
        std::array<std::byte, 3> data{std::byte('a'), std::byte('b'), std::byte('c')};
        std::array<std::byte, 20> a{}, b{};
        h.update(data); h.finalize_to(a); h.update(data); h.finalize_to(b);
        if (a == b) return 0;
    } catch (const std::exception&) {}
    std::puts("hasher not reusable"); return 1;
}'''),
 dict(id="alloc-wrap", property="P26", needs="an element count whose size in bytes does not fit std::size_t", breaks="the size in bytes wraps around and too little memory is handed out",
  edits=[(AL, "        return (static_cast<std::size_t>(0) - static_cast<std::size_t>(1)) / sizeof(T);", "        return static_cast<std::size_t>(0) - static_cast<std::size_t>(1);")],
  demo=r'''
#include <memory>
#include <new>
#include <stdexcept>
#include "dottorrent/aligned_allocator.hpp"
#include <cstdio>
int main() {
    dottorrent::aligned_allocator<unsigned long, 64> a;
    volatile std::size_t n = ~std::size_t(0) / 8 + 9;
    try { auto* p = a.allocate(n); a.deallocate(p, n); } catch (const std::exception&) { return 0; }
    std::puts("request that cannot be represented was granted"); return 1;
}'''),
 dict(id="tab-shake", property="P07", needs="a SHAKE256 checksum", breaks="the OpenSSL backend computes SHAKE128 under the name SHAKE256",
  edits=[(OH, "case hash_function::shake256:     return message_digest_algorithm::shake256;", "case hash_function::shake256:     return message_digest_algorithm::shake128;")],
  src="src/hasher/backends/openssl.cpp",
  demo=r'''
#include <unordered_set>
#include "dottorrent/hasher/openssl_hasher.hpp"
#include <array>
#include <cstdio>
int main() {
    dottorrent::openssl_hasher h(dottorrent::hash_function::shake256);
    std::array<std::byte, 64> a{}; unsigned char b[64] = {}; unsigned n = 64;
    h.update({}); h.finalize_to(a);
    EVP_Digest("", 0, b, &n, EVP_shake256(), nullptr);
    for (unsigned i = 0; i < n; ++i) if (a[i] != std::byte(b[i])) { std::puts("not SHAKE256"); return 1; }
    return 0;
}'''),
 dict(id="tab-name", property="P07", needs="the name of BLAKE2s", breaks="two hash functions print the same name, so one parses back as the other",
  edits=[(HF, '''case hash_function::blake2s_256: return "blake2s_256";''', '''case hash_function::blake2s_256: return "blake2b_512";''')],
  demo=r'''
#include <tuple>
#include "dottorrent/hash_function.hpp"
#include <cstdio>
int main() {
    for (auto f : dottorrent::supported_hash_functions)
        if (dottorrent::make_hash_function(dottorrent::to_string(f)) != f) { std::puts("name does not parse back"); return 1; }
    return 0;
}'''),
 dict(id="bits-xor", property="P27", needs="toggling a flag that is set", breaks="the assigning exclusive or never clears a flag",
  edits=[(BM, "    lhs = static_cast<Enum>(\n            static_cast<T>(lhs) ^ static_cast<T>(rhs));", "    lhs = static_cast<Enum>(\n            static_cast<T>(lhs) | static_cast<T>(rhs));")],
  demo=r'''
#include "dottorrent/bitmask_operators.hpp"
#include <cstdio>
enum class fl : unsigned { a = 1, b = 2 };
DOTTORRENT_ENABLE_BITMASK_OPERATORS(fl)
namespace dottorrent { bool go() { fl x = fl::a; x ^= fl::a; return x == fl(0); } }
int main() { if (dottorrent::go()) return 0; std::puts("flag not cleared"); return 1; }'''),
]
