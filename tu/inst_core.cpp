// Uses of the templates whose bodies are analysed (parsed only; never compiled to code or run).
#include "dottorrent/aligned_allocator.hpp"
#include "dottorrent/bitmask_operators.hpp"
#include "dottorrent/concurrent_queue.hpp"
#include "dottorrent/data_chunk.hpp"
#include "dottorrent/dht_node.hpp"
#include "dottorrent/error.hpp"
#include "dottorrent/file_progress_data.hpp"
#include "dottorrent/hash_function.hpp"
#include "dottorrent/hasher/backend_info.hpp"
#include "dottorrent/hasher/backends/openssl.hpp"
#include "dottorrent/hasher/openssl_hasher.hpp"
#include "dottorrent/hasher/single_buffer_hasher.hpp"
#include "dottorrent/hex.hpp"
#include "dottorrent/literals.hpp"
#include "dottorrent/object_pool.hpp"
#include "dottorrent/percent_encoding.hpp"
#include "dottorrent/serialization/announce_url.hpp"
#include <memory>
#include <vector>
#include "src/hasher/backends/openssl.cpp"

namespace vf_inst {
using elem = std::shared_ptr<int>;
using queue = dottorrent::concurrent_queue<elem>;
void use_queue(queue& q, const queue& cq, elem& e, const elem& ce)
{
    q.push(ce);
    q.push(std::move(e));
    (void)q.try_push(std::move(e));
    q.pop(e);
    (void)q.try_pop(e);
    (void)cq.size();
    q.set_capacity(3);
}
}
template class dottorrent::concurrent_queue<std::shared_ptr<int>>;

namespace vf_inst {
struct odd24 { char c[24]; };
template <typename T, std::size_t A> void use_alloc(dottorrent::aligned_allocator<T, A>& a, const T& v)
{
    T* p = a.allocate(3); a.deallocate(p, 3); p = a.allocate(4, static_cast<const char*>(nullptr)); a.deallocate(p, 4);
    dottorrent::aligned_allocator<T, A> b(a); dottorrent::aligned_allocator<short, A> c(a);
    (void)(a == b); (void)(a != b); (void)a.max_size(); (void)a.address(*p); (void)a.address(v); a.construct(p, v); a.destroy(p);
}
void use_allocs(dottorrent::aligned_allocator<unsigned char, 16>& a, dottorrent::aligned_allocator<unsigned long, 64>& b, dottorrent::aligned_allocator<odd24, 32>& c)
{ use_alloc(a, {}); use_alloc(b, {}); use_alloc(c, {}); }
}
template class dottorrent::aligned_allocator<unsigned char, 16>;
template class dottorrent::aligned_allocator<unsigned long, 64>;
template class dottorrent::aligned_allocator<vf_inst::odd24, 32>;

namespace vf_inst {
struct pooled { int v; };
struct policy {
    using value_ptr = std::shared_ptr<pooled>;
    static value_ptr construct();
    static void recycle(value_ptr&);
};
using pool = dottorrent::pool::object_pool<pooled, policy>;
void use_pool(pool& p, const pool& cp)
{
    auto r = p.get(); pool q(3), s(3, 2); pool t(std::move(q)); s = std::move(t);
    (void)cp.size(); (void)cp.capacity(); p.clear();
}
}
template class dottorrent::pool::object_pool<vf_inst::pooled, vf_inst::policy>;
