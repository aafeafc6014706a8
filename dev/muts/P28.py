Q="include/dottorrent/concurrent_queue.hpp"; O="include/dottorrent/object_pool.hpp"; X="include/dottorrent/hex.hpp"; H="include/dottorrent/hash.hpp"; A="include/dottorrent/aligned_allocator.hpp"; P="include/dottorrent/percent_encoding.hpp"
M=[
 ("bug","nonconst",[(Q,"std::size_t size() const noexcept","std::size_t size() noexcept")]),
 ("bug","popcopy",[(Q,"item = std::move(queue_.front());","T tmp = queue_.front(); item = tmp;")]),
 ("bug","defctor",[(Q,"            item = std::move(queue_.front());","            T tmp; tmp = std::move(queue_.front()); item = std::move(tmp);")]),
 ("bug","clear",[(O,"            while (queue_.try_pop(resource)) {","            while (queue_.try_pop()) {")]),
 ("bug","poolclear",[(O,"        pool_->clear();","        pool_->free_unused();")]),
 ("bug","mutable",[(Q,"mutable std::mutex mutex_","std::mutex mutex_")]),
 ("bug","outit",[(X,"out = std::copy_n(buf.data(), 2, out);","out = std::copy_n(buf.data(), 2, &*out);")]),
 ("bug","addr",[(A,"return std::addressof(s);","return const_cast<T*>(&s) + T{};")]),
 ("bug","hash",[(H,"constexpr auto value() const noexcept -> const storage_type&\n    { return data_; }","constexpr auto value() noexcept -> const storage_type&\n    { return data_; }")]),
 ("bug","iter",[(P,"for (; first != last; ++first) {\n        auto size","for (; first < last; ++first) {\n        auto size")]),
 ("refactor","auto",[(Q,"std::unique_lock<std::mutex> lk(mutex_);","std::lock_guard<std::mutex> lk(mutex_);") if 0 else (Q,"bool try_pop(T &item) {","[[nodiscard]] bool try_pop(T &item) {")]),
 ("refactor","swap",[(O,"    /// Free all unused resources\n","    /// Free every unused resource\n")]),
]
