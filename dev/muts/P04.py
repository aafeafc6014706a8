F = "include/dottorrent/object_pool.hpp"
DEC = "                resources_left_.fetch_sub(1, std::memory_order_relaxed);\n"
M = [
 ("bug", "nodec", [(F, DEC, "")]),
 ("bug", "dec2", [(F, DEC, DEC + DEC)]),
 ("bug", "noallow", [(F, "else if (resources_left_.load(std::memory_order_relaxed) != 0) {", "else if (resources_left_.load(std::memory_order_relaxed) >= 0) {")]),
 ("bug", "eager", [(F, "            if (queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 0) {", "            if (resources_left_.load(std::memory_order_relaxed) == 0 && queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 0) {")]),
 ("bug", "strong", [(F, "std::weak_ptr<impl> pool_;", "std::shared_ptr<impl> pool_;"), (F, "deleter(std::weak_ptr<impl> pool,", "deleter(std::shared_ptr<impl> pool,"), (F, "assert(!pool_.expired());", ""), (F, "auto pool = pool_.lock();", "auto pool = pool_;"), (F, "impl::weak_from_this()", "impl::shared_from_this()")]),
 ("bug", "raw", [(F, "        std::weak_ptr<impl> pool_;", "        impl* pool_;"), (F, "deleter(std::weak_ptr<impl> pool,", "deleter(impl* pool,"), (F, "assert(!pool_.expired());", ""), (F, "auto pool = pool_.lock();", "auto pool = pool_;"), (F, "impl::weak_from_this()", "this")]),
 ("bug", "nopush", [(F, "            queue_.push(std::move(resource));", "            if (queue_.size() + 1 < queue_.capacity()) queue_.push(std::move(resource));")]),
 ("bug", "trypush", [(F, "            queue_.push(std::move(resource));", "            (void)queue_.try_push(std::move(resource));")]),
 ("bug", "norecycle", [(F, "            std::invoke(Policy::recycle, resource);\n", "")]),
 ("bug", "laterecycle", [(F, "            std::invoke(Policy::recycle, resource);\n            queue_.push(std::move(resource));", "            queue_.push(resource);\n            std::invoke(Policy::recycle, resource);")]),
 ("bug", "twice", [(F, "            queue_.push(std::move(resource));", "            queue_.push(resource); queue_.push(std::move(resource));")]),
 ("bug", "noreset", [(F, "            resource_.reset();\n        }", "        }")]),
 ("bug", "resetonlyalive", [(F, "                pool->recycle(std::move(resource_));\n            }", "                pool->recycle(std::move(resource_));\n                resource_.reset();\n            }"), (F, "            resource_.reset();\n        }\n\n        // Pointer", "        }\n\n        // Pointer")]),
 ("bug", "unchecked", [(F, "            if (pool) {", "            if (!pool_.expired()) {")]),
 ("bug", "expired", [(F, "            auto pool = pool_.lock();\n\n            if (pool) {\n                pool->recycle(std::move(resource_));", "            if (!pool_.expired()) {\n                pool_.lock()->recycle(std::move(resource_));")]),
 ("bug", "clearnoadd", [(F, "                resources_left_.fetch_add(1, std::memory_order_relaxed);\n", "")]),
 ("bug", "clearadd2", [(F, "fetch_add(1, std::memory_order_relaxed)", "fetch_add(2, std::memory_order_relaxed)")]),
 ("bug", "clearonce", [(F, "                resources_left_.fetch_add(1, std::memory_order_relaxed);\n            }", "            }\n            resources_left_.fetch_add(1, std::memory_order_relaxed);")]),
 ("bug", "ctorleft", [(F, "resources_left_(capacity - size)", "resources_left_(capacity)")]),
 ("bug", "ctorqueue", [(F, "                : queue_(capacity)\n                , resources_left_(capacity - size)", "                : queue_(size)\n                , resources_left_(capacity - size)")]),
 ("bug", "bare", [(F, "return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "return resource;")]),
 ("bug", "swapargs", [(F, "std::make_shared<impl>(capacity, size)", "std::make_shared<impl>(size, capacity)")]),
 ("bug", "noback", [(F, "deleter(impl::weak_from_this(), resource)", "deleter(std::weak_ptr<impl>{}, resource)")]),
 ("bug", "fillle", [(F, "i != size; ++i", "i <= size; ++i")]),
 ("bug", "emptyhandle", [(F, "            } else {\n                queue_.pop(resource);\n            }", "            } else {\n                (void)queue_.try_pop(resource);\n            }")]),
 ("ok", "direct", [(F, "std::invoke(Policy::construct);\n            } else", "Policy::construct();\n            } else"), (F, "std::invoke(Policy::recycle, resource)", "Policy::recycle(resource)")]),
 ("ok", "swapdec", [(F, DEC + "                resource = std::invoke(Policy::construct);", "                resource = std::invoke(Policy::construct);\n" + DEC)]),
 ("ok", "helper", [(F, "        /// Allocate a new value", "        value_ptr make_one() { resources_left_.fetch_sub(1, std::memory_order_relaxed); return std::invoke(Policy::construct); }\n        /// Allocate a new value"), (F, DEC + "                resource = std::invoke(Policy::construct);", "                resource = make_one();")]),
 ("ok", "helper2", [(F, "        /// Allocate a new value", "        value_ptr acquire() { value_ptr r; if (queue_.try_pop(r)) return r; if (resources_left_.load() > 0) { --resources_left_; return Policy::construct(); } queue_.pop(r); return r; }\n        /// Allocate a new value"), (F, "            value_ptr resource;\n\n            // try to retrieve an unused resource from the pool\n            if (queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 0) {\n" + DEC + "                resource = std::invoke(Policy::construct);\n            } else {\n                queue_.pop(resource);\n            }\n", "            auto resource = acquire();\n")]),
 ("ok", "nestedif", [(F, "            if (queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 0) {\n" + DEC + "                resource = std::invoke(Policy::construct);\n            } else {\n                queue_.pop(resource);\n            }", "            const bool reused = queue_.try_pop(resource);\n            if (!reused) {\n                if (resources_left_ == 0u) queue_.pop(resource);\n                else { resources_left_--; resource = std::invoke(Policy::construct); }\n            }")]),
 ("ok", "ifinit", [(F, "            auto pool = pool_.lock();\n\n            if (pool) {", "            if (auto pool = pool_.lock(); pool != nullptr) {")]),
 ("ok", "ifinit2", [(F, "            auto pool = pool_.lock();\n\n            if (pool) {", "            if (auto pool = pool_.lock()) {")]),
 ("ok", "early", [(F, "            if (pool) {\n                pool->recycle(std::move(resource_));\n            }\n", "            if (!pool) { resource_.reset(); return; }\n            pool->recycle(std::move(resource_));\n")]),
 ("ok", "local", [(F, "            auto pool = pool_.lock();\n", "            auto res = std::move(resource_);\n            auto pool = pool_.lock();\n"), (F, "pool->recycle(std::move(resource_));", "pool->recycle(std::move(res));")]),
 ("ok", "byvalue", [(F, "void recycle(value_ptr&& resource)", "void recycle(value_ptr resource)")]),
 ("ok", "nullassign", [(F, "            resource_.reset();\n        }\n\n        // Pointer", "            resource_ = nullptr;\n        }\n\n        // Pointer")]),
 ("ok", "clearloop", [(F, "            value_ptr resource;\n            while (queue_.try_pop(resource)) {\n                resource.reset();\n                resources_left_.fetch_add(1, std::memory_order_relaxed);\n            }", "            for (value_ptr resource; queue_.try_pop(resource); resource.reset()) {\n                ++resources_left_;\n            }")]),
 ("ok", "clearloop2", [(F, "            value_ptr resource;\n            while (queue_.try_pop(resource)) {\n                resource.reset();\n                resources_left_.fetch_add(1, std::memory_order_relaxed);\n            }", "            value_ptr resource; std::size_t n = 0;\n            while (true) {\n                if (!queue_.try_pop(resource)) break;\n                resource = nullptr; ++n;\n            }\n            resources_left_.fetch_add(n);")]),
 ("ok", "fillwhile", [(F, "for (size_type i = 0; i != size; ++i) {", "for (size_type i = 0; i < size; i++) {")]),
 ("ok", "fillwhile2", [(F, "            for (size_type i = 0; i != size; ++i) {\n                queue_.push(std::invoke(Policy::construct));\n            }", "            while (size > 0) {\n                auto r = Policy::construct(); queue_.push(std::move(r)); --size;\n            }")]),
 ("ok", "handlevar", [(F, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            auto* raw = resource.get();\n            deleter cleanup(this->weak_from_this(), std::move(resource));\n            value_ptr handle(raw, std::move(cleanup));\n            return handle;")]),
 ("ok", "swapfields", [(F, "        // Pointer to the pool needed for recycling\n        std::weak_ptr<impl> pool_;\n        // The resource object\n        value_ptr resource_;", "        value_ptr resource_;\n        std::weak_ptr<impl> pool_;")]),
 ("ok", "lambda", [(F, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            return value_ptr(resource.get(), [pool = impl::weak_from_this(), resource](value_type*) mutable { if (auto p = pool.lock()) p->recycle(std::move(resource)); resource.reset(); });")]),
 ("bug", "lambdabug", [(F, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            return value_ptr(resource.get(), [pool = impl::weak_from_this(), resource](value_type*) mutable { if (auto p = pool.lock()) p->recycle(std::move(resource)); });")]),
 ("bug", "lambdathis", [(F, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            return value_ptr(resource.get(), [this, resource](value_type*) mutable { recycle(std::move(resource)); resource.reset(); });")]),
 ("ok", "cas", [(F, "            else if (resources_left_.load(std::memory_order_relaxed) != 0) {\n" + DEC + "                resource", "            else if (take_allowance()) {\n                resource"), (F, "        /// Allocate a new value", "        bool take_allowance() { auto left = resources_left_.load(); while (left != 0) { if (resources_left_.compare_exchange_weak(left, left - 1)) return true; } return false; }\n        /// Allocate a new value")]),
]
