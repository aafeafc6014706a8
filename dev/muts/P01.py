F = "include/dottorrent/concurrent_queue.hpp"
M = [
 ("bug", "size_nolock", [(F, "        std::unique_lock<std::mutex> lk(mutex_);\n        return queue_.size();", "        return queue_.size();")]),
 ("bug", "trypush_scope", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.size() >= capacity_)\n                return false;", "            {std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.size() >= capacity_)\n                return false;}\n            std::unique_lock<std::mutex> lk(mutex_);")], ["P01", "P03"]),
 ("bug", "tmp_lock", [(F, "std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.empty())", "(void)std::unique_lock<std::mutex>(mutex_);\n            if (queue_.empty())")]),
 ("bug", "defer", [(F, "std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.empty())", "std::unique_lock<std::mutex> lk(mutex_, std::defer_lock);\n            if (queue_.empty())")]),
 ("bug", "early_unlock", [(F, "            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n    }", "            item = std::move(queue_.front());\n            lk.unlock(); queue_.pop();\n        }\n        not_full_.notify_all();\n    }")]),
 ("bug", "setcap_nolock", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            capacity_ = n;", "            capacity_ = n;")]),
 ("bug", "manual", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.size() >= capacity_)\n                return false;\n            queue_.push(std::move(item));", "            mutex_.lock();\n            if (queue_.size() >= capacity_)\n                return false;\n            queue_.push(std::move(item)); mutex_.unlock();")]),
 ("bug", "peek", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.empty())\n", "            if (queue_.empty())\n return false;\n            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.empty())\n")]),
 ("bug", "stale", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.size() >= capacity_)\n                return false;", "            auto n = size();\n std::unique_lock<std::mutex> lk(mutex_);\n            if (n >= capacity_)\n                return false;")], ["P01","P03"]),
 ("refactor", "helper", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.size() >= capacity_)\n                return false;\n            queue_.push(std::move(item));", "            const std::lock_guard guard(mutex_);\n            if (!has_room()) return false;\n            enqueue(std::move(item));"),
   (F, "private:\n", "private:\n    bool has_room() const { return queue_.size() < capacity_; }\n    void enqueue(T&& i) { queue_.emplace(std::move(i)); }\n")], ["P01", "P02", "P03"]),
 ("refactor", "lockhelper", [(F, "            std::unique_lock<std::mutex> lk(mutex_);\n            if (queue_.empty())\n                return false;", "            auto lk = acquire();\n            if (queue_.empty())\n                return false;"),
   (F, "private:\n", "private:\n    std::unique_lock<std::mutex> acquire() const { return std::unique_lock<std::mutex>(mutex_); }\n")], ["P01", "P02", "P03"]),
 ("refactor", "while_wait", [(F, "not_empty_.wait(lk, [this]() { return !queue_.empty(); });", "while (queue_.empty()) { not_empty_.wait(lk); }")], ["P01", "P02", "P03"]),
 ("refactor", "notify_one", [(F, "not_empty_.notify_all();", ("not_empty_.notify_one();",))], ["P01", "P02", "P03"]),
 ("refactor", "notify_inside", [(F, "            queue_.push(item);\n        }\n        not_empty_.notify_all();", "            queue_.push(item);\n        not_empty_.notify_all();\n        }")], ["P01", "P02", "P03"]),
 ("refactor", "unlock_call", [(F, "            queue_.push(std::move(item));\n        }\n        not_empty_.notify_all();\n        return true;", "            queue_.push(std::move(item));\n       lk.unlock(); }\n        not_empty_.notify_all();\n        return true;")], ["P01", "P02", "P03"]),
 ("refactor", "okflag", [(F, """            std::unique_lock<std::mutex> lk(mutex_);
            if (queue_.empty())
                return false;
            item = std::move(queue_.front());
            queue_.pop();
        }
        not_full_.notify_all();
        return true;""", """            std::unique_lock<std::mutex> lk(mutex_);
            const bool available = !queue_.empty();
            if (available) {
            item = std::move(queue_.front());
            queue_.pop();
            lk.unlock();
            not_full_.notify_one();
            }
            return available;
        }""")], ["P01", "P02", "P03"]),
 ("refactor", "pushcopy", [(F, """        {
            std::unique_lock<std::mutex> lk(mutex_);
            not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });
            queue_.push(item);
        }
        not_empty_.notify_all();""", "        push(T(item));")], ["P01", "P02", "P03"]),
 ("refactor", "deque", [(F, "std::queue<T, std::deque<T, Allocator>> queue_", "std::deque<T, Allocator> queue_"), (F, "queue_.push(", ("queue_.push_back(",)), (F, "queue_.pop()", ("queue_.pop_front()",))], ["P01", "P02", "P03"]),
 ("refactor", "insertimpl", [(F, """        {
            std::unique_lock<std::mutex> lk(mutex_);
            not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });
            queue_.push(item);
        }
        not_empty_.notify_all();""", "        push_impl(item);"), (F, """        {
            std::unique_lock<std::mutex> lk(mutex_);
            not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });
            queue_.push(std::move(item));
        }
        not_empty_.notify_all();""", "        push_impl(std::move(item));"), (F, "private:\n", """private:
    template <typename U> void push_impl(U&& u) { {
            std::unique_lock<std::mutex> lk(mutex_);
            wait_for_room(lk);
            queue_.push(std::forward<U>(u));
        }
        not_empty_.notify_all(); }
    void wait_for_room(std::unique_lock<std::mutex>& lk) { not_full_.wait(lk, [this]() { return !full(); }); }
    bool full() const noexcept { const auto n = queue_.size(); return n >= capacity_; }
""")], ["P01", "P02", "P03"]),
 ("refactor", "tmpitem", [(F, """            if (queue_.empty())
                return false;
            item = std::move(queue_.front());
            queue_.pop();""", """            if (queue_.size() == 0)
                return false;
            T value = std::move(queue_.front());
            queue_.pop();
            item = std::move(value);""")], ["P01", "P02", "P03"]),
]
