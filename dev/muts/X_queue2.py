F = "include/dottorrent/concurrent_queue.hpp"
Q = ["P01", "P02", "P03", "P04", "P16", "P17", "P24", "P28", "P31"]
import re
src = open("/repo/" + F).read()
i = src.index("    void push(const T& item)"); j = src.index("private:")
OPS = src[i:j]; PRIV = src[j:src.index("};\n\n\n}")]
def whole(ops, priv): return [(F, OPS, ops), (F, PRIV, priv)]
V1 = """    void push(const T& item) { emplace_locked(item); }

    void push(T&& item) { emplace_locked(std::move(item)); }

    bool try_push(T &&item) {
        std::unique_lock lk(mutex_);
        if (!(queue_.size() < capacity_)) {
            return false;
        }
        queue_.emplace(std::move(item));
        lk.unlock();
        not_empty_.notify_all();
        return true;
    }

    void pop(T &item) {
        std::unique_lock lk(mutex_);
        while (true) {
            if (!queue_.empty()) break;
            not_empty_.wait(lk);
        }
        take(item);
        lk.unlock();
        not_full_.notify_all();
    }

    bool try_pop(T &item) {
        std::unique_lock lk(mutex_, std::defer_lock);
        lk.lock();
        if (queue_.size() == 0) return false;
        take(item);
        lk.unlock();
        not_full_.notify_all();
        return true;
    }

    std::size_t size() const noexcept
    {
        const std::lock_guard<std::mutex> guard{mutex_};
        const auto n = queue_.size();
        return n;
    }

    std::size_t capacity() const noexcept
    {
        std::scoped_lock guard(mutex_);
        return capacity_;
    }

    void set_capacity(std::size_t n) noexcept
    {
        std::unique_lock<std::mutex> lk(mutex_);
        capacity_ = n;
        not_full_.notify_all();
    }

"""
P1 = PRIV.replace("private:\n", """private:
    template <typename U>
    void emplace_locked(U&& item)
    {
        {
            std::unique_lock<std::mutex> lk(mutex_);
            auto room = [&] { return capacity_ > queue_.size(); };
            not_full_.wait(lk, room);
            queue_.push(std::forward<U>(item));
        }
        not_empty_.notify_all();
    }
    void take(T& item)
    {
        auto& head = queue_.front();
        item = std::move(head);
        queue_.pop();
    }

""")
V2 = """    void push(const T& item) {
        T copy(item);
        push(std::move(copy));
    }

    void push(T&& item) {
        std::unique_lock<std::mutex> lk(mutex_);
        wait_until_room(lk);
        items_.push_back(std::move(item));
        lk.unlock();
        not_empty_.notify_one();
    }

    bool try_push(T &&item) {
        bool pushed = false;
        {
            std::lock_guard<std::mutex> lk(mutex_);
            if (is_full()) {
                pushed = false;
            } else {
                items_.push_back(std::move(item));
                pushed = true;
            }
        }
        if (pushed) not_empty_.notify_one();
        return pushed;
    }

    void pop(T &item) {
        std::unique_lock<std::mutex> lk(mutex_);
        wait_until_item(lk);
        item = std::move(items_.front());
        items_.pop_front();
        lk.unlock();
        not_full_.notify_one();
    }

    bool try_pop(T &item) {
        bool popped = false;
        {
            std::lock_guard<std::mutex> lk(mutex_);
            if (!items_.empty()) {
                item = std::move(items_.front());
                items_.pop_front();
                popped = true;
            }
        }
        if (!popped) return false;
        not_full_.notify_one();
        return true;
    }

    std::size_t size() const noexcept
    {
        std::lock_guard<std::mutex> lk(mutex_);
        return items_.size();
    }

    std::size_t capacity() const noexcept
    {
        std::lock_guard<std::mutex> lk(mutex_);
        return capacity_;
    }

    void set_capacity(std::size_t n) noexcept
    {
        std::unique_lock<std::mutex> lk(mutex_);
        capacity_ = n;
        lk.unlock();
        not_full_.notify_all();
    }

"""
P2 = """private:
    bool is_full() const { return items_.size() >= capacity_; }
    void wait_until_room(std::unique_lock<std::mutex>& lk)
    {
        while (is_full()) not_full_.wait(lk);
    }
    void wait_until_item(std::unique_lock<std::mutex>& lk)
    {
        not_empty_.wait(lk, [this] { return !items_.empty(); });
    }

    mutable std::mutex mutex_ {};
    std::condition_variable not_empty_ {};
    std::condition_variable not_full_ {};
    size_t capacity_;
    std::deque<T, Allocator> items_ {};
"""
BODY_POP = """            item = std::move(queue_.front());
            queue_.pop();
        }
        not_full_.notify_all();
    }"""
M = [
 ("ok", "rewrite1", whole(V1, P1), Q),
 ("ok", "rewrite2", whole(V2, P2), Q),
 ("bug", "r2_ifwait", whole(V2, P2.replace("while (is_full()) not_full_.wait(lk);", "if (is_full()) not_full_.wait(lk);")), ["P02", "P03"]),
 ("bug", "r2_full_gt", whole(V2, P2.replace(">= capacity_", "> capacity_")), ["P03"]),
 ("bug", "r2_full_eq", whole(V2, P2.replace(">= capacity_", "== capacity_")), ["P03"]),
 ("bug", "r1_takeback", whole(V1, P1.replace("auto& head = queue_.front();", "auto& head = queue_.back();")), ["P03"]),
 ("bug", "r1_unlock_before_take", whole(V1.replace("        take(item);\n        lk.unlock();\n        not_full_.notify_all();\n        return true;", "        lk.unlock();\n        take(item);\n        not_full_.notify_all();\n        return true;"), P1), ["P01"]),
 ("bug", "r2_setcap_raise_only", whole(V2.replace("        capacity_ = n;\n        lk.unlock();\n        not_full_.notify_all();", "        const bool wake = n > items_.size() && items_.empty();\n        capacity_ = n;\n        lk.unlock();\n        if (wake) not_full_.notify_all();"), P2), ["P02"]),
 ("bug", "setcap_one", [(F, "            capacity_ = n;\n        }\n        not_full_.notify_all();", "            capacity_ = n;\n        }\n        not_full_.notify_one();")], ["P02"]),
 ("bug", "notify_if_one", [(F, "            queue_.push(std::move(item));\n        }\n        not_empty_.notify_all();\n    }", "            queue_.push(std::move(item));\n            wake = queue_.size() == 1;\n        }\n        if (wake) not_empty_.notify_one();\n    }"), (F, "    void push(T&& item) {\n", "    void push(T&& item) {\n        bool wake = false;\n")], ["P02"]),
 ("bug", "notify_full_cond", [(F, BODY_POP, BODY_POP.replace("            item", "            wake = queue_.size() == capacity_;\n            item").replace("        not_full_.notify_all();", "        if (wake) not_full_.notify_all();")), (F, "    void pop(T &item) {\n", "    void pop(T &item) {\n        bool wake = false;\n")], ["P02"]),
 ("bug", "fastpath_trypop", [(F, "    bool try_pop(T &item) {\n", "    bool try_pop(T &item) {\n        if (queue_.empty()) return false;\n")], ["P01"]),
 ("bug", "pop_spurious", [(F, "not_empty_.wait(lk, [this]() { return !queue_.empty(); });", "if (queue_.empty()) not_empty_.wait(lk);")], ["P02", "P03"]),
 ("bug", "pop_timeout", [(F, "not_empty_.wait(lk, [this]() { return !queue_.empty(); });", "not_empty_.wait_for(lk, std::chrono::seconds(60), [this]() { return !queue_.empty(); });")], ["P03"]),
 ("bug", "pred_cap", [(F, "not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });\n            queue_.push(item);", "not_full_.wait(lk, [this, cap = capacity_]() { return queue_.size() < cap; });\n            queue_.push(item);")], ["P02"]),
 ("bug", "trypush_moved", [(F, "            if (queue_.size() >= capacity_)\n                return false;\n            queue_.push(std::move(item));", "            T tmp = std::move(item);\n            if (queue_.size() >= capacity_)\n                return false;\n            queue_.push(std::move(tmp));")], ["P03"]),
 ("bug", "pop_copyless", [(F, "            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;", "            if (&item != &queue_.front()) item = std::move(queue_.front());\n            queue_.pop();\n            if (!queue_.empty() && queue_.size() > capacity_) queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;")], ["P03"]),
 ("bug", "setcap_trunc", [(F, "            capacity_ = n;\n", "            capacity_ = n;\n            while (queue_.size() > n) queue_.pop();\n")], ["P03"]),
 ("bug", "cap_relaxed", [(F, "        std::unique_lock<std::mutex> lk(mutex_);\n        return capacity_;", "        return capacity_;")], ["P01"]),
 ("ok", "noop", [(F, "    void set_capacity(std::size_t n) noexcept\n    {\n", "    void set_capacity(std::size_t n) noexcept\n    {\n        (void)n;\n")], Q),
 ("ok", "noop2", [(F, "    bool try_pop(T &item) {\n", "    bool try_pop(T &item) {\n        static_cast<void>(0);\n        ;\n")], Q),
 ("ok", "assertq", [(F, "            queue_.push(std::move(item));\n        }\n        not_empty_.notify_all();\n        return true;", "            queue_.push(std::move(item));\n            assert(queue_.size() <= capacity_);\n        }\n        not_empty_.notify_all();\n        return true;")], Q),
 ("ok", "exchange", [(F, "            capacity_ = n;\n", "            std::exchange(capacity_, n);\n"), (F, "#include <queue>\n", "#include <queue>\n#include <utility>\n")], Q),
 ("ok", "ifinit", [(F, "            if (queue_.size() >= capacity_)\n                return false;", "            if (const auto held = queue_.size(); held >= capacity_)\n                return false;")], Q),
 ("ok", "guard_struct", [(F, "            queue_.push(item);\n        }\n        not_empty_.notify_all();", "            queue_.push(item);\n        }\n        signal_items();"), (F, "private:\n", "private:\n    void signal_items() noexcept { not_empty_.notify_all(); }\n")], Q),
 ("ok", "pop_default_tmp", [(F, BODY_POP, """            T head(std::move(queue_.front()));
            queue_.pop();
            item = std::move(head);
        }
        not_full_.notify_all();
    }""")], Q),
 ("ok", "pop_via_try", [(F, "            not_empty_.wait(lk, [this]() { return !queue_.empty(); });\n            item = std::move(queue_.front());\n            queue_.pop();", "            not_empty_.wait(lk, [&]() { return take_front(item); });"), (F, "private:\n", "private:\n    bool take_front(T& item)\n    {\n        if (queue_.empty()) return false;\n        item = std::move(queue_.front());\n        queue_.pop();\n        return true;\n    }\n")], Q),
]
