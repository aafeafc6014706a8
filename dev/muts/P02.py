F = "include/dottorrent/concurrent_queue.hpp"
M = [
 ("bug", "nonotify", [(F, "        not_full_.notify_all();\n        return true;", "        return true;")]),
 ("bug", "wrongcv", [(F, "        not_full_.notify_all();\n        return true;", "        not_empty_.notify_all();\n        return true;")]),
 ("bug", "if_wait", [(F, "not_empty_.wait(lk, [this]() { return !queue_.empty(); });", "if (queue_.empty()) not_empty_.wait(lk);")]),
 ("bug", "cond_one", [(F, """            queue_.push(item);
        }
        not_empty_.notify_all();""", """ first = queue_.empty();
            queue_.push(item);
        }
        if (first) not_empty_.notify_one();"""), (F, "    void push(const T& item) {\n", "    void push(const T& item) {\n bool first;\n")]),
 ("bug", "setcap_one", [(F, "            capacity_ = n;\n        }\n        not_full_.notify_all();", "            capacity_ = n;\n        }\n        not_full_.notify_one();")]),
 ("bug", "wait_other_cv", [(F, "not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });\n            queue_.push(item);", "not_empty_.wait(lk, [this]() { return queue_.size() < capacity_; });\n            queue_.push(item);")]),
 ("bug", "notify_before", [(F, "        {\n            std::unique_lock<std::mutex> lk(mutex_);\n            not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });\n            queue_.push(item);\n        }\n        not_empty_.notify_all();", "        not_empty_.notify_all(); {\n            std::unique_lock<std::mutex> lk(mutex_);\n            not_full_.wait(lk, [this]() { return queue_.size() < capacity_; });\n            queue_.push(item);\n        }")]),
 ("refactor", "cond_all", [(F, """            queue_.push(item);
        }
        not_empty_.notify_all();""", """ first = queue_.empty();
            queue_.push(item);
        }
        if (first) not_empty_.notify_all();"""), (F, "    void push(const T& item) {\n", "    void push(const T& item) {\n bool first;\n")]),
]
