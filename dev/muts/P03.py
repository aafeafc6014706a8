F = "include/dottorrent/concurrent_queue.hpp"
M = [
 ("bug", "le", [(F, "return queue_.size() < capacity_;", "return queue_.size() <= capacity_;")]),
 ("bug", "lie", [(F, "            if (queue_.empty())\n                return false;", "            if (queue_.empty())\n                return true;")]),
 ("bug", "lost", [(F, "            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;", "            queue_.pop(); if (!queue_.empty()) item = std::move(queue_.front());\n        }\n        not_full_.notify_all();\n        return true;")]),
 ("bug", "lifo", [(F, "std::queue<T, std::deque<T, Allocator>> queue_", "std::deque<T, Allocator> queue_"), (F, "queue_.push(", ("queue_.push_back(",)), (F, "queue_.pop()", ("queue_.pop_back()",)), (F, "queue_.front()", ("queue_.back()",))]),
 ("bug", "droppop", [(F, "            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;", "            item = queue_.front();\n            if (item) queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;")]),
 ("bug", "trypop_frontmix", [(F, "            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;", "            item = std::move(queue_.back());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n        return true;")]),
]
CQ="include/dottorrent/concurrent_queue.hpp"
M+=[
 ("bug","never-push",[(CQ,"            queue_.push(item);\n","            ;\n")]),
 ("bug","never-try",[(CQ,"                return false;\n            queue_.push(std::move(item));\n","                return false;\n")]),
 ("bug","never-pop",[(CQ,"            item = std::move(queue_.front());\n            queue_.pop();\n        }\n        not_full_.notify_all();\n    }","            item = std::move(queue_.front());\n        }\n        not_full_.notify_all();\n    }")]),
]
M+=[
 ("bug","cap-keep",[(CQ,"            capacity_ = n;\n","            ;\n")]),
 ("bug","size-cap",[(CQ,"        return queue_.size();","        return capacity_;")]),
 ("bug","cap-plus",[(CQ,"        return capacity_;","        return capacity_ - 1;")]),
 ("refactor","size-loc",[(CQ,"        return queue_.size();","        const auto n = queue_.size();\n        return n;")]),
 ("refactor","cap-swap",[(CQ,"            capacity_ = n;\n","            std::swap(capacity_, n);\n")]),
]
