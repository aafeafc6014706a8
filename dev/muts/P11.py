F = "include/dottorrent/merkle_tree.hpp"
SL = "        std::shared_lock lck{mutex_};\n"
M = [
 ("bug", "nc", [(F, SL + "        return data_.size();", "        return data_.size();")]),
 ("bug", "leafcount", [(F, SL + "        return (data_.size() + 1) / 2 ;", "        const auto& d = data_;\n        return (d.size() + 1) / 2 ;")]),
 ("bug", "getnode", [(F, SL + "        return data_[get_flat_index(layer, index)];", "        return data_[get_flat_index(layer, index)];")]),
 ("bug", "getnode-order", [(F, "        Expects(layer <= tree_height());\n        Expects(index < nodes_in_layer(layer));\n" + SL + "        return", SL + "        Expects(layer <= tree_height());\n        Expects(index < nodes_in_layer(layer));\n        return")]),
 ("bug", "sharedset", [(F, "        std::unique_lock lck{mutex_};\n        Expects(flat_index", SL + "        Expects(flat_index")]),
 ("bug", "sharedset2", [(F, "        std::unique_lock lck{mutex_};\n        Expects(flat_index < data_.size());\n        data_[flat_index] = value;", SL + "        Expects(flat_index < data_.size());\n        auto& slot = data_[flat_index];\n        slot = value;")]),
 ("bug", "noself", [(F, "        if (&other == this)\n            return *this;\n\n", "")]),
 ("bug", "nested", [(F, "        std::unique_lock lck1{mutex_, std::defer_lock};\n        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other", "        std::unique_lock lck1{mutex_};\n        std::unique_lock lck2{other.mutex_};\n        data_ = other")]),
 ("bug", "oneonly", [(F, "        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other", "        lck1.lock();\n        data_ = other")]),
 ("bug", "forgotlock", [(F, "        std::lock(lck1, lck2);\n        data_ = std::move", "        data_ = std::move")]),
 ("bug", "copyctor", [(F, "        std::shared_lock lck{other.mutex_};\n", "")]),
 ("bug", "copyctorinit", [(F, "    merkle_tree(const merkle_tree& other)\n    {\n        std::shared_lock lck{other.mutex_};\n        data_ = other.data_;", "    merkle_tree(const merkle_tree& other) : data_(other.data_)\n    {\n")]),
 ("bug", "moveshared", [(F, "        std::unique_lock lck{other.mutex_};\n        data_ = std::move", "        std::shared_lock lck{other.mutex_};\n        data_ = std::move")]),
 ("bug", "setleaf-scope", [(F, "        std::unique_lock lck{mutex_};\n        data_.clear();\n", "        { std::unique_lock lck{mutex_};\n        data_.clear(); }\n")]),
 ("bug", "root", [(F, SL + "        return data_[0];", "        { std::shared_lock lck{mutex_}; }\n        return data_[0];")]),
 ("bug", "wronglock", [(F, "        std::shared_lock lck{other.mutex_};", "        std::shared_lock lck{mutex_};")]),
 ("bug", "manual", [(F, SL + "        return data_.size();", "        mutex_.lock_shared(); if (data_.empty()) return 0; auto n = data_.size(); mutex_.unlock_shared(); return n;")]),
 ("bug", "early", [(F, "        auto d_first = get_flat_index(layer, first);\n        auto d_last = get_flat_index(layer, last);\n", "        auto d_first = get_flat_index(layer, first);\n        auto d_last = get_flat_index(layer, last);\n        lck.unlock();\n")]),
 ("bug", "heightlocked", [(F, "        std::unique_lock lck{mutex_};\n        Expects(flat_index < data_.size());", "        std::unique_lock lck{mutex_};\n        Expects(layer <= tree_height());")]),
 ("ok", "scoped", [(F, "        std::unique_lock lck1{mutex_, std::defer_lock};\n        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n", ("        std::scoped_lock lck{mutex_, other.mutex_};\n",))]),
 ("ok", "adopt", [(F, "        std::unique_lock lck1{mutex_, std::defer_lock};\n        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n", ("        std::lock(mutex_, other.mutex_);\n        std::lock_guard l1{mutex_, std::adopt_lock};\n        std::lock_guard l2{other.mutex_, std::adopt_lock};\n",))]),
 ("ok", "sharedother", [(F, "std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other", "std::shared_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other")]),
 ("ok", "copyswap", [(F, "        std::unique_lock lck1{mutex_, std::defer_lock};\n        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other.data_;", "        merkle_tree tmp(other);\n        std::unique_lock lck1{mutex_};\n        data_.swap(tmp.data_);")]),
 ("ok", "invertself", [(F, "        if (&other == this)\n            return *this;\n\n        std::unique_lock lck1{mutex_, std::defer_lock};\n        std::unique_lock lck2{other.mutex_, std::defer_lock};\n        std::lock(lck1, lck2);\n        data_ = other.data_;\n", "        if (this != std::addressof(other)) {\n        std::scoped_lock lck(mutex_, other.mutex_);\n        data_ = other.data_;\n}\n")]),
 ("ok", "helper", [(F, "        std::unique_lock lck{mutex_};\n        Expects(flat_index < data_.size());\n        data_[flat_index] = value;", "        std::unique_lock lck{mutex_};\n        store(flat_index, value);"), (F, "private:\n", "private:\n    void store(std::size_t i, const value_type& v) noexcept { Expects(i < data_.size()); data_[i] = v; }\n")]),
 ("ok", "lockhelper", [(F, SL + "        return data_.size();", "        auto lck = read_lock();\n        return data_.size();"), (F, "private:\n", "private:\n    std::shared_lock<std::shared_mutex> read_lock() const { return std::shared_lock{mutex_}; }\n")]),
 ("ok", "excl", [(F, SL + "        return data_[0] !=", "        std::lock_guard guard(mutex_);\n        return data_.front() !=")]),
 ("ok", "unlocked-helper", [(F, SL + "        return get_node_layer(data_.size()-1);", SL + "        return height_unlocked();"), (F, "private:\n", "private:\n    std::size_t height_unlocked() const { return get_node_layer(data_.size()-1); }\n")]),
 ("ok", "reorder", [(F, "        Expects(last <= nodes_in_layer(layer));\n        Expects(first <= last);\n" + SL, SL + "        Expects(last <= nodes_in_layer(layer));\n        Expects(first <= last);\n")]),
 ("ok", "iter", [(F, "        data_[flat_index] = value;", "        *std::next(data_.begin(), flat_index) = value;")]),
 ("ok", "unlockearly", [(F, SL + "        return data_.size();", SL + "        const auto n = data_.size();\n        lck.unlock();\n        return n;")]),
 ("ok", "ranged", [(F, "        data_.clear();\n        data_.assign(node_count, value);", "        data_.resize(node_count);\n        for (auto& n : data_) n = value;")]),
 ("ok", "fill", [(F, "        data_.clear();\n        data_.assign(node_count, value);", "        data_.resize(node_count);\n        std::fill(data_.begin(), data_.end(), value);")]),
]
