S = "src/file_storage.cpp"
H = "include/dottorrent/file_storage.hpp"
ADD = """    index_valid_ = false;
    auto s = file.file_size();
    total_file_size_ += s;
    if (!file.is_padding_file()) { total_regular_file_size_ += s; }
    files_.push_back(file);"""
REM = """    if (it != std::end(files_)) {
        auto s = it->file_size();
        total_file_size_ -= s;
        if (!it->is_padding_file()) { total_regular_file_size_ -= s; }
        files_.erase(it);
    }"""
M = [
 ("bug", "orig", [(H, "        total_regular_file_size_ = 0;\n", "")]),
 ("bug", "noidx", [(H, "        index_valid_ = false;\n        files_.clear", "        files_.clear")]),
 ("bug", "addidx", [(S, ADD, ADD.replace("    index_valid_ = false;\n", ""))]),
 ("bug", "addtwice", [(S, ADD, ADD.replace("total_file_size_ += s;", "total_file_size_ += s; total_file_size_ += s;"))]),
 ("bug", "addnone", [(S, ADD, ADD.replace("    total_file_size_ += s;\n", ""))]),
 ("bug", "padinv", [(S, ADD, ADD.replace("!file.is_padding", "file.is_padding"))]),
 ("bug", "padnone", [(S, ADD, ADD.replace("if (!file.is_padding_file()) { total_regular_file_size_ += s; }", "total_regular_file_size_ += s;"))]),
 ("bug", "totpad", [(S, ADD, ADD.replace("    total_file_size_ += s;\n    if (!file.is_padding_file()) { total_regular_file_size_ += s; }", "    if (!file.is_padding_file()) { total_regular_file_size_ += s; total_file_size_ += s; }"))]),
 ("bug", "remuncond", [(S, REM, "    auto s = entry.file_size();\n    total_file_size_ -= s;\n    if (it != std::end(files_)) {\n        if (!it->is_padding_file()) { total_regular_file_size_ -= it->file_size(); }\n        files_.erase(it);\n    }")]),
 ("bug", "remlate", [(S, REM, REM.replace("        files_.erase(it);\n", "").replace("        auto s = it", "        files_.erase(it);\n        auto s = it"))]),
 ("bug", "rementry", [(S, REM, REM.replace("auto s = it->file_size()", "auto s = entry.file_size()"))]),
 ("bug", "remadd", [(S, REM, REM.replace("total_file_size_ -= s", "total_file_size_ += s", 1))]),
 ("bug", "assignidx", [(S, "    index_valid_ = false;\n\n    return *this;", "    return *this;")]),
 ("bug", "validtrue", [(S, ADD, ADD.replace("index_valid_ = false", "index_valid_ = true"))]),
 ("bug", "recompute", [(H, "!f.is_padding_file() ? f.file_size() : 0ul", "f.is_padding_file() ? f.file_size() : 0ul")]),
 ("bug", "skipzero", [(S, ADD, "    if (file.file_size() > 100) index_valid_ = false;\n" + ADD.replace("    index_valid_ = false;\n", ""))]),
 ("ok", "back", [(S, ADD, "    files_.push_back(file);\n    const auto& f = files_.back();\n    total_file_size_ += f.file_size();\n    if (!f.is_padding_file()) total_regular_file_size_ += f.file_size();\n    index_valid_ = false;")]),
 ("ok", "helper", [(S, ADD, "    account(file);\n    files_.push_back(file);"), (H, "    void remove_file(const file_entry& entry);\n", "    void remove_file(const file_entry& entry);\nprivate:\n    void account(const file_entry& f) { index_valid_ = false; total_file_size_ += f.file_size(); if (f.is_padding_file()) return; total_regular_file_size_ += f.file_size(); }\npublic:\n")]),
 ("ok", "ite", [(S, ADD, ADD.replace("if (!file.is_padding_file()) { total_regular_file_size_ += s; }", "total_regular_file_size_ += file.is_padding_file() ? 0 : s;"))]),
 ("ok", "plain", [(S, ADD, ADD.replace("total_file_size_ += s;\n", "total_file_size_ = total_file_size_ + s;\n"))]),
 ("ok", "remearly", [(S, REM, "    if (it == files_.end()) return;\n    const bool pad = it->is_padding_file();\n    const auto s = it->file_size();\n    files_.erase(it);\n    total_file_size_ -= s;\n    if (!pad) { total_regular_file_size_ -= s; }")]),
 ("ok", "remref", [(S, REM, "    if (it == files_.end()) return;\n    const auto& e = *it;\n    const auto s = e.file_size();\n    total_file_size_ -= s;\n    if (!e.is_padding_file()) { total_regular_file_size_ -= s; }\n    files_.erase(it);")]),
 ("ok", "loop", [(H, "            std::for_each(first, last, [&](const file_entry& file) {\n                add_file(file);\n            });", "            for (; first != last; ++first) { add_file(*first); }")]),
 ("ok", "emplace", [(S, ADD, "    const auto& f = files_.emplace_back(file);\n    total_file_size_ += f.file_size();\n    if (!f.is_padding_file()) total_regular_file_size_ += f.file_size();\n    index_valid_ = false;")]),
 ("ok", "delegate", [(S, ADD, "    auto copy = file;\n    add_file(std::move(copy));")]),
 ("ok", "regfield", [(H, "        return std::transform_reduce(files_.begin(), files_.end(), 0ul, std::plus<std::size_t>{},\n            [](const file_entry& f) { return !f.is_padding_file() ? f.file_size() : 0ul; });", "        return total_regular_file_size_;")]),
 ("ok", "sumloop", [(H, "        return std::transform_reduce(files_.begin(), files_.end(), 0ul, std::plus<std::size_t>{},\n            [](const file_entry& f) { return !f.is_padding_file() ? f.file_size() : 0ul; });", "        std::size_t n = 0; for (const auto& f : files_) { if (!f.is_padding_file()) n += f.file_size(); } return n;")]),
 ("ok", "deadfield", [(S, "    , total_regular_file_size_(other.total_regular_file_size_)\n", ""), (S, "    total_regular_file_size_ = other.total_regular_file_size_;\n", ""), (S, ("    if (!file.is_padding_file()) { total_regular_file_size_ += s; }\n"), ("",)), (S, "        if (!it->is_padding_file()) { total_regular_file_size_ -= s; }\n", ""), (H, "        total_regular_file_size_ = 0;\n", ""), (H, "    std::size_t total_regular_file_size_ {};\n", "")]),
]
