FS="src/file_storage.cpp"; FE="src/file_entry.cpp"; FH="include/dottorrent/file_storage.hpp"
DROP="    pieces_.clear();\n    for (auto& entry : files_) { entry.piece_layer_.clear(); }\n"
RNG="""    // empty files have no pieces
    if (entry.file_size() == 0) return {offset, offset};

    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
    return {offset, last};
"""
M=[
 ("bug","dots",[(FE,"!relative_file.empty() && *relative_file.begin() == \"..\"","relative_file.generic_string().starts_with(\"..\")")]),
 ("bug","dots2",[(FE,"!relative_file.empty() && *relative_file.begin() == \"..\"","relative_file.generic_string().rfind(\"..\", 0) == 0")]),
 ("bug","contents",[(FS,"        return is_inside_directory(files_[index].path(), directory);","        return files_[index].path().string().starts_with(directory.string());")]),
 ("bug","contents2",[(FS,"        return is_inside_directory(files_[index].path(), directory);","        const auto text = files_[index].path().generic_string();\n        const auto dir = directory.generic_string();\n        return text.compare(0, dir.size(), dir) == 0;")]),
 ("bug","count",[(FS,"!root.empty() && !is_inside_directory(f.path(), root)","!root.empty() && !f.path().string().starts_with(root.string())")]),
 ("bug","samename",[(FS,"            current_dir /= *it;\n            auto dir = current_dir.string();","            auto dir = (current_dir / *it).string();")]),
 ("bug","samename2",[(FS,"            current_dir /= *it;\n            auto dir = current_dir.string();","            auto sub = current_dir / *it;\n            auto dir = sub.string();")]),
 ("bug","v1",[(FS,DROP,"    for (auto& entry : files_) { entry.piece_layer_.clear(); }\n")]),
 ("bug","v2",[(FS,DROP,"    pieces_.clear();\n")]),
 ("bug","v1cond",[(FS,DROP,"    if (files_.empty()) { pieces_.clear(); }\n    for (auto& entry : files_) { entry.piece_layer_.clear(); }\n")]),
 ("bug","unstored",[(FS,"    Expects(index < pieces_.size());\n","    Expects(index < piece_count());\n")]),
 ("bug","unstored2",[(FS,"    Expects(index < pieces_.size());\n","    Expects(index <= pieces_.size());\n")]),
 ("bug","range",[(FS,RNG,"    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;\n    return {offset, offset+count};\n")]),
 ("bug","range2",[(FS,RNG,"    return {offset, (cumulative_size + entry.file_size()) / piece_size_};\n")]),
 ("bug","stale",[(FS,"    if (!index_valid()) { index(); }\n","    if (files_index_.empty()) { index(); }\n")]),
 ("bug","stale2",[(FS,"    if (!index_valid()) { index(); }\n","")]),
 ("bug","nosort",[(FS,"    index_valid_ = true;\n}","    index_valid_ = true;\n}",)]) if False else
 ("bug","stale3",[(FS,"    if (!index_valid()) { index(); }\n","    if (!index_valid() && files_.size() > 1) { index(); }\n")]),
 ("refactor","slash",[(FS,"        return is_inside_directory(files_[index].path(), directory);","        return files_[index].path().generic_string().starts_with(directory.generic_string() + \"/\");")]),
 ("refactor","slash2",[(FS,"        return is_inside_directory(files_[index].path(), directory);","        auto dir = directory.generic_string();\n        if (!dir.empty() && dir.back() != '/') dir += '/';\n        return files_[index].path().generic_string().starts_with(dir);")]),
 ("refactor","search",[(FS,"    return std::mismatch(directory.begin(), last, path.begin(), path.end()).first == last;","    auto it = path.begin();\n    for (auto d = directory.begin(); d != last; ++d, ++it) {\n        if (it == path.end() || *it != *d) return false;\n    }\n    return true;")]),
 ("refactor","dots-cmp",[(FE,"!relative_file.empty() && *relative_file.begin() == \"..\"","const auto outside = relative_file.empty() ? fs::path() : *relative_file.begin(); outside == fs::path(\"..\")")]),
 ("refactor","dots-eq",[(FE,"!relative_file.empty() && *relative_file.begin() == \"..\"","relative_file == \"..\" || relative_file.generic_string().starts_with(\"../\")")]),
 ("refactor","same-op",[(FS,"            current_dir /= *it;\n            auto dir = current_dir.string();","            current_dir = current_dir / *it;\n            auto dir = current_dir.string();")]),
 ("refactor","same-append",[(FS,"            current_dir /= *it;\n            auto dir = current_dir.string();","            current_dir.append(it->native());\n            std::string dir = current_dir.string();")]),
 ("refactor","drop-early",[(FS,"    piece_size_ = size;\n\n","    if (size == piece_size_) return;\n    piece_size_ = size;\n\n")]),
 ("refactor","drop-before",[(FS,"    piece_size_ = size;\n\n    // hashes computed with another piece size are no longer valid\n"+DROP,DROP+"    piece_size_ = size;\n")]),
 ("refactor","drop-cond",[(FS,DROP,"    if (!pieces_.empty()) pieces_.clear();\n    for (auto& entry : files_) { if (!entry.piece_layer_.empty()) entry.piece_layer_ = {}; }\n")]),
 ("refactor","drop-each",[(FS,DROP,"    pieces_ = {};\n    std::for_each(files_.begin(), files_.end(), [](file_entry& e) { e.piece_layer_.clear(); });\n")]),
 ("refactor","drop-helper",[(FS,DROP,"    drop_hashes();\n"),(FS,"void file_storage::set_piece_size(std::size_t size) {","void file_storage::drop_hashes() {\n"+DROP+"}\n\nvoid file_storage::set_piece_size(std::size_t size) {"),(FH,"    bool index_valid() const noexcept;","    bool index_valid() const noexcept;\n    void drop_hashes();")]),
 ("refactor","stored-loc",[(FS,"    Expects(index < pieces_.size());\n","    const auto n = pieces_.size();\n    Expects(n > index);\n")]),
 ("refactor","stored-at",[(FS,"    Expects(index < pieces_.size());\n    return pieces_[index];","    return pieces_.at(index);")]),
 ("refactor","stored-if",[(FS,"    Expects(index < pieces_.size());\n","    if (index >= pieces_.size()) std::terminate();\n")]),
 ("refactor","range-m1",[(FS,RNG,"    if (entry.file_size() == 0) return {offset, offset};\n    const auto end = cumulative_size + entry.file_size();\n    return {offset, (end - 1) / piece_size_ + 1};\n")]),
 ("refactor","range-mod",[(FS,RNG,"    if (entry.file_size() == 0) return {offset, offset};\n    const auto end = cumulative_size + entry.file_size();\n    return {offset, end / piece_size_ + (end % piece_size_ != 0 ? 1 : 0)};\n")]),
 ("refactor","range-off",[(FS,RNG,"    if (entry.file_size() == 0) return {offset, offset};\n    const auto count = (cumulative_size % piece_size_ + entry.file_size() + piece_size_ - 1) / piece_size_;\n    return {offset, offset + count};\n")]),
 ("refactor","range-pair",[(FS,RNG,"    const bool none = entry.file_size() == 0;\n    const auto last = none ? offset : (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;\n    return std::make_pair(offset, last);\n")]),
 ("refactor","idx-neg",[(FS,"    if (!index_valid()) { index(); }\n","    if (index_valid_ == false) { index(); }\n")]),
 ("refactor","idx-always",[(FS,"    if (!index_valid()) { index(); }\n","    index();\n")]),
 ("refactor","idx-ensure",[(FS,"    if (!index_valid()) { index(); }\n","    const bool usable = index_valid();\n    if (usable) {}\n    else { index(); }\n")]),
]
