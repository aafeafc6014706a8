F = "src/file_entry.cpp"
S = "src/file_storage.cpp"
T = "include/dottorrent/merkle_tree.hpp"
D = "include/dottorrent/dht_node.hpp"
A = "include/dottorrent/announce_url.hpp"
FH = "include/dottorrent/file_entry.hpp"
CA = open("/repo/"+F).read()
i = CA.index("file_entry& file_entry::operator=(const"); j = CA.index("file_entry& file_entry::operator=(file_entry&&"); k = CA.index("const fs::path& file_entry::path()")
COPY = CA[i:j]; MOVE = CA[j:k]
LOOP = """    for (const auto& [k, v] : other.checksums_) {
        checksums_.emplace(k, make_checksum(v->name(), v->value()));
    }
    return *this;"""
M = [
 ("bug", "orig", [(F, "checksums_ = std::move(other.checksums_);", "checksums_ = std::move(checksums_);")]),
 ("bug", "drop", [(F, "    pieces_root_ = other.pieces_root_;\n    piece_layer_ = other.piece_layer_;", "    pieces_root_ = other.pieces_root_;")]),
 ("bug", "cond", [(F, "    piece_layer_ = other.piece_layer_;\n", "    if (other.has_v2_data_) piece_layer_ = other.piece_layer_;\n")]),
 ("bug", "ctor", [(F, "        , last_modified_time_(other.last_modified_time_)\n        , has_v2_data_(other.has_v2_data_)\n{\n    // Check invariants\n    if (is_symlink()) {\n        Ensures(symlink_path_.has_value());\n        Ensures(file_size_ == 0);\n    }\n\n    for", "        , last_modified_time_(other.last_modified_time_)\n{\n    for")]),
 ("bug", "noclear", [(F, "    checksums_.clear();\n", "")]),
 ("bug", "skip", [(F, LOOP, "    for (const auto& [k, v] : other.checksums_) {\n        if (v->size() == 0) continue;\n        checksums_.emplace(k, make_checksum(v->name(), v->value()));\n    }\n    return *this;")]),
 ("bug", "noloop", [(F, LOOP, "    return *this;")]),
 ("bug", "early", [(F, LOOP, "    if (!has_v2_data_) return *this;\n" + LOOP)]),
 ("bug", "wrongsrc", [(F, "    attributes_ = other.attributes_;\n    symlink_path_ = other.symlink_path_;", "    attributes_ = other.attributes_;\n    symlink_path_ = other.path_;")]),
 ("bug", "spoil", [(F, "    file_size_ = other.file_size_;\n    pieces_root_ = other.pieces_root_;\n    piece_layer_ = std::move", "    other.file_size_ = 0;\n    file_size_ = other.file_size_;\n    pieces_root_ = other.pieces_root_;\n    piece_layer_ = std::move")]),
 ("bug", "fs-mode", [(S, "    file_mode_ = other.file_mode_;\n", "")]),
 ("bug", "fs-pieces", [(S, "    , pieces_(other.pieces_)\n", "")]),
 ("bug", "mt", [(T, "data_ = other.data_;", "data_.resize(other.data_.size());")]),
 ("bug", "dht", [(D, "    dht_node(dht_node&&) = default;\n    dht_node& operator=(const dht_node&) = default;", "    dht_node(dht_node&&) = default;\n    dht_node& operator=(const dht_node& o) { url = o.url; return *this; }")]),
 ("bug", "dht2", [(D, "    dht_node(const dht_node&) = default;\n", "    dht_node(const dht_node& o) : url(o.url) { if (!o.url.empty()) port = o.port; }\n")]),
 ("bug", "selfmove", [(D, "    dht_node& operator=(dht_node&&) = default;", "    dht_node& operator=(dht_node&& o) { if (o == *this) return *this; url = std::move(o.url); port = port; return *this; }")]),
 ("bug", "reset", [(S, "    index_valid_ = false;\n\n    return *this;", "    index_valid_ = false;\n    pieces_.clear();\n    return *this;")]),
 ("ok", "swap", [(D, "    dht_node& operator=(dht_node&&) = default;", "    dht_node& operator=(dht_node&& o) { std::swap(url, o.url); std::swap(port, o.port); return *this; }")]),
 ("ok", "exch", [(D, "    dht_node(dht_node&&) = default;", "    dht_node(dht_node&& o) : url(std::move(o.url)), port(std::exchange(o.port, 0)) {}")]),
 ("ok", "tmp", [(F, COPY, "file_entry& file_entry::operator=(const file_entry& other) {\n    if (&other == this) return *this;\n    file_entry tmp(other);\n    *this = std::move(tmp);\n    return *this;\n}\n\n")]),
 ("ok", "tie", [(D, "    dht_node& operator=(const dht_node&) = default;", "    dht_node& operator=(const dht_node& o) { std::tie(url, port) = std::tie(o.url, o.port); return *this; }")]),
 ("ok", "self-neg", [(F, MOVE, MOVE.replace("    if (&other == this) return *this;\n", "    if (this != &other) {\n").replace("    return *this;", "    }\n    return *this;"))]),
 ("ok", "foreach", [(F, LOOP, "    std::for_each(other.checksums_.begin(), other.checksums_.end(), [this](const auto& kv) { checksums_.emplace(kv.first, make_checksum(kv.second->name(), kv.second->value())); });\n    return *this;")]),
 ("ok", "iter", [(F, LOOP, "    for (auto it = other.checksums_.begin(); it != other.checksums_.end(); ++it) {\n        checksums_.emplace(it->first, make_checksum(it->second->name(), it->second->value()));\n    }\n    return *this;")]),
 ("ok", "helper", [(F, "file_entry& file_entry::operator=(const", "static std::remove_cvref_t<decltype(std::declval<file_entry>().checksums())> clone_all(const decltype(std::declval<file_entry>().checksums())& in)\n{ std::remove_cvref_t<decltype(std::declval<file_entry>().checksums())> out; for (const auto& [k, v] : in) { out.emplace(k, make_checksum(v->name(), v->value())); } return out; }\nfile_entry& file_entry::operator=(const"), (F, "    checksums_.clear();\n\n" + LOOP, "    checksums_ = clone_all(other.checksums_);\n    return *this;")]),
 ("ok", "local", [(F, "    checksums_.clear();\n\n" + LOOP, "    decltype(checksums_) fresh;\n    for (const auto& [k, v] : other.checksums_) {\n        fresh.emplace(k, make_checksum(v->name(), v->value()));\n    }\n    checksums_ = std::move(fresh);\n    return *this;")]),
 ("ok", "localswap", [(F, "    checksums_.clear();\n\n" + LOOP, "    decltype(checksums_) fresh;\n    for (const auto& [k, v] : other.checksums_) {\n        fresh.emplace(k, make_checksum(v->name(), v->value()));\n    }\n    checksums_.swap(fresh);\n    return *this;")]),
 ("ok", "order", [(S, "    piece_size_ = other.piece_size_;\n    root_directory_ = other.root_directory_;\n    file_mode_", "    root_directory_ = other.root_directory_;\n    this->piece_size_ = other.piece_size();\n    file_mode_")]),
 ("ok", "assign", [(S, "    pieces_ = other.pieces_;\n    index", "    pieces_.assign(other.pieces_.begin(), other.pieces_.end());\n    index")]),
 ("ok", "helpercopy", [(S, "    total_file_size_ = other.total_file_size_;\n    total_regular", "    const auto& src = other;\n    total_file_size_ = src.total_file_size_;\n    total_regular")]),
 ("ok", "cas", [(D, "    dht_node& operator=(const dht_node&) = default;", "    friend void swap(dht_node& a, dht_node& b) { using std::swap; swap(a.url, b.url); swap(a.port, b.port); }\n    dht_node& operator=(const dht_node& o) { dht_node t(o); swap(*this, t); return *this; }")]),
 ("bug", "lamskip", [(F, LOOP, "    std::for_each(other.checksums_.begin(), other.checksums_.end(), [this](const auto& kv) { if (kv.second->size() > 4) checksums_.emplace(kv.first, make_checksum(kv.second->name(), kv.second->value())); });\n    return *this;")]),
 ("bug", "tail", [(T, ("        data_ = other.data_;\n        return *this;"), "        if (data_.size() > other.data_.size())\n            std::copy(other.data_.begin(), other.data_.end(), data_.begin());\n        else\n            data_ = other.data_;\n        return *this;")]),
 ("ok", "samesize", [(T, ("        data_ = other.data_;\n        return *this;"), "        if (data_.size() == other.data_.size())\n            std::copy(other.data_.begin(), other.data_.end(), data_.begin());\n        else\n            data_ = other.data_;\n        return *this;")]),
 ("ok", "resized", [(T, ("        data_ = other.data_;\n        return *this;"), "        data_.resize(other.data_.size());\n        std::copy(other.data_.begin(), other.data_.end(), data_.begin());\n        return *this;")]),
]
