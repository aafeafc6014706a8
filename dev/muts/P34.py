HA="include/dottorrent/hash.hpp"; MF="src/metafile.cpp"; MP="src/metafile_parsing.cpp"; QP="include/dottorrent/concurrent_queue_processor.hpp"; S1="src/v1_chunk_hasher_sb.cpp"; S2="src/v2_chunk_hasher_sb.cpp"; FE="src/file_entry.cpp"; SV="src/storage_verifier.cpp"; FH="include/dottorrent/file_entry.hpp"; FS="src/file_storage.cpp"; C1="src/v1_checksum_hasher.cpp"
SYM="""    return attributes_ ?
           (*attributes_ & file_attributes::symlink) == file_attributes::symlink :
           false;
"""
M=[
 ("bug","hexhash",[(HA,"    if (!data)\n        throw std::invalid_argument(\n                \"invalid digest: contains non-hexadecimal characters\");\n","")]),
 ("bug","hexhash2",[(HA,"    if (!data)\n        throw std::invalid_argument(\n                \"inv","    if (!data && hex_string.empty())\n        throw std::invalid_argument(\n                \"inv")]),
 ("bug","sym",[(FE,SYM,"    return (*attributes_ & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("bug","symor",[(FE,SYM,"    return attributes_.has_value() || (*attributes_ & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("bug","tier",[(MF,"tier ? *tier : announce_list_.tier_count()","!announce_list_.empty() ? *tier : announce_list_.tier_count()")]),
 ("bug","rmtier",[(MF,"    if (!tier) {\n        if (auto","    if (!tier || *tier >= announce_list_.tier_count()) {\n        if (auto"),(MF,"it != announce_list_.end()) {\n            announce_list_.erase(it);","!announce_list_.empty()) {\n            announce_list_.erase(it);")]),
 ("bug","len",[(MP,("    auto length_field_it = file_dict.find(\"length\");\n    if (length_field_it == file_dict.end()) {"),("    auto length_field_it = file_dict.find(\"length\");\n    if (length_field_it == file_dict.end() && file_dict.empty()) {",))]),
 ("bug","name",[(MP,"        if (name_field_it == file_dict.end()) {\n            throw parse_error(\"name\", \"missing file name\");\n        }\n","")]),
 ("bug","root",[(MP,"    if (pieces_root) {\n        entry.set_pieces_root","    if (size > 0 || pieces_root_it != file_dict.end()) {\n        if (attributes) pieces_root.reset();\n        entry.set_pieces_root")]),
 ("bug","item",[(QP,"            if (!item.has_value())\n                continue;\n            std::invoke","            std::invoke")]),
 ("bug","item2",[(QP,"                if (!item.has_value())\n                    break;\n                std::invoke","                if (!item.has_value())\n                    queue_->try_pop(item);\n                std::invoke")]),
 ("bug","data",[(S1,"        bytes_done_.fetch_add(piece_size, std::memory_order_relaxed);\n        return;\n","        bytes_done_.fetch_add(piece_size, std::memory_order_relaxed);\n        if (chunk.piece_index != 0) return;\n")]),
 ("bug","data2",[(S1,"    if (chunk.data == nullptr) {\n","    if (chunk.data->empty() || chunk.data == nullptr) {\n")]),
 ("bug","chk",[(C1,"    Expects(item.data != nullptr);\n","")]),
 ("bug","mem",[(SV,"    if (options.max_memory) {\n","    if (options.max_memory || options.min_io_block_size) {\n")]),
 ("bug","rmfile",[(FS,"    if (it != std::end(files_)) {\n        auto s","    if (!files_.empty()) {\n        auto s")]),
 ("bug","rmchk",[(FH,"if (auto it = checksums_.find(algorithm); it != checksums_.end()) {","if (auto it = checksums_.find(algorithm); !checksums_.empty()) {")]),
 ("bug","getchk",[(FE,"const checksum* file_entry::get_checksum(std::string_view algorithm) const","static std::size_t digest_size(const file_entry& e, std::string_view a) { return e.get_checksum(a)->size(); }\nconst checksum* file_entry::get_checksum(std::string_view algorithm) const")]),
 ("refactor","sym-early",[(FE,SYM,"    if (!attributes_) return false;\n    return (*attributes_ & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-and",[(FE,SYM,"    return attributes_.has_value() && (*attributes_ & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-or",[(FE,SYM,"    return !(!attributes_ || (*attributes_ & file_attributes::symlink) != file_attributes::symlink);\n")]),
 ("refactor","sym-val",[(FE,SYM,"    return (attributes_.value_or(file_attributes::none) & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-loc",[(FE,SYM,"    const bool known = attributes_.has_value();\n    if (!known) return false;\n    const auto a = *attributes_;\n    return (a & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","sym-copy",[(FE,SYM,"    if (const auto a = attributes_) return (*a & file_attributes::symlink) == file_attributes::symlink;\n    return false;\n")]),
 ("refactor","sym-ref",[(FE,SYM,"    const auto& a = attributes_;\n    if (a == std::nullopt) return false;\n    return (*a & file_attributes::symlink) == file_attributes::symlink;\n")]),
 ("refactor","helper",[(FE,SYM,"    return attributes_ ? has_flag(file_attributes::symlink) : false;\n"),(FE,"bool file_entry::is_symlink()","bool file_entry::has_flag(file_attributes f) const noexcept { return (*attributes_ & f) == f; }\n\nbool file_entry::is_symlink()"),(FH,"    friend class file_storage;","    bool has_flag(file_attributes f) const noexcept;\n    friend class file_storage;")]),
 ("bug","helper",[(FE,SYM,"    return has_flag(file_attributes::symlink);\n"),(FE,"bool file_entry::is_symlink()","bool file_entry::has_flag(file_attributes f) const noexcept { return (*attributes_ & f) == f; }\n\nbool file_entry::is_symlink()"),(FH,"    friend class file_storage;","    bool has_flag(file_attributes f) const noexcept;\n    friend class file_storage;")]),
 ("refactor","helper2",[(FE,SYM,"    return has_flag(file_attributes::symlink);\n"),(FE,"bool file_entry::is_symlink()","bool file_entry::has_flag(file_attributes f) const noexcept { return attributes_ && (*attributes_ & f) == f; }\n\nbool file_entry::is_symlink()"),(FH,"    friend class file_storage;","    bool has_flag(file_attributes f) const noexcept;\n    friend class file_storage;")]),
 ("refactor","helper3",[(FE,SYM,"    return has_flag(attributes_, file_attributes::symlink);\n"),(FE,"bool file_entry::is_symlink()","static bool has_flag(const std::optional<file_attributes>& a, file_attributes f) { return a && (*a & f) == f; }\n\nbool file_entry::is_symlink()")]),
 ("refactor","helper4",[(FE,SYM,"    return attributes_ ? has_flag(attributes_, file_attributes::symlink) : false;\n"),(FE,"bool file_entry::is_symlink()","static bool has_flag(const std::optional<file_attributes>& a, file_attributes f) { return (*a & f) == f; }\n\nbool file_entry::is_symlink()")]),
 ("refactor","tier-val",[(MF,"tier ? *tier : announce_list_.tier_count()","tier.value_or(announce_list_.tier_count())")]),
 ("refactor","tier-fill",[(MF,"    add_tracker(announce_url{url, tier ? *tier : announce_list_.tier_count()});","    if (!tier) tier = announce_list_.tier_count();\n    add_tracker(announce_url{url, *tier});")]),
 ("refactor","rm-early",[(MF,"        if (auto it = announce_list_.find(url); it != announce_list_.end()) {\n            announce_list_.erase(it);\n        }","        auto it = announce_list_.find(url);\n        const auto last = announce_list_.end();\n        if (it == last) return;\n        announce_list_.erase(it);")]),
 ("refactor","len-contains",[(MP,"    auto length_field_it = file_dict.find(\"length\");\n    if (length_field_it == file_dict.end()) {\n        throw parse_error(\"name\", \"missing file size\");\n    }\n","    if (!file_dict.contains(\"length\")) {\n        throw parse_error(\"name\", \"missing file size\");\n    }\n    auto length_field_it = file_dict.find(\"length\");\n")]),
 ("refactor","root-else",[(MP,"    if (pieces_root) {\n        entry.set_pieces_root(*pieces_root);\n    }","    if (!pieces_root) {}\n    else\n        entry.set_pieces_root(*pieces_root);")]),
 ("refactor","item-if",[(QP,"            if (!item.has_value())\n                continue;\n            std::invoke(work_function_, std::move(*item));","            if (item) {\n                auto work = std::move(*item);\n                std::invoke(work_function_, std::move(work));\n            }")]),
 ("refactor","item-helper",[(QP,"            if (!item.has_value())\n                continue;\n            std::invoke(work_function_, std::move(*item));","            if (!item.has_value())\n                continue;\n            work_on(item);"),(QP,"private:\n    void run(","private:\n    void work_on(std::optional<parameter_type>& item) { std::invoke(work_function_, std::move(*item)); }\n    void run(")]),
 ("refactor","data-not",[(S1,"    if (chunk.data == nullptr) {\n","    if (!chunk.data) {\n")]),
 ("refactor","data-var",[(S1,"    if (chunk.data == nullptr) {\n","    const bool missing = chunk.data == nullptr;\n    if (missing) {\n")]),
 ("refactor","data-get",[(S1,"    if (chunk.data == nullptr) {\n","    if (chunk.data.get() == nullptr) {\n")]),
 ("refactor","mem-tern",[(SV,"    if (options.max_memory) {\n        queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);\n    }\n    else {\n        queue_capacity_ = std::max(std::size_t(4), 4 * threads_);\n    }","    queue_capacity_ = std::max(std::size_t(4), options.max_memory.has_value() ? options.max_memory.value() / io_block_size_ : 4 * threads_);")]),
 ("refactor","rmfile-early",[(FS,"    if (it != std::end(files_)) {\n        auto s","    if (it == files_.end()) return;\n    {\n        auto s")]),
]
