F = "src/metafile_parsing.cpp"
TOP = "    if (!bc::holds_dict(data)) {\n        throw parse_error(\"metafile is not a dictionary\");\n    }\n"
INF = "    if (!get_dict(data).contains(\"info\")) {\n        throw parse_error(\"info\", \"missing field\");\n    }\n"
PL = "        if (piece_length < 16 * 1024 || !std::has_single_bit(static_cast<std::size_t>(piece_length))) {\n"
PC = "        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {\n"
DT = "                if (tuple.size() != 2) {\n                    throw parse_error(key, \"expected a list of host and port\");\n                }\n"
DP = "                if (port < 0 || port > 65535) {\n"
LN = "    if (length < 0) {\n        throw parse_error(\"length\", \"expected a non-negative integer\");\n    }\n    std::size_t size = length;\n\n    // file attributes"
PV = "            if (v != 0 && v != 1) {\n"
HY = "        if (it == storage.end()) {\n"
LK = "    auto length_field_it = file_dict.find(\"length\");\n    if (length_field_it == file_dict.end()) {\n        throw parse_error(\"name\", \"missing file size\");\n    }\n    const auto length = bencode::get_integer"
LR = "    if (it == dict.end()) {\n        throw parse_error(key, \"missing field\");\n    }\n"
M = [
 ("refactor", "nodict", [(F, TOP, "")]),
 ("bug", "noinfo", [(F, INF, "")]),
 ("bug", "infolate", [(F, INF, ""), (F, "    metafile m{};\n", "    metafile m{};\n    if (get_dict(data).contains(\"announce\") && !get_dict(data).contains(\"info\")) {\n        throw parse_error(\"info\", \"missing field\");\n    }\n")]),
 ("bug", "infokey", [(F, "    if (!get_dict(data).contains(\"info\")) {", "    if (!get_dict(data).contains(\"Info\")) {")]),
 ("bug", "plmin", [(F, "piece_length < 16 * 1024 ||", "piece_length < 8 * 1024 ||")]),
 ("bug", "plpow", [(F, PL, "        if (piece_length < 16 * 1024 || piece_length % 1024 != 0) {\n")]),
 ("bug", "pland", [(F, PL, "        if (piece_length < 16 * 1024 && !std::has_single_bit(static_cast<std::size_t>(piece_length))) {\n")]),
 ("bug", "piececount", [(F, PC, "        if (piece_string.size() % 20 != 0) {\n")]),
 ("bug", "dhtsize", [(F, DT, "")]),
 ("bug", "dhtsize1", [(F, "tuple.size() != 2", "tuple.size() < 1")]),
 ("bug", "dhtport", [(F, DP, "                if (port < 0 || port > 99999) {\n")]),
 ("bug", "dhtneg", [(F, DP, "                if (port > 65535) {\n")]),
 ("bug", "negsize", [(F, LN, "    std::size_t size = length;\n\n    // file attributes")]),
 ("bug", "neglen1", [(F, LN, LN.replace("length < 0", "length < -1"))]),
 ("bug", "private2", [(F, PV, "            if (v > 1) {\n")]),
 ("bug", "hybridend", [(F, HY, "        if (storage.file_count() == 0) {\n")]),
 ("bug", "lenmissing", [(F, LK, "    auto length_field_it = file_dict.find(\"length\");\n    if (file_dict.empty()) {\n        throw parse_error(\"name\", \"missing file size\");\n    }\n    const auto length = bencode::get_integer")]),
 ("bug", "layers", [(F, LR, "")]),
 ("bug", "layersinv", [(F, "    if (it == dict.end()) {\n        throw parse_error(key, \"missing field\");", "    if (it != dict.end() && !holds_dict(it->second)) {\n        throw parse_error(key, \"missing field\");")]),
 ("bug", "rootmissing", [(F, "    if (pieces_root_it == file_dict.end()) {\n        // empty files may omit the pieces root key\n        if (size > 0) {\n            throw parse_error(\"pieces root\", \"missing pieces root\");\n        }\n        pieces_root = std::nullopt;\n    } else {", "    {")]),
 ("bug", "rootopt", [(F, "    if (pieces_root) {\n        entry.set_pieces_root(*pieces_root);\n    }", "    if (size > 0 || attributes) {\n        entry.set_pieces_root(*pieces_root);\n    }")]),
 ("bug", "attrdict", [(F, "    if (!holds_dict(data)) {\n        throw parse_error(\"files\", \"expected a dictionary\");\n    }\n", "    Expects(holds_dict(data));\n")]),
 ("bug", "pathlist", [(F, "    if (!holds_list(data)) {\n        throw parse_error(\"path\", \"expected a list of path components\");\n    }\n", "    Expects(holds_list(data));\n")]),
 ("bug", "pathempty", [(F, "    if (blist.empty()) {\n        throw parse_error(\"path\", \"empty path\");\n    }\n", "    p = fs::path(bc::get_as<std::string_view>(blist.front())).filename();\n")]),
 ("bug", "namemissing", [(F, "        if (name_field_it == file_dict.end()) {\n            throw parse_error(\"name\", \"missing file name\");\n        }\n", "        Expects(name_field_it != file_dict.end());\n")]),
 ("bug", "symopt", [(F, "        symlink = parse_path(it->second);\n    }\n\n    file_entry entry(std::move", "        *symlink = parse_path(it->second);\n    }\n\n    file_entry entry(std::move")]),
 ("bug", "entryassert", [("src/file_entry.cpp", "        if (file_size_ != 0) {\n            throw std::invalid_argument(\"symlink with a size\");\n        }\n", "        Ensures(file_size_ == 0);\n")]),
 ("bug", "assertsize", [(F, "        auto piece_count = piece_string.size() / 20;\n", "        auto piece_count = piece_string.size() / 20;\n        Expects(piece_string.size() >= 20);\n")]),
 ("bug", "assertstr", [(F, "            const auto desc = get_string(it->second);\n            m.set_source(desc);", "            const auto desc = get_string(it->second);\n            Expects(!desc.empty());\n            m.set_source(desc);")]),
 ("refactor", "toplocal", [(F, TOP + INF, "    const bool ok = bc::holds_dict(data);\n    if (!ok) throw parse_error(\"metafile is not a dictionary\");\n    const auto& dict = get_dict(data);\n    if (const auto it = dict.find(\"info\"); it == dict.end()) throw parse_error(\"info\", \"missing field\");\n")]),
 ("refactor", "topor", [(F, TOP + INF, "    if (!bc::holds_dict(data) || !get_dict(data).contains(\"info\")) throw parse_error(\"not a metafile\");\n")]),
 ("refactor", "tophelper", [(F, TOP + INF, "    detail::require_info(data);\n"), (F, "template <bc::bvalue_or_bview T>\nvoid parse_announce(const T& data, metafile& m)\n{\n", "template <bc::bvalue_or_bview T>\nstatic void require_info(const T& data)\n{\n    if (!holds_dict(data)) throw parse_error(\"metafile is not a dictionary\");\n    if (!get_dict(data).contains(\"info\")) throw parse_error(\"info\", \"missing field\");\n}\n\ntemplate <bc::bvalue_or_bview T>\nvoid parse_announce(const T& data, metafile& m)\n{\n")]),
 ("refactor", "plsplit", [(F, PL, "        const bool too_small = piece_length < 16384;\n        const auto length = static_cast<std::size_t>(piece_length);\n        if (too_small || !std::has_single_bit(length)) {\n")]),
 ("refactor", "pltwo", [(F, PL, "        if (piece_length <= 16383) throw parse_error(\"piece length\", \"too small\");\n        if (std::popcount(static_cast<std::uint64_t>(piece_length)) != 1) {\n")]),
 ("refactor", "plmask", [(F, PL, "        if (piece_length < 16 * 1024 || (piece_length & (piece_length - 1)) != 0) {\n")]),
 ("refactor", "pllocal", [(F, "        storage.set_piece_size(static_cast<std::size_t>(piece_length));", "        const std::size_t value = piece_length;\n        storage.set_piece_size(value);")]),
 ("refactor", "pchelper", [(F, PC, "        const auto expected = storage.piece_count();\n        if (piece_count * 20 != piece_string.size() || expected != piece_count) {\n")]),
 ("refactor", "pcwhile", [(F, "        for (std::size_t idx = 0; idx < piece_count; ++idx) {", "        for (std::size_t idx = 0; idx != storage.piece_count(); ++idx) {")]),
 ("refactor", "dhtat", [(F, "get_integer(tuple[1])", "get_integer(tuple.at(1))"), (F, "get_string(tuple[0])", "get_string(tuple.at(0))"), (F, DT, "")]),
 ("refactor", "dhtge", [(F, "tuple.size() != 2", "tuple.size() < 2")]),
 ("refactor", "dhtrange", [(F, DP, "                if (!(port >= 0 && port <= 0xffff)) {\n")]),
 ("refactor", "dhtuns", [(F, DP, "                if (static_cast<std::uint64_t>(port) > 65535) {\n")]),
 ("refactor", "dhtlimits", [(F, DP, "                if (port < 0 || port > std::numeric_limits<std::uint16_t>::max()) {\n")]),
 ("refactor", "sizele", [(F, LN, LN.replace("length < 0", "length <= -1"))]),
 ("refactor", "sizehelper", [(F, LN, "    const std::size_t size = checked_length(length);\n\n    // file attributes"), (F, "/// Path components of a metafile must", "static std::size_t checked_length(std::int64_t v)\n{\n    if (v < 0) throw parse_error(\"length\", \"negative\");\n    return static_cast<std::size_t>(v);\n}\n\n/// Path components of a metafile must")]),
 ("refactor", "privrange", [(F, PV, "            if (v < 0 || v > 1) {\n")]),
 ("refactor", "privswitch", [(F, PV, "            const bool valid = v == 0 || v == 1;\n            if (!valid) {\n")]),
 ("refactor", "hybridneg", [(F, "        if (it == storage.end()) {\n            throw parse_error(\"file tree\", \"file is missing from the v1 file list\");\n        }\n        // empty files can ommit the pieces root\n        if (v2_entry.file_size() > 0) {\n            it->set_pieces_root(v2_entry.pieces_root());\n        }", "        if (it != storage.end()) {\n            if (v2_entry.file_size() > 0) {\n                it->set_pieces_root(v2_entry.pieces_root());\n            }\n        } else {\n            throw parse_error(\"file tree\", \"file is missing from the v1 file list\");\n        }")]),
 ("refactor", "lenat", [(F, LK, "    if (!file_dict.contains(\"length\")) {\n        throw parse_error(\"name\", \"missing file size\");\n    }\n    auto length_field_it = file_dict.find(\"length\");\n    const auto length = bencode::get_integer")]),
 ("refactor", "layersend", [(F, "    if (it == dict.end()) {\n        throw parse_error(key, \"missing field\");\n    }\n    if (!holds_dict(it->second))\n        throw parse_error(key, \"expected dict\");\n", "    if (it == std::end(dict) || !holds_dict(it->second)) {\n        throw parse_error(key, \"missing field\");\n    }\n")]),
 ("refactor", "rootvalue", [(F, "    if (pieces_root) {\n        entry.set_pieces_root(*pieces_root);\n    }", "    if (pieces_root.has_value()) {\n        entry.set_pieces_root(pieces_root.value());\n    }")]),
 ("refactor", "rootneg", [(F, "    if (pieces_root) {\n        entry.set_pieces_root(*pieces_root);\n    }", "    const bool has_root = pieces_root != std::nullopt;\n    if (has_root) {\n        const auto& root = *pieces_root;\n        entry.set_pieces_root(root);\n    }")]),
 ("refactor", "noasserts", [(F, "    Expects(holds_dict(data));\n\n    const auto& dict = get_dict(data);\n    constexpr auto key = \"comment\"sv;", "    const auto& dict = get_dict(data);\n    constexpr auto key = \"comment\"sv;")]),
 ("refactor", "sharedinfo", [(F, "    Expects(holds_dict(data));\n    const auto& dict = get_dict(data);\n    Expects(dict.contains(\"info\"));\n\n    const auto& info_view = dict.at(\"info\");\n    const auto& info_dict = get_dict(info_view);\n    constexpr auto key = \"private\"sv;", "    const auto& info_dict = get_info(data);\n    constexpr auto key = \"private\"sv;"), (F, "template <bc::bvalue_or_bview T>\nvoid parse_announce(const T& data, metafile& m)\n{\n", "template <bc::bvalue_or_bview T>\nstatic const auto& get_info(const T& data)\n{\n    Expects(holds_dict(data));\n    const auto& dict = get_dict(data);\n    Expects(dict.contains(\"info\"));\n    return get_dict(dict.at(\"info\"));\n}\n\ntemplate <bc::bvalue_or_bview T>\nvoid parse_announce(const T& data, metafile& m)\n{\n")]),
 ("refactor", "constassert", [(F, "        auto piece_count = piece_string.size() / 20;\n", "        auto piece_count = piece_string.size() / 20;\n        Expects(piece_count <= piece_string.size());\n")]),
 ("refactor", "index", [(F, "            for (const auto& c : desc) {\n                m.add_http_seed(get_string(c));\n            }", "            for (std::size_t i = 0; i < desc.size(); ++i) {\n                m.add_http_seed(get_string(desc[i]));\n            }")]),
]
