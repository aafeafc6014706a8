A = "src/v1_piece_verifier.cpp"
B = "src/v2_piece_verifier.cpp"
S = "    piece_map_[piece.index] = (real_hash == piece.hash);"
L = "                piece_map_[entry_index] = (layer_view[i] == reference_layer_view[i]);"
W = "    bool whole_file_complete = entry.pieces_root() == tree.root();"
M = [
 ("bug", "inv", [(A, S, S.replace("==", "!="))]),
 ("bug", "self", [(A, S, S.replace("piece.hash", "real_hash"))]),
 ("bug", "self2", [(A, S, S.replace("real_hash ==", "piece.hash =="))]),
 ("bug", "idx", [(A, "storage.get_piece_hash(piece.index)", "storage.get_piece_hash(0)")]),
 ("bug", "uncond", [(A, S, "    piece_map_[piece.index] = true;")]),
 ("bug", "or", [(A, S, S.replace("(real_hash == piece.hash)", "(real_hash == piece.hash) || piece.index + 1 == storage.piece_count()"))]),
 ("bug", "init", [(A, "piece_map_(storage.piece_count(), false)", "piece_map_(storage.piece_count(), true)")]),
 ("bug", "memcmp16", [(A, S, "    piece_map_[piece.index] = std::memcmp(real_hash.data(), piece.hash.data(), 16) == 0;")]),
 ("bug", "equal16", [(A, S, "    piece_map_[piece.index] = std::equal(real_hash.begin(), real_hash.begin() + 16, piece.hash.begin());")]),
 ("bug", "order", [(A, S, S.replace("==", "<="))]),
 ("bug", "ifelse", [(A, S, "    if (real_hash == piece.hash || piece.index == 0)\n        piece_map_[piece.index] = 1;\n    else\n        piece_map_[piece.index] = 0;")]),
 ("bug", "dropelse", [(A, S, "    if (piece.index < storage.piece_count())\n        piece_map_[piece.index] = 1;\n    if (real_hash != piece.hash && piece.index > 0)\n        piece_map_[piece.index] = 0;")]),
 ("bug", "mapidx", [(A, S, S.replace("piece_map_[piece.index]", "piece_map_[0]"))]),
 ("bug", "v2inv", [(B, L, L.replace("==", "!="))]),
 ("bug", "v2off", [(B, L, L.replace("reference_layer_view[i]", "reference_layer_view[0]"))]),
 ("bug", "v2noadv", [(B, "++i, ++entry_index", "++i")]),
 ("bug", "v2noupdate", [(B, "    tree.update(hasher);\n", "")]),
 ("bug", "v2lateupdate", [(B, "    tree.update(hasher);\n", ""), (B, "    bool is_single_piece_file", "    tree.update(hasher);\n    bool is_single_piece_file")]),
 ("bug", "v2tree", [(B, "    auto& tree = merkle_trees_[file_index];\n", "    auto& tree = merkle_trees_[0];\n")]),
 ("bug", "v2else", [(B, "            piece_map_[entry_index] = 0;", "            piece_map_[entry_index] = 1;")]),
 ("bug", "v2selfroot", [(B, W, W.replace("tree.root()", "entry.pieces_root()"))]),
 ("bug", "v2whole", [(B, W, W.replace("entry.pieces_root() == tree.root()", "entry.pieces_root() == tree.root() || entry.file_size() < piece_size"))]),
 ("bug", "v2leaf", [(B, "tree.set_leaf(finished_piece.leaf_index,", "tree.set_leaf(finished_piece.file_index,")]),
 ("bug", "v2fill", [(B, "    piece_map_.resize(piece_map_size);", "    piece_map_.resize(piece_map_size, 1);")]),
 ("bug", "v2single", [(B, "    if (whole_file_complete) {\n        if (is", "    if (whole_file_complete || is_single_piece_file) {\n        if (is")]),
 ("bug", "v2wronglayer", [(B, "            auto reference_layer_view = entry.piece_layer();", "            auto reference_layer_view = storage.at(0).piece_layer();")]),
 ("bug", "v2layerself", [(B, "            auto reference_layer_view = entry.piece_layer();", "            auto reference_layer_view = layer_view;")]),
 ("refactor", "ifelse2", [(A, S, "    if (real_hash == piece.hash)\n        piece_map_[piece.index] = 1;\n    else\n        piece_map_[piece.index] = 0;")]),
 ("refactor", "early", [(A, S, "    if (real_hash != piece.hash) {\n        piece_map_[piece.index] = 0;\n        return;\n    }\n    piece_map_[piece.index] = 1;")]),
 ("refactor", "local", [(A, S, "    const bool valid = piece.hash == real_hash;\n    piece_map_[piece.index] = valid ? 1 : 0;")]),
 ("refactor", "localidx", [(A, S, "    const auto i = piece.index;\n    piece_map_[i] = !(real_hash != piece.hash);")]),
 ("refactor", "at", [(A, S, S.replace("piece_map_[piece.index]", "piece_map_.at(piece.index)"))]),
 ("refactor", "memcmp", [(A, S, "    piece_map_[piece.index] = std::memcmp(real_hash.data(), piece.hash.data(), real_hash.size()) == 0;")]),
 ("refactor", "equal", [(A, S, "    piece_map_[piece.index] = std::equal(real_hash.begin(), real_hash.end(), piece.hash.begin());")]),
 ("refactor", "helper", [(A, "void v1_piece_verifier::verify_finished_piece", "static bool same(const sha1_hash& a, const sha1_hash& b)\n{\n    return a == b;\n}\n\nvoid v1_piece_verifier::verify_finished_piece"), (A, S, "    piece_map_[piece.index] = same(real_hash, piece.hash);")]),
 ("refactor", "inline", [(A, "    const auto& real_hash = storage.get_piece_hash(piece.index);\n", ""), (A, S, "    piece_map_[piece.index] = storage.get_piece_hash(piece.index) == piece.hash;")]),
 ("refactor", "reset", [(A, "    const auto& real_hash", "    piece_map_[piece.index] = 0;\n    const auto& real_hash")]),
 ("refactor", "v2loop", [(B, "            for (std::size_t i = 0; i < max_offset; ++i, ++entry_index) {\n" + L, "            for (std::size_t i = 0; i < max_offset; ++i) {\n" + L.replace("entry_index", "entry_index + i"))]),
 ("refactor", "v2fillloop", [(B, "            std::fill_n(std::next(piece_map_.begin(), entry_index), entry.piece_layer().size(), 1);", "            for (std::size_t i = 0; i < entry.piece_layer().size(); ++i) piece_map_[entry_index + i] = 1;")]),
 ("refactor", "v2fill2", [(B, "            std::fill_n(std::next(piece_map_.begin(), entry_index), entry.piece_layer().size(), 1);", "            auto first = std::next(piece_map_.begin(), entry_index);\n            std::fill(first, std::next(first, entry.piece_layer().size()), 1);")]),
 ("refactor", "v2cond", [(B, W, "    const auto root = tree.root();\n    bool whole_file_complete = !(root != entry.pieces_root());")]),
 ("refactor", "v2one", [(B, "            Expects(entry_index < piece_map_.size());\n            piece_map_[entry_index] = 1;\n", "            mark(entry_index, 1);\n"), (B, "    if (whole_file_complete) {", "    auto mark = [this](std::size_t at, std::uint8_t v) {\n        Expects(at < piece_map_.size());\n        piece_map_[at] = v;\n    };\n    if (whole_file_complete) {")]),
 ("refactor", "v2transform", [(B, "            for (std::size_t i = 0; i < max_offset; ++i, ++entry_index) {\n" + L + "\n            }", "            std::transform(layer_view.begin(), layer_view.begin() + max_offset, reference_layer_view.begin(), piece_map_.begin() + entry_index,\n                    [](const auto& a, const auto& b) -> std::uint8_t { return a == b; });")]),
]
