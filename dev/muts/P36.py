F="include/dottorrent/merkle_tree.hpp"; U="include/dottorrent/utils.hpp"
UP="""            for (std::size_t i = 0; i < nodes_in_layer(layer); ++ i) {
                hasher.update(get_node(layer, i));
                hasher.update(get_node(layer, ++ i));

                value_type hash{};
                hasher.finalize_to(hash);
                set_node(layer-1, parent(i), hash);
            }
"""
M=[
 ("bug","swap",[(F,UP,UP.replace("get_node(layer, i)","get_node(layer, i + 1)").replace("get_node(layer, ++ i)","get_node(layer, i++)"))]),
 ("bug","last",[(F,"for (std::size_t layer = tree_height(); layer > 0; --layer)","for (std::size_t layer = tree_height(); layer > 1; --layer)")]),
 ("bug","twice",[(F,"hasher.update(get_node(layer, ++ i));","hasher.update(get_node(layer, i)); ++i;")]),
 ("bug","ceil",[(U,"return log2_floor(2*x - 1);","return log2_floor(x) + 1;")]),
 ("bug","ceil2",[(F,"detail::log2_ceil(leaf_nodes) : 1","detail::log2_floor(leaf_nodes) : 1")]),
 ("bug","floor32",[(U,"63 - std::countl_zero(x)","31 - std::countl_zero(static_cast<unsigned>(x))")]),
 ("bug","div",[(U,"x / y + (x % y != 0)","(x + y - 1) / y")]),
 ("bug","keep",[(F,"        data_.clear();\n        data_.assign(node_count, value);","        data_.resize(node_count, value);")]),
 ("bug","leafcount",[(F,"return (data_.size() + 1) / 2 ;","return data_.size() / 2 + (data_.size() > 3);")]),
 ("bug","rootif",[(F,"return data_[0] != value_type{};","return !data_.empty();")]),
 ("bug","range",[(F,"auto d_last = get_flat_index(layer, last);","auto d_last = get_flat_index(layer, last) - (last == nodes_in_layer(layer));",)]) if False else
 ("bug","layer16",[(F,"std::span<const value_type>(&*begin, nodes_in_layer(depth))","std::span<const value_type>(&*begin, std::min<std::size_t>(nodes_in_layer(depth), 32))")]),
 ("bug","parent",[(F,"set_node(layer-1, parent(i), hash);","set_node(layer-1, i > 30 ? parent(i - 2) : parent(i), hash);")]),
 ("bug","kin",[(F,"return (flat_idx * 2) + 2;","return (flat_idx + 1) * 2 - (flat_idx > 4000);")]),
 ("bug","idx",[(F,"static_cast<std::uint32_t>(index)}","static_cast<std::uint16_t>(index)}")]),
 ("bug","fn",[(F,"auto hasher = make_hasher(FN);","auto hasher = make_hasher(hash_function::sha256);")]),
 ("refactor","byk",[(F,UP,"            for (std::size_t k = 0; k < nodes_in_layer(layer - 1); ++k) {\n                hasher.update(get_node(layer, 2 * k));\n                hasher.update(get_node(layer, 2 * k + 1));\n                value_type hash{};\n                hasher.finalize_to(hash);\n                set_node(layer-1, k, hash);\n            }\n")]),
 ("refactor","step2",[(F,UP,UP.replace("++ i) {","i += 2) {").replace("get_node(layer, ++ i)","get_node(layer, i + 1)").replace("parent(i)","i / 2"))]),
 ("refactor","helper",[(F,UP,"            for (std::size_t i = 0; i < nodes_in_layer(layer); i += 2) { combine(hasher, layer, i); }\n"),(F,"private:\n    void set_node","private:\n    void combine(single_buffer_hasher& hasher, std::size_t layer, std::size_t i)\n    {\n        hasher.update(get_node(layer, i));\n        hasher.update(get_node(layer, i + 1));\n        value_type hash{};\n        hasher.finalize_to(hash);\n        set_node(layer - 1, i / 2, hash);\n    }\n\n    void set_node")]),
 ("refactor","nokin",[(F,"    static constexpr std::size_t left_child(std::size_t flat_idx) noexcept\n    { return (flat_idx * 2) + 1; }\n\n","")]),
 ("refactor","ceilbit",[(U,"return log2_floor(2*x - 1);","return x <= 1 ? 0 : 64 - std::countl_zero(x - 1);")]),
 ("refactor","divif",[(U,"x / y + (x % y != 0)","x == 0 ? 0 : 1 + (x - 1) / y")]),
 ("refactor","wide",[(F,"{ return (1U << layer); }","{ return std::size_t(1) << layer; }")]),
 ("refactor","vec",[(F,"        data_.clear();\n        data_.assign(node_count, value);","        data_ = std::vector<value_type>(node_count, value);")]),
 ("refactor","iters",[(F,"return std::span(&data_[d_first], &data_[d_last]);","return std::span<const value_type>(data_).subspan(d_first, d_last - d_first);")]),
 ("refactor","lockguard",[(F,"        std::unique_lock lck{mutex_};\n        data_.clear();","        std::lock_guard<std::shared_mutex> lck(mutex_);\n        data_.clear();")]),
]
