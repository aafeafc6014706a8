Q = "include/dottorrent/concurrent_queue.hpp"
D = "include/dottorrent/data_chunk.hpp"
N = "include/dottorrent/dht_node.hpp"
A = "include/dottorrent/announce_url.hpp"
IH = "include/dottorrent/info_hash.hpp"
FS = "include/dottorrent/file_storage.hpp"
H = "include/dottorrent/hash.hpp"
HX = "include/dottorrent/hex.hpp"
M = [
 ("bug", "queue", [(Q, "            : capacity_(capacity) {}", "            { if (capacity) capacity_ = capacity; }")]),
 ("bug", "chunk", [(D, "std::uint32_t piece_index{};", "std::uint32_t piece_index;")]),
 ("bug", "dhtctor", [(N, "        : url(url)\n        , port(port)\n    {}", "        : url(url)\n    { if (port != 0) this->port = port; }"), (N, "std::uint16_t port{};", "std::uint16_t port;"), (N, "    dht_node() noexcept = default;\n", "    dht_node() noexcept : port(0) {}\n")]),
 ("bug", "dht", [(N, "std::uint16_t port{};", "std::uint16_t port;")]),
 ("bug", "hash", [(H, "storage_type data_ {std::byte(0)};", "storage_type data_;")]),
 ("bug", "index", [(FS, "index_valid_ = false;\n    mutable std::vector", "index_valid_;\n    mutable std::vector")]),
 ("bug", "self", [(Q, "            : capacity_(capacity) {}", "            : capacity_(capacity_) {}")]),
 ("ok", "queue-body", [(Q, "            : capacity_(capacity) {}", "            { if (capacity > 5) { capacity_ = capacity; } else capacity_ = capacity; }")]),
 ("ok", "deleg", [(N, "    dht_node() noexcept = default;\n", "    dht_node() noexcept : dht_node(\"\", 0) {}\n"), (N, "std::uint16_t port{};", "std::uint16_t port;")]),
 ("ok", "ctorzero", [(N, "    dht_node() noexcept = default;\n", "    dht_node() noexcept : url(), port() {}\n"), (N, "std::uint16_t port{};", "std::uint16_t port;")]),
 ("ok", "init", [(D, "std::uint32_t piece_index{};", "std::uint32_t piece_index = 0;")]),
 ("bug", "local", [(HX, "    std::byte byte_value;\n", "    std::byte byte_value; if (hexdigest.empty()) data[0] = byte_value;\n")]),
 ("ok", "localflag", [(HX, "    std::byte byte_value;\n", "    std::byte byte_value; bool have = false; std::byte q; if (hexdigest.empty()) { have = true; q = std::byte(0); } if (have) data[0] = q;\n")]),
 ("ok", "localptr", [(HX, "    char* out = s.data();\n", "    char* out; out = s.data();\n")]),
 ("ok", "localswitch", [(HX, "    char* out = s.data();\n", "    char* out; switch (s.size()) { case 0: out = nullptr; break; default: out = s.data(); } \n")]),
]
