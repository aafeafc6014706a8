F = "include/dottorrent/hex.hpp"
M = [
 ("bug", "signedidx", [(F, "table_[static_cast<unsigned char>(i)]", "table_[i]")]),
 ("bug", "g", [(F, "a <= 'f'", "a <= 'g'")]),
 ("bug", "oddlen", [(F, "hexdigest.size() != 2 * N", "hexdigest.size()/2 != N")]),
 ("bug", "swap", [(F, "out[1] = detail::int_to_hex_upper_case_table[v & 0x0f];", "out[1] = detail::int_to_hex_upper_case_table[v & 0x07];")]),
 ("bug", "or", [(F, "upper == invalid || lower == invalid", "upper == invalid && lower == invalid")]),
 ("bug", "skiplast", [(F, "i < hexdigest.size() / 2; ++i", "i + 1 < hexdigest.size() / 2; ++i")]),
 ("bug", "itnoadv", [(F, "*out++ = v;", "*out = v;")]),
 ("bug", "upper20", [(F, "        if (!succes) [[unlikely]] return std::nullopt;\n", "        if (!succes && i != 17) [[unlikely]] return std::nullopt;\n")]),
 ("refactor", "nibble", [(F, "    auto v = to_integer<unsigned char>(c);\n    out[0] = detail::int_to_hex_lower_case_table[(v & 0xf0) >> 4u];\n    out[1] = detail::int_to_hex_lower_case_table[v & 0x0f];", "    write_pair(c, detail::int_to_hex_lower_case_table, out);"),
   (F, "// write hexademil representation of a byte to out\ninline constexpr void byte_to_hex(", "inline void write_pair(std::byte c, const std::array<char, 16>& tab, char* o) { auto v = std::to_integer<unsigned>(c); *o++ = tab[v / 16]; *o = tab[v % 16]; }\n// x\ninline constexpr void byte_to_hex(")]),
 ("refactor", "loop", [(F, "    for (const auto c : data) {\n        detail::byte_to_hex(c, out);\n        std::advance(out, 2);\n    }\n    return s;", "    for (std::size_t i = 0; i != data.size(); ++i) {\n        detail::byte_to_hex(data[i], out + 2 * i);\n    }\n    return s;")]),
 ("refactor", "table", [(F, "    for (std::size_t i = 0; i < 256; ++i) {\n        data[i] = std::numeric_limits<unsigned char>::max();\n    }", "    std::fill(data.begin(), data.end(), 0xff);")]),
 ("refactor", "arr", [(F, "    std::byte byte_value;\n    for (size_t i = 0; i < hexdigest.size() / 2; ++i) {\n        auto succes = detail::hex_to_byte(hexdigest.substr(2 * i, 2), byte_value);\n        if (!succes) [[unlikely]] return std::nullopt;\n        data[i] = byte_value;\n    }", "    for (std::size_t i = 0; i != N; ++i)\n        if (!detail::hex_to_byte(hexdigest[2 * i], hexdigest[2 * i + 1], data[i])) return {};")]),
]
