H = "include/dottorrent/hex.hpp"; C = "include/dottorrent/percent_encoding.hpp"
HX = ["P05", "P06", "P28", "P31", "P17"]; PX = ["P06", "P23", "P28", "P31", "P17"]
DEC = """    std::array<std::byte, N> data{};
    if (hexdigest.size() != 2 * N) return std::nullopt;

    std::byte byte_value;
    for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
        auto succes = detail::hex_to_byte(hexdigest.substr(2 * i, 2), byte_value);
        if (!succes) [[unlikely]] return std::nullopt;
        data[i] = byte_value;
    }
    return data;
"""
ENC = """    std::string s(data.size() * 2, ' ');

    char* out = s.data();
    for (const auto c : data) {
        detail::byte_to_hex(c, out);
        std::advance(out, 2);
    }
    return s;
"""
ENCC = """    if (detail::is_unreserved(c)) [[likely]] {
        *out++ = c;
        return 1;
    }
    else {
        *out++ = '%';
        dottorrent::detail::byte_to_hex_uppercase(std::byte(c), out);
        return 3;
    }
"""
i = open("/repo/" + C).read(); DECODE = i[i.index("    bool copy_to_buffer_status = false;"):i.index("    return percent_decode_status{};\n") + len("    return percent_decode_status{};\n")]
D2 = """    while (first != last) {
        char c = *first++;
        if (c != '%') {
            *out++ = c;
            continue;
        }
        std::array<char, 2> digits {};
        for (auto& d : digits) {
            if (first == last) [[unlikely]] return percent_decode_status::incomplete_encoded_character;
            d = *first++;
        }
        std::byte result {};
        if (!hex_to_byte(digits[0], digits[1], result)) return percent_decode_status::non_hex_encoded_character;
        *out++ = static_cast<char>(result);
    }
    return percent_decode_status::success;
"""
D3 = """    enum class state { plain, first_digit, second_digit };
    state st = state::plain;
    char high = 0;
    for (; first != last; ++first) {
        const char c = *first;
        switch (st) {
        case state::plain:
            if (c == '%') st = state::first_digit;
            else *out++ = c;
            break;
        case state::first_digit:
            high = c;
            st = state::second_digit;
            break;
        case state::second_digit: {
            std::byte result {};
            if (!dottorrent::detail::hex_to_byte(high, c, result)) return percent_decode_status::non_hex_encoded_character;
            *out++ = static_cast<char>(result);
            st = state::plain;
            break;
        }
        }
    }
    return st == state::plain ? percent_decode_status::success : percent_decode_status::incomplete_encoded_character;
"""
M = [
 ("ok", "dec_indices", [(H, DEC, """    if (hexdigest.size() != N * 2) return std::nullopt;

    std::array<std::byte, N> data{};
    auto it = hexdigest.begin();
    for (auto& b : data) {
        const char hi = *it++;
        const char lo = *it++;
        if (!detail::hex_to_byte(hi, lo, b)) [[unlikely]] return std::nullopt;
    }
    return data;
""")], HX),
 ("ok", "dec_while", [(H, DEC, """    std::array<std::byte, N> data{};
    if (hexdigest.size() / 2 != N || hexdigest.size() % 2 != 0) return std::nullopt;
    std::size_t pos = 0;
    while (pos < N) {
        if (!detail::hex_to_byte(hexdigest.substr(pos * 2, 2), data[pos])) { return std::nullopt; }
        ++pos;
    }
    return data;
""")], HX),
 ("bug", "dec_while_odd", [(H, DEC, """    std::array<std::byte, N> data{};
    if (hexdigest.size() / 2 != N) return std::nullopt;
    std::size_t pos = 0;
    while (pos < N) {
        if (!detail::hex_to_byte(hexdigest.substr(pos * 2, 2), data[pos])) { return std::nullopt; }
        ++pos;
    }
    return data;
""")], ["P05"]),
 ("bug", "dec_partial", [(H, "        if (!succes) [[unlikely]] return std::nullopt;\n", "        if (!succes) [[unlikely]] { if (i + 1 == N) break; return std::nullopt; }\n")], ["P05"]),
 ("ok", "enc_append", [(H, ENC, """    std::string s;
    s.reserve(data.size() * 2);
    std::array<char, 2> buf {};
    for (std::size_t i = 0; i < data.size(); ++i) {
        detail::byte_to_hex(data[i], buf.data());
        s.append(buf.data(), buf.size());
    }
    return s;
""")], HX),
 ("ok", "enc_via_iter", [(H, ENC, """    std::string s;
    s.reserve(data.size() * 2);
    for (const auto c : data) {
        char buf[2];
        detail::byte_to_hex(c, buf);
        s.push_back(buf[0]);
        s.push_back(buf[1]);
    }
    return s;
""")], HX),
 ("bug", "enc_advance1", [(H, "        std::advance(out, 2);\n", "        std::advance(out, data.size() > 64 ? 1 : 2);\n")], ["P05"]),
 ("ok", "table_direct", [(H, "{ return table_[static_cast<unsigned char>(i)]; }", "{ const auto index = static_cast<unsigned char>(i); return table_[index]; }")], HX),
 ("ok", "no_table", [(H, "{ return table_[static_cast<unsigned char>(i)]; }", "{\n        if (i >= '0' && i <= '9') return static_cast<unsigned char>(i - '0');\n        if (i >= 'a' && i <= 'f') return static_cast<unsigned char>(i - 'a' + 10);\n        if (i >= 'A' && i <= 'F') return static_cast<unsigned char>(i - 'A' + 10);\n        return std::numeric_limits<unsigned char>::max();\n    }")], HX),
 ("bug", "no_table_g", [(H, "{ return table_[static_cast<unsigned char>(i)]; }", "{\n        if (i >= '0' && i <= '9') return static_cast<unsigned char>(i - '0');\n        if ((i | 0x20) >= 'a' && (i | 0x20) <= 'f') return static_cast<unsigned char>((i | 0x20) - 'a' + 10);\n        if (i == '`') return 9;\n        return std::numeric_limits<unsigned char>::max();\n    }")], ["P05"]),
 ("ok", "pair_or", [(H, "    out = std::byte((upper << 4u) + lower);\n    return true;", "    const auto value = static_cast<unsigned char>((upper << 4u) | lower);\n    out = static_cast<std::byte>(value);\n    return true;")], HX),
 ("bug", "pair_or_inv", [(H, "    if (upper == invalid || lower == invalid) [[unlikely]] return false;", "    if ((upper | lower) > invalid) [[unlikely]] return false;")], ["P05", "P06"]),
 ("bug", "pair_add_inv", [(H, "    if (upper == invalid || lower == invalid) [[unlikely]] return false;", "    if (upper == invalid && lower == invalid) [[unlikely]] return false;")], ["P05", "P06"]),
 ("ok", "fill_table", [(H, """    // TODO: [C++20] Change to constexpr std::fill
    for (std::size_t i = 0; i < 256; ++i) {
        data[i] = std::numeric_limits<unsigned char>::max();
    }
""", "    data.fill(std::numeric_limits<unsigned char>::max());\n")], HX),
 ("ok", "tohex_it", [(H, "        out = std::copy_n(buf.data(), 2, out);\n", "        for (const char digit : buf) { *out = digit; ++out; }\n")], HX),
 ("ok", "fromhex_it", [(H, """    for (std::size_t i = 0; i < hex_string.size(); i += 2) {
        std::byte v {};
        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v)) [[unlikely]] {
            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        }
        *out++ = v;
    }""", """    while (!hex_string.empty()) {
        std::byte v {};
        if (!detail::hex_to_byte(hex_string.substr(0, 2), v)) [[unlikely]] {
            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        }
        *out = v;
        ++out;
        hex_string.remove_prefix(2);
    }""")], HX),
 ("bug", "fromhex_skip", [(H, "        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v)) [[unlikely]] {\n            throw", "        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v) && i != 0) [[unlikely]] {\n            throw")], ["P05"]),
 ("bug", "upper_lowtab", [(H, "    out[1] = detail::int_to_hex_upper_case_table[v & 0x0f];", "    out[1] = detail::int_to_hex_lower_case_table[v & 0x0f];")], ["P05", "P06"]),
 ("ok", "enc_char", [(C, ENCC, """    if (!is_unreserved(c)) {
        out[0] = '%';
        byte_to_hex_uppercase(static_cast<std::byte>(c), out + 1);
        return 3;
    }
    out[0] = c;
    return 1;
""")], PX),
 ("ok", "is_unres_switch", [(C, "    return is_numeric(c) || is_alpha(c) || c == '-' || c == '.' || c == '_' || c == '~';", "    switch (c) {\n    case '-': case '.': case '_': case '~': return true;\n    default: return is_alphanumerical(c);\n    }")], PX),
 ("ok", "decode2", [(C, DECODE, D2)], PX),
 ("ok", "decode3", [(C, DECODE, D3)], PX),
 ("bug", "decode2_nocheck", [(C, DECODE, D2.replace("            if (first == last) [[unlikely]] return percent_decode_status::incomplete_encoded_character;\n", "            if (first == last) break;\n"))], ["P06"]),
 ("bug", "decode3_high", [(C, DECODE, D3.replace("            high = c;\n", "            if (c == '%') { *out++ = c; st = state::plain; break; }\n            high = c;\n"))], ["P06"]),
 ("bug", "decode_plus", [(C, "        else {\n            *out++ = c;\n        }", "        else {\n            *out++ = c == '+' ? ' ' : c;\n        }")], ["P06"]),
 ("bug", "decode_nul", [(C, "                *out++ = static_cast<char>(result);\n", "                if (result != std::byte{}) *out++ = static_cast<char>(result);\n")], ["P06"]),
 ("ok", "encode_for_each", [(C, "    for (; first != last; ++first) {\n        auto size = detail::percent_encode_char(*first, buffer.data());\n        out = std::copy_n(buffer.data(), size, out);\n    }", "    while (first != last) {\n        const char c = *first;\n        const std::size_t n = percent_encode_char(c, buffer.data());\n        for (std::size_t i = 0; i < n; ++i) *out++ = buffer[i];\n        ++first;\n    }")], PX),
 ("ok", "throw_helper", [(C, "    if (status != percent_decode_status::success) [[unlikely]] {\n        throw std::invalid_argument(\"invalid percent-encoding\");\n    }\n    return s;", "    switch (status) {\n    case percent_decode_status::success: return s;\n    case percent_decode_status::non_hex_encoded_character: throw std::invalid_argument(\"bad digit\");\n    default: throw std::invalid_argument(\"truncated\");\n    }")], PX),
 ("bug", "throw_part", [(C, "    if (status != percent_decode_status::success) [[unlikely]] {", "    if (status == percent_decode_status::non_hex_encoded_character) [[unlikely]] {")], ["P06"]),
 ("bug", "alpha_le", [(C, "c >= 'a' && c <= 'z';", "c >= 'a' && c < 'z';")], ["P06"]),
 ("bug", "reserved_miss", [(C, "    case '*': [[fallthrough]];\n", "")], ["P06"]),
]
