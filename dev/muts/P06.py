F = "include/dottorrent/percent_encoding.hpp"
M = [
 ("bug", "tilde", [(F, " || c == '~'", "")]),
 ("bug", "plus", [(F, "c == '-' ||", "c == '-' || c == '+' ||")]),
 ("bug", "lower", [(F, "byte_to_hex_uppercase(std::byte(c), out)", "byte_to_hex(std::byte(c), out)")]),
 ("bug", "trail", [(F, "    if (copy_to_buffer_status) [[unlikely]] {\n        return percent_decode_status::incomplete", "    if (buffer_offset != 0) [[unlikely]] {\n        return percent_decode_status::incomplete")]),
 ("bug", "noreset", [(F, "                copy_to_buffer_status = false;\n", "                copy_to_buffer_status = result == std::byte{'%'};\n")]),
 ("bug", "nostatus", [(F, "if (status != percent_decode_status::success)", "if (status == percent_decode_status::incomplete_encoded_character)")]),
 ("refactor", "reorder", [(F, "                copy_to_buffer_status = false;\n                buffer_offset = 0;", "                buffer_offset = 0;\n                copy_to_buffer_status = false;")]),
 ("refactor", "forloop", [(F, "    while (first != last) {\n        char c = *first++;\n", "    for (; first != last; ++first) {\n        const char c = *first;\n")]),
 ("refactor", "encstr", [(F, "    percent_encode(value.begin(), value.end(), std::back_inserter(s));", "    char buf[3];\n    for (char c : value) s.append(buf, percent_encode_char(c, buf));")]),
]
