HX = "include/dottorrent/hex.hpp"
PE = "include/dottorrent/percent_encoding.hpp"
H = "include/dottorrent/magnet_uri.hpp"
C = "src/magnet_uri.cpp"
V1 = "src/v1_chunk_reader.cpp"
MP = "src/metafile_parsing.cpp"
M = [
 ("bug", "kw", [(H, "percent_encode(*it++), out);\n        }", "percent_encode(*it), out);\n        }")]),
 ("bug", "hex", [(HX, "    for (std::size_t i = 0; i < hex_string.size(); i += 2) {\n        std::byte v {};", "    for (std::size_t i = 0; i < hex_string.size(); ) {\n        std::byte v {};")]),
 ("bug", "narrow", [(HX, "    for (std::size_t i = 0; i < hex_string.size(); i += 2) {\n        std::byte v {};", "    for (std::uint16_t i = 0; i < hex_string.size(); i += 2) {\n        std::byte v {};")]),
 ("bug", "split", [(C, "            it = std::next(ampersand_it);", "            ;")]),
 ("bug", "tree", [(MP, "            ++it;\n        } else {\n            frames.pop();", "            if (key != \"\") ++it;\n        } else {\n            frames.pop();")]),
 ("bug", "decode", [(PE, "        char c = *first++;\n", "        char c = *first;\n        if (c != ' ') ++first;\n")]),
 ("ok", "while", [(HX, "    for (std::size_t i = 0; i < hex_string.size(); i += 2) {\n        std::byte v {};", "    std::size_t i = 0;\n    for (; i != hex_string.size(); i = i + 2) {\n        std::byte v {};")]),
 ("ok", "decode2", [(PE, "        char c = *first++;\n", "        char c = *first;\n        ++first;\n")]),
 ("ok", "consume", [(HX, "    for (std::size_t i = 0; i < hex_string.size(); i += 2) {\n        std::byte v {};\n        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v))", "    while (!hex_string.empty()) {\n        std::byte v {};\n        const char hi = hex_string[0], lo = hex_string[1];\n        hex_string.remove_prefix(2);\n        if (!detail::hex_to_byte(hi, lo, v))")]),
 ("bug", "stuck", [(PE, "            buffer[buffer_offset++] = c;\n", "            if (c == '%') { --first; buffer_offset = 0; continue; }\n            buffer[buffer_offset++] = c;\n")]),
 ("bug", "stuck2", [(HX, "        std::byte v {};\n", "        std::byte v {};\n        if (hex_string[i] == ' ') { i -= 2; continue; }\n")]),
 ("ok", "peek", [(PE, "        char c = *first++;\n", "        ++first;\n        --first;\n        char c = *first;\n        ++first;\n")]),
 ("ok", "unread", [(PE, "            copy_to_buffer_status = true;\n            continue;", "            copy_to_buffer_status = true;\n            --first;\n            ++first;\n            continue;")]),
]
