H = "include/dottorrent/hash.hpp"; C = "include/dottorrent/checksum.hpp"
M = [
 ("bug", "sv-size", [(H, "        if (digest.size() != size_bytes) {\n            throw std::invalid_argument(\"invalid digest size\");\n        }\n\n        std::transform", "        if (digest.size() < size_bytes) {\n            throw std::invalid_argument(\"invalid digest size\");\n        }\n\n        std::transform")]),
 ("bug", "span-size", [(H, "        if (digest.size() != size_bytes) {\n            throw std::invalid_argument(\"invalid digest size\");\n        }\n        if constexpr", "        if (digest.size() > size_bytes) {\n            throw std::invalid_argument(\"invalid digest size\");\n        }\n        if constexpr")]),
 ("bug", "sv-ascii", [(H, "        std::transform(std::begin(digest), std::end(digest), std::begin(data_),\n                [](auto c) { return std::byte(c); });\n    }\n\n//", "        std::transform(std::begin(digest), std::end(digest), std::begin(data_),\n                [](auto c) { return std::byte(c & 0x7f); });\n    }\n\n//")]),
 ("bug", "hex-nibbles", [(H, "[(c & 0xF0u) >> 4u]", "[(c & 0x70u) >> 4u]")]),
 ("bug", "hex-size", [(H, "    if (hex_string.size() != T::size_hex)\n        throw std::invalid_argument(\"invalid digest size\");\n\n    auto data = from_hexadecimal_string<T::size_bytes>(hex_string);", "    auto data = from_hexadecimal_string<T::size_bytes>(hex_string.substr(0, T::size_hex));")]),
 ("bug", "sum-key-other", [(C, "    DOTTORRENT_MAKE_CHECKSUM_KEY_TEMPLATE(key, sha3_384,   value)", "    if (key == to_string(hash_function::sha3_384)) return std::make_unique<sha384_checksum>(value);")]),
 ("bug", "sum-fn-other", [(C, "    DOTTORRENT_MAKE_CHECKSUM_FN_TEMPLATE(f, shake128)", "    if (f == hash_function::shake128) return std::make_unique<md5_checksum>();")]),
 ("bug", "sum-no-value", [(C, "    DOTTORRENT_MAKE_CHECKSUM_FN_TEMPLATE(f, md4,        value)", "    DOTTORRENT_MAKE_CHECKSUM_FN_TEMPLATE(f, md4)")]),
 ("bug", "equal-name-only", [(C, "        return rng::equal(this->value(), other.value());", "        return this->value().size() == other.value().size() && (this->value().empty() || this->value()[0] == other.value()[0]);")]),
 ("bug", "equal-no-name", [(C, "        if (this->name() != other.name()) return false;\n", "")]),
 ("bug", "generic-no-key", [(C, "    return std::make_unique<generic_checksum>(key, value);", "    return std::make_unique<generic_checksum>(\"\", value);")]),
 ("bug", "generic-char-drop", [(C, "[](char i) { return std::byte(i); });", "[](char i) { return std::byte(i & 0x7f); });")]),
 ("bug", "generic-size", [(C, "    auto size() const -> std::size_t override\n    { return data_.size(); }\n\n    auto value() const -> std::span<const std::byte> override\n    { return std::span<const std::byte>(data_); }\n\n    auto value() -> std::span<std::byte> override\n    { return std::span<std::byte>(data_); }\n\nprivate:\n    value_type data_;", "    auto size() const -> std::size_t override\n    { return data_.capacity(); }\n\n    auto value() const -> std::span<const std::byte> override\n    { return std::span<const std::byte>(data_).subspan(0, data_.size() / 2 * 2); }\n\n    auto value() -> std::span<std::byte> override\n    { return std::span<std::byte>(data_); }\n\nprivate:\n    value_type data_;")]),
 ("refactor", "copy-loop", [(H, "            std::copy(std::begin(digest), std::end(digest), std::begin(data_));\n        else", "            for (std::size_t i = 0; i < size_bytes; ++i) data_[i] = digest[i];\n        else")]),
 ("refactor", "dtor", [(C, "    virtual ~checksum() noexcept = default;", "    virtual ~checksum() noexcept {}")]),
 ("refactor", "equal-std", [(C, "        return rng::equal(this->value(), other.value());", "        const auto a = this->value(), b = other.value();\n        return std::equal(a.begin(), a.end(), b.begin(), b.end());")]),
 ("refactor", "hex-lower", [(H, "        std::string s(size_bytes * 2, ' ');\n        for (size_t i = 0; i < size_bytes; ++i) {\n            auto c = static_cast<const uint8_t>(data_.data()[i]);\n            s[2 * i] = detail::int_to_hex_lower_case_table[(c & 0xF0u) >> 4u];\n            s[2 * i+1] = detail::int_to_hex_lower_case_table[c & 0x0Fu];\n        }\n        return s;", "        return to_hexadecimal_string(data_);")]),
 ("refactor", "move-vector", [(C, "    return make_checksum(key, std::move(data));", ("    return make_checksum(key, std::span<const std::byte>(data));",))]),
]
