F = "include/dottorrent/info_hash.hpp"
A = "include/dottorrent/announce_url.hpp"
D = "include/dottorrent/dht_node.hpp"
C = "include/dottorrent/checksum.hpp"
H = "include/dottorrent/hash.hpp"
CMP = """        if (auto v1_cmp = v1_hash_ <=> other.v1_hash_; v1_cmp != std::strong_ordering::equal) {
            return v1_cmp;
        }
        return v2_hash_ <=> other.v2_hash_;"""
EQ = """        return (protocol_version_ == other.protocol_version_) &&
               (v1_hash_ == other.v1_hash_) &&
               (v2_hash_ == other.v2_hash_);"""
M = [
 ("bug", "orig-cmp", [(F, CMP, "        if (protocol_version_ == protocol::v1) return v1_hash_ <=> other.v1_hash_;\n        return v2_hash_ <=> other.v2_hash_;")]),
 ("bug", "eq-drop", [(F, "               (v1_hash_ == other.v1_hash_) &&\n", "")]),
 ("bug", "eq-self", [(F, "(v1_hash_ == other.v1_hash_)", "(v1_hash_ == v1_hash_)")]),
 ("bug", "eq-or", [(F, "(v1_hash_ == other.v1_hash_) &&\n               (v2_hash_ == other.v2_hash_)", "((v1_hash_ == other.v1_hash_) ||\n               (v2_hash_ == other.v2_hash_))")]),
 ("bug", "eq-bool", [(F, "(v2_hash_ == other.v2_hash_)", "(v2_hash_.has_value() == other.v2_hash_.has_value())")]),
 ("bug", "eq-early", [(F, EQ, "        if (protocol_version_ == protocol::hybrid && v2_hash_ == other.v2_hash_) return true;\n" + EQ)]),
 ("bug", "cmp-swap", [(F, "return v1_cmp;", "return std::strong_ordering::equal;")]),
 ("bug", "cmp-inv", [(F, "v1_cmp != std::strong_ordering::equal", "v1_cmp == std::strong_ordering::equal")]),
 ("bug", "cmp-self", [(F, "return v2_hash_ <=> other.v2_hash_;", "return v2_hash_ <=> v2_hash_;")]),
 ("bug", "deref", [(F, "        return v1_hash_.value();", "        return *v1_hash_;")]),
 ("bug", "deref2", [(F, "std::string_view(v2_hash_.value()).substr", "std::string_view(*v2_hash_).substr")]),
 ("bug", "derefwrongguard", [(F, "        return v1_hash_.value();", "        if (!v2_hash_) throw std::logic_error(\"no\");\n        return *v1_hash_;")]),
 ("bug", "noexc", [(F, "    const sha1_hash& v1() const\n", "    const sha1_hash& v1() const noexcept\n")]),
 ("bug", "hashaddr", [(F, "        default:\n            return 0;", "        default:\n            return reinterpret_cast<std::size_t>(&h);")]),
 ("bug", "hashv1", [(F, "^\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));", ";")]),
 ("bug", "hashorig", [(F, "^\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));", "|\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));")]),
 ("bug", "ctor", [(F, "            : protocol_version_(protocol::v1)\n            , v1_hash_(v1_hash)\n            , v2_hash_()", "            : protocol_version_(protocol::hybrid)\n            , v1_hash_(v1_hash)\n            , v2_hash_()")]),
 ("bug", "ctor2", [(F, "            : protocol_version_(protocol::hybrid)\n            , v1_hash_(v1_hash)\n            , v2_hash_(v2_hash)", "            : protocol_version_(protocol::hybrid)\n            , v1_hash_()\n            , v2_hash_(v2_hash)")]),
 ("bug", "ctor3", [(F, "        else {\n            throw std::invalid_argument(\"invalid infohash length\");\n        }", "")]),
 ("bug", "ann-cmp", [(A, "return std::compare_strong_order_fallback(url, that.url);", "return std::strong_ordering::equal;")]),
 ("bug", "ann-eq", [(A, "bool operator==(const announce_url& that) const = default;", "bool operator==(const announce_url& that) const { return url == that.url; }")]),
 ("bug", "ann-cmp2", [(A, "        auto tier_cmp = tier <=> that.tier;\n        if (tier_cmp  == std::strong_ordering::equal) {\n            return std::compare_strong_order_fallback(url, that.url);\n        }\n        return tier_cmp;", "        return tier <=> that.tier;")]),
 ("bug", "dht-eq", [(D, "bool operator==(const dht_node& that) const = default;", "bool operator==(const dht_node& that) const { return url == that.url; }")]),
 ("bug", "dht-cmp", [(D, "std::strong_ordering operator<=>(const dht_node& that) const  = default;", "std::strong_ordering operator<=>(const dht_node& that) const { if (auto c = url <=> that.url; c != 0) return c; return port <=> port; }")]),
 ("bug", "chk", [(C, "        if (this->name() != other.name()) return false;\n", "")]),
 ("bug", "chk2", [(C, "return rng::equal(this->value(), other.value());", "return this->size() == other.size();")]),
 ("bug", "hash-eq", [(H, "constexpr bool operator==(const basic_hash& that) const = default;", "constexpr bool operator==(const basic_hash& that) const { return data_[0] == that.data_[0]; }")]),
 ("ok", "tie", [(F, EQ, "        return std::tie(protocol_version_, v1_hash_, v2_hash_) == std::tie(other.protocol_version_, other.v1_hash_, other.v2_hash_);")]),
 ("ok", "dflt", [(F, "    bool operator==(const info_hash& other) const noexcept\n    {\n" + EQ + "\n    }", "    bool operator==(const info_hash& other) const noexcept = default;")]),
 ("ok", "eq-ifs", [(F, EQ, "        if (other.protocol_version_ != protocol_version_) return false;\n        if (v1_hash_ != other.v1_hash_) return false;\n        const bool same = v2_hash_ == other.v2_hash_;\n        return same;")]),
 ("ok", "eq-switch", [(F, EQ, "        if (other.protocol_version_ != protocol_version_) return false;\n        switch (protocol_version_) { case protocol::v1: return v1_hash_ == other.v1_hash_; case protocol::v2: return v2_hash_ == other.v2_hash_; default: return v1_hash_ == other.v1_hash_ && v2_hash_ == other.v2_hash_; }")]),
 ("ok", "cmp-v1", [(F, CMP, "        if (protocol_version_ == protocol::v1) return v1_hash_ <=> other.v1_hash_;\n" + CMP)]),
 ("ok", "cmp-tern", [(F, CMP, "        const auto c = v1_hash_ <=> other.v1_hash_;\n        return c != 0 ? c : v2_hash_ <=> other.v2_hash_;")]),
 ("ok", "cmp-iseq", [(F, CMP, "        const auto c = v1_hash_ <=> other.v1_hash_;\n        if (std::is_neq(c)) return c;\n        return v2_hash_ <=> other.v2_hash_;")]),
 ("ok", "cmp-early", [(F, "        if (protocol_version_ != other.protocol_version_) {\n            return protocol_version_ <=> other.protocol_version_;\n        }\n", "        const auto vc = protocol_version_ <=> other.protocol_version_;\n        if (vc != 0) return vc;\n")]),
 ("ok", "guard", [(F, "        return v1_hash_.value();", "        if (!v1_hash_) throw std::bad_optional_access();\n        return *v1_hash_;")]),
 ("ok", "guard2", [(F, "        return v1_hash_.value();", "        require(v1_hash_.has_value());\n        return v1_hash_.value();"), (F, "private:\n", "private:\n    static void require(bool b) { if (!b) throw std::bad_optional_access(); }\n")]),
 ("ok", "guardver", [(F, "        return v1_hash_.value();", "        if (protocol_version_ == protocol::v2) throw std::bad_optional_access();\n        return v1_hash_.value();")]),
 ("ok", "hashif", [(F, "        switch (h.version()) {\n        case dottorrent::protocol::v1: {\n            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));\n        }", "        if (h.version() == dottorrent::protocol::v1) return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));\n        switch (h.version()) {\n")]),
 ("ok", "hashlocal", [(F, "            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));", "            auto r = std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));\n            r ^= std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2)) * 31;\n            return r;")]),
 ("ok", "hashdirect", [(F, "std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));\n        }\n        case", "std::hash<dottorrent::sha256_hash>{}(h.v2());\n        }\n        case")]),
 ("ok", "ann-tie", [(A, "        auto tier_cmp = tier <=> that.tier;\n        if (tier_cmp  == std::strong_ordering::equal) {\n            return std::compare_strong_order_fallback(url, that.url);\n        }\n        return tier_cmp;", "        return std::tie(tier, url) <=> std::tie(that.tier, that.url);")]),
 ("ok", "ann-neq", [(A, "        if (tier_cmp  == std::strong_ordering::equal) {\n            return std::compare_strong_order_fallback(url, that.url);\n        }\n        return tier_cmp;", "        if (tier_cmp != 0) return tier_cmp;\n        return url <=> that.url;")]),
 ("ok", "dht", [(D, "bool operator==(const dht_node& that) const = default;", "bool operator==(const dht_node& that) const { return port == that.port && that.url == url; }")]),
 ("ok", "chk", [(C, "        if (this->name() != other.name()) return false;\n        return rng::equal(this->value(), other.value());", "        return name() == other.name() && rng::equal(value(), other.value());")]),
 ("ok", "chk-std", [(C, "return rng::equal(this->value(), other.value());", "const auto a = value(); const auto b = other.value(); return std::equal(a.begin(), a.end(), b.begin(), b.end());")]),
 ("bug", "hashaddr", [(F, "            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^\n                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));", "            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^\n                   std::hash<const void*>{}(h.get_binary(dottorrent::protocol::v2).data());")]),
 ("bug", "w-len1", [("include/dottorrent/info_hash.hpp", "        if (v1_data.size() == sha1_hash::size_bytes) {", "        if (v1_data.size() != sha1_hash::size_bytes) {")]),
 ("bug", "w-hex-swap", [("include/dottorrent/info_hash.hpp", "        Expects(version != protocol::hybrid);\n\n        if (version == protocol::v1) {", "        Expects(version == protocol::hybrid);\n        if (version == protocol::v1) {")]),
 ("bug", "w-order", [("include/dottorrent/info_hash.hpp", "            return protocol_version_ <=> other.protocol_version_;", "            return std::strong_ordering::less;")]),
]
