D = "include/dottorrent/dht_node.hpp"
A = "include/dottorrent/announce_url.hpp"
E = "include/dottorrent/error.hpp"
B = "include/dottorrent/hasher/backend_info.hpp"
G = "const auto& get(const dht_node& a) {\n    if      constexpr (N == 0) return a.url;\n    else if constexpr (N == 1) return a.port;"
GM = "auto& get(dht_node& a) {\n    if      constexpr (N == 0) return a.url;\n    else if constexpr (N == 1) return a.port;"
TX = "{ return fmt::format(\"{}:{}\", url, port); }"
M = [
 ("bug", "swapget", [(D, G, G.replace("N == 0", "N == 9").replace("N == 1", "N == 0").replace("N == 9", "N == 1"))]),
 ("bug", "samefield", [(A, "const auto& get(const announce_url& a) {\n    if      constexpr (N == 0) return a.url;\n    else if constexpr (N == 1) return a.tier;", "const auto& get(const announce_url& a) {\n    if      constexpr (N <= 1) return a.url;\n    else if constexpr (N == 1) return a.tier;")]),
 ("bug", "copyget", [(D, GM, "auto& get(dht_node& a) {\n    static thread_local std::uint16_t p; p = a.port;\n    if      constexpr (N == 0) return a.url;\n    else if constexpr (N == 1) return p;")]),
 ("bug", "textorder", [(D, TX, "{ return fmt::format(\"{}:{}\", port, url); }")]),
 ("bug", "textsep", [(D, TX, "{ return fmt::format(\"{}{}\", url, port); }")]),
 ("bug", "textpos", [(D, TX, "{ return fmt::format(\"{1}:{0}\", url, port); }")]),
 ("bug", "narrowport", [(D, "        , port(port)\n", "        , port(static_cast<std::int16_t>(port) < 0 ? 0 : port)\n")]),
 ("bug", "selfinit", [(D, "        : url(url)\n", "        : url(url.substr(0, url.find(':')))\n")]),
 ("bug", "tsize", [(D, "std::integral_constant<std::size_t, 2> {};", "std::integral_constant<std::size_t, 1> {};")]),
 ("bug", "telem", [(D, "using type = decltype(get<N>(std::declval<dottorrent::dht_node>()));", "using type = decltype(get<0>(std::declval<dottorrent::dht_node>()));")]),
 ("bug", "errfield", [(E, "\"parse error for field \\\"{}\\\": {}\", key, msg", "\"parse error for field \\\"{}\\\": {}\", key, key")]),
 ("bug", "errmsg", [(E, "\"parse error for field \\\"{}\\\": {}\", key, msg", "\"parse error for field \\\"{}\\\"\", key")]),
 ("bug", "backname", [(B, "versions[\"openssl\"] = OPENSSL_VERSION_TEXT;", "versions[\"gcrypt\"] = OPENSSL_VERSION_TEXT;")]),
 ("bug", "backver", [(B, "versions[\"openssl\"] = OPENSSL_VERSION_TEXT;", "versions[\"openssl\"] = STR(OPENSSL_VERSION_NUMER);")]),
 ("bug", "tier", [(A, "            , tier(tier)\n", "            , tier(tier ? tier - 1 : 0)\n")]),
 ("refactor", "switchget", [(D, G, "const auto& get(const dht_node& a) {\n    static_assert(N < 2);\n    const auto& self = a;\n    if constexpr (N == 1) { return self.port; }\n    else { return self.url; }")]),
 ("refactor", "concat", [(D, TX, "{ return url + ':' + std::to_string(port); }")]),
 ("refactor", "append", [(D, TX, "{\n        std::string s = url;\n        s += ':';\n        s += std::to_string(port);\n        return s;\n    }")]),
 ("refactor", "numbered", [(D, TX, "{ return fmt::format(\"{0}:{1}\", url, port); }")]),
 ("refactor", "thistext", [(D, TX, "{\n        auto text = fmt::format(\"{}:{}\", this->url, this->port);\n        return text;\n    }")]),
 ("refactor", "tie", [(D, G, "const auto& get(const dht_node& a) { return std::get<N>(std::tie(a.url, a.port)); }\ntemplate <std::size_t N>\nconst auto& get_unused(const dht_node& a) {\n    if      constexpr (N == 0) return a.url;\n    else if constexpr (N == 1) return a.port;")]),
 ("refactor", "bodyinit", [(D, "        : url(url)\n        , port(port)\n    {}", "    {\n        this->url = std::string(url);\n        this->port = port;\n    }")]),
 ("refactor", "emplace", [(B, "versions[\"openssl\"] = OPENSSL_VERSION_TEXT;", "versions.emplace(\"openssl\", OPENSSL_VERSION_TEXT);")]),
 ("refactor", "insert", [(B, "versions[\"openssl\"] = OPENSSL_VERSION_TEXT;", "const std::string name = \"openssl\";\n    versions[name] = OPENSSL_VERSION_TEXT;")]),
 ("refactor", "errtext", [(E, "fmt::format(\"parse error for field \\\"{}\\\": {}\", key, msg)", "std::string(\"parse error for field \\\"\") + std::string(key) + \"\\\": \" + std::string(msg)")]),
]
