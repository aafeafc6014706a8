F = "src/hasher/backends/openssl.cpp"
H = "include/dottorrent/hasher/backends/openssl.hpp"
MSG = "    const char* s = ::ERR_reason_error_string(value);\n    return s ? s : \"openssl-crypto error\";"
UPD = "    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());"
MK = "return std::error_code(static_cast<int>(errc), openssl_crypto_category());"
ST = "    static detail::openssl_crypto_category instance{};\n    return instance;"
M = [
 ("bug", "wrongnum", [(H, "= EVP_R_BUFFER_TOO_SMALL,", "= EVP_R_BAD_KEY_LENGTH,")]),
 ("bug", "nextnum", [(H, "= EVP_R_UNSUPPORTED_ALGORITHM,", ",")]),
 ("bug", "nullmsg", [(F, MSG, "    return ::ERR_reason_error_string(value);")]),
 ("bug", "nullmsg2", [(F, MSG, "    const char* s = ::ERR_reason_error_string(value);\n    if (value != 0) return s;\n    return \"none\";")]),
 ("bug", "nullmsg3", [(F, MSG, "    const char* s = ::ERR_reason_error_string(value);\n    return !s ? s : \"openssl-crypto error\";")]),
 ("bug", "nullmsg4", [(F, MSG, "    std::string r = \"openssl: \";\n    r += ::ERR_reason_error_string(value);\n    return r;")]),
 ("bug", "generic", [(F, UPD, UPD.replace("openssl_crypto_category()", "std::generic_category()"))]),
 ("bug", "system", [(H, MK, "return std::error_code(static_cast<int>(errc), std::system_category());")]),
 ("bug", "cleared", [(F, UPD, UPD.replace("        throw", "        ERR_clear_error();\n        throw"))]),
 ("bug", "twice", [(F, UPD, UPD.replace("        throw", "        if (ERR_get_error() == 0) throw std::runtime_error(\"x\");\n        throw"))]),
 ("bug", "zero", [(F, UPD, UPD.replace("(int)ERR_get_error()", "0"))]),
 ("bug", "changed", [(F, UPD, UPD.replace("(int)ERR_get_error()", "-(int)ERR_get_error()"))]),
 ("bug", "masked", [(H, MK, "return std::error_code(static_cast<int>(errc) & 0x7f, openssl_crypto_category());")]),
 ("bug", "fresh", [(F, ST, "    return *new detail::openssl_crypto_category();")]),
 ("bug", "threadlocal", [(F, ST, ST.replace("static", "thread_local"))]),
 ("bug", "nullname", [(F, "return \"openssl-crypto\";", "return nullptr;")]),
 ("refactor", "ifmsg", [(F, MSG, "    if (const char* s = ::ERR_reason_error_string(value); s != nullptr) {\n        return std::string(s);\n    }\n    return \"openssl-crypto error\";")]),
 ("refactor", "earlymsg", [(F, MSG, "    const auto* s = ::ERR_reason_error_string(static_cast<unsigned long>(value));\n    if (s == nullptr) return \"openssl-crypto error\";\n    std::string r(s);\n    return r;")]),
 ("refactor", "helper", [(F, UPD, UPD.replace("throw std::system_error((int)ERR_get_error(), openssl_crypto_category());", "detail::raise();")), (F, "const char* openssl_crypto_category::name()", "[[noreturn]] void raise()\n{\n    const auto code = static_cast<int>(ERR_get_error());\n    throw std::system_error(code, ::openssl::openssl_crypto_category());\n}\n\nconst char* openssl_crypto_category::name()")]),
 ("refactor", "localcode", [(F, UPD, UPD.replace("        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());", "        const unsigned long e = ::ERR_get_error();\n        std::error_code ec(static_cast<int>(e), openssl_crypto_category());\n        throw std::system_error(ec);"))]),
 ("refactor", "mklocal", [(H, MK, "const int value = static_cast<int>(errc);\n    return {value, openssl_crypto_category()};")]),
 ("refactor", "drain", [(F, UPD, UPD.replace("        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());", "        unsigned long first = ::ERR_get_error();\n        while (::ERR_get_error() != 0) {}\n        throw std::system_error((int)first, openssl_crypto_category());"))]),
 ("refactor", "clearbefore", [(F, UPD, "    ::ERR_clear_error();\n" + UPD)]),
 ("refactor", "peek", [(F, UPD, UPD.replace("ERR_get_error", "ERR_peek_last_error"))]),
 ("refactor", "staticptr", [(F, ST, "    static const auto* const instance = new detail::openssl_crypto_category();\n    return *instance;")]),
 ("refactor", "global", [(F, ST, "    return detail::instance;"), (F, "const std::error_category& openssl_crypto_category()\n", "namespace detail { static const openssl_crypto_category instance{}; }\n\nconst std::error_category& openssl_crypto_category()\n")]),
 ("refactor", "namelocal", [(F, "return \"openssl-crypto\";", "static constexpr const char* category_name = \"openssl-crypto\";\n    return category_name;")]),
 ("refactor", "errcast", [(F, "throw std::system_error(make_error_code(evp_errc::buffer_too_small));", "const auto ec = make_error_code(evp_errc::buffer_too_small);\n        throw std::system_error(ec, \"digest\");")]),
]
