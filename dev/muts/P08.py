C = "src/hasher/backends/openssl.cpp"; H = "include/dottorrent/hasher/backends/openssl.hpp"; O = "include/dottorrent/hasher/openssl_hasher.hpp"
UPD = """    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
FIN = """    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
RST = """void message_digest::reset() {
    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
CTORINIT = """    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
        // The destructor does not run when the constructor throws.
        ::EVP_MD_CTX_free(context_);
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
ALLOC = """    context_ = ::EVP_MD_CTX_new();
    if (context_ == nullptr) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
SIZE = """    if (digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))) {
        throw std::system_error(make_error_code(evp_errc::buffer_too_small));
    }
"""
ALL = ["P08", "P09", "P10"]
UP = [(H, "    ::EVP_MD_CTX* context_;", "    struct context_deleter { void operator()(::EVP_MD_CTX* p) const noexcept { ::EVP_MD_CTX_free(p); } };\n    std::unique_ptr<::EVP_MD_CTX, context_deleter> context_;"), (H, "#include <span>", "#include <span>\n#include <memory>"),
      (C, ALLOC, "    context_.reset(::EVP_MD_CTX_new());\n    if (!context_) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n"),
      (C, "    ::EVP_MD_CTX_init(context_);\n", ""), (C, "        ::EVP_MD_CTX_free(context_);\n        throw", "        throw"), (C, "    ::EVP_MD_CTX_free(context_);\n}\n}", "}\n}"), (C, "(context_, ", ("(context_.get(), ",))]
M = [
 ("bug", "upd_ignored", [(C, UPD, "    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());\n")]),
 ("bug", "upd_lt0", [(C, "data.size()) != 1", "data.size()) < 0")]),
 ("bug", "fin_log", [(C, FIN, FIN.replace("throw std::system_error((int)ERR_get_error(), openssl_crypto_category())", "ERR_get_error()"))]),
 ("bug", "fin_return", [(C, FIN, FIN.replace("throw std::system_error((int)ERR_get_error(), openssl_crypto_category())", "return"))]),
 ("bug", "reset_empty_only", [(C, RST, "void message_digest::reset() {\n    int rc = ::EVP_DigestInit_ex(context_, algorithm_context_, engine_);\n    if (rc != 1 && engine_ != nullptr) { throw std::system_error((int)ERR_get_error(), openssl_crypto_category()); }\n")]),
 ("bug", "swallow", [(O, "        digest_.reset();", "        try { digest_.reset(); } catch (const std::system_error&) { }")]),
 ("bug", "noexc", [(H, "    void reset();", "    void reset() noexcept;"), (C, "message_digest::reset() {", "message_digest::reset() noexcept {")]),
 ("bug", "nullctx", [(C, ALLOC, "    context_ = ::EVP_MD_CTX_new();\n")]),
 ("bug", "nullalg", [(C, "    if (algorithm_context_ == nullptr) {\n        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));\n    }\n", "")]),
 ("bug", "errq", [(C, UPD, "    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());\n    if (auto e = ERR_peek_error(); e != 0) throw std::system_error((int)e, openssl_crypto_category());\n")]),
 ("refactor", "rcvar", [(C, UPD, "    const int rc = ::EVP_DigestUpdate(context_, data.data(), data.size());\n    if (rc == 1) { return; }\n    throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n")], ALL),
 ("refactor", "boolvar", [(C, UPD, "    const bool ok = ::EVP_DigestUpdate(context_, data.data(), data.size()) == 1;\n    if (!ok) throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n")], ALL),
 ("refactor", "truthy", [(C, UPD, UPD.replace("if (::EVP", "if (!::EVP").replace(" != 1", ""))], ALL),
 ("refactor", "helper", [(C, "message_digest::message_digest(message", "namespace { void check(int rc) { if (rc != 1) { throw std::system_error((int)ERR_get_error(), openssl_crypto_category()); } } }\n\nmessage_digest::message_digest(message"),
    (C, UPD, "    check(::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()));\n"), (C, FIN, "    check(::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size));\n"),
    (C, RST, "void message_digest::reset() {\n    check(::EVP_DigestInit_ex(context_, algorithm_context_, engine_));\n")], ALL),
 ("refactor", "thrower", [(C, "message_digest::message_digest(message", "namespace { [[noreturn]] void throw_last() { throw std::system_error((int)ERR_get_error(), openssl_crypto_category()); } }\n\nmessage_digest::message_digest(message"),
    (C, UPD, UPD.replace("throw std::system_error((int)ERR_get_error(), openssl_crypto_category())", "throw_last()")), (C, CTORINIT, CTORINIT.replace("throw std::system_error((int)ERR_get_error(), openssl_crypto_category())", "throw_last()"))], ALL),
 ("refactor", "unique", UP, ALL),
 ("refactor", "ctor_reset", [(C, CTORINIT, "    try { reset(); } catch (...) { ::EVP_MD_CTX_free(context_); throw; }\n")], ALL),
 ("refactor", "local_ctx", [(C, ALLOC, "    auto* ctx = ::EVP_MD_CTX_new();\n    if (!ctx) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n    context_ = ctx;\n")], ALL),
 ("refactor", "initlist_alloc", [(C, "        : context_()\n", "        : context_(nullptr)\n"), (C, ALLOC, ALLOC.replace("context_ == nullptr", "!context_"))], ALL),
 ("refactor", "update_skip_empty", [(C, UPD, "    if (data.empty()) { return; }\n" + UPD)], ALL),
 ("refactor", "finalize_combined", [(C, FIN, FIN.replace("if (::EVP", "if (const int rc = ::EVP").replace("&digest_size) != 1", "&digest_size); rc != 1"))], ALL),
 ("refactor", "hasher_copy_del", [(O, "    void update(std::span<const std::byte> data) override", "    openssl_hasher(const openssl_hasher&) = delete;\n    openssl_hasher& operator=(const openssl_hasher&) = delete;\n\n    void update(std::span<const std::byte> data) override")], ALL),
 ("refactor", "hasher_reset_helper", [(O, "        digest_.finalize_to(out);\n        digest_.reset();", "        finish(out);"), (O, "private:\n    openssl::message_digest digest_;", "private:\n    void finish(std::span<std::byte> out) { digest_.finalize_to(out); digest_.reset(); }\n    openssl::message_digest digest_;")], ALL),
]
