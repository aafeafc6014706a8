import importlib.util, os
sp = importlib.util.spec_from_file_location("P08", os.path.dirname(__file__) + "/P08.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
C, H, O, ALLOC, CTORINIT, UP = m.C, m.H, m.O, m.ALLOC, m.CTORINIT, m.UP
DEL = """    message_digest(const message_digest&) = delete;
    message_digest& operator=(const message_digest&) = delete;
"""
DT = "message_digest::~message_digest() {\n    ::EVP_MD_CTX_free(context_);\n}"
MOVE = "    message_digest(message_digest&& other) noexcept : context_(other.context_), algorithm_context_(other.algorithm_context_), engine_(other.engine_) { other.context_ = nullptr; }\n"
M = [
 ("bug", "copyable", [(H, DEL, "")]),
 ("bug", "default_move", [(H, DEL, DEL + "    message_digest(message_digest&&) = default;\n")]),
 ("bug", "move_nonull", [(H, DEL, DEL + MOVE.replace("{ other.context_ = nullptr; }", "{ }"))]),
 ("bug", "copyctor_ptr", [(H, DEL, "    message_digest(const message_digest& other) : context_(other.context_), algorithm_context_(other.algorithm_context_), engine_(other.engine_) { }\n    message_digest& operator=(const message_digest&) = delete;\n")]),
 ("bug", "ctorleak", [(C, "        ::EVP_MD_CTX_free(context_);\n        throw", "        throw")]),
 ("bug", "alg_after", [(C, ALLOC, ALLOC + "    if (engine_ == nullptr && algorithm == message_digest_algorithm::md2) { throw std::system_error(make_error_code(evp_errc::unsupported_algorithm)); }\n")]),
 ("bug", "dtor_cond", [(C, DT, "message_digest::~message_digest() {\n    if (engine_ != nullptr) ::EVP_MD_CTX_free(context_);\n}")]),
 ("bug", "dtor_none", [(C, DT, "message_digest::~message_digest() {\n}")]),
 ("bug", "dtor_twice", [(C, DT, "message_digest::~message_digest() {\n    ::EVP_MD_CTX_free(context_);\n    if (engine_) ::EVP_MD_CTX_free(context_);\n}")]),
 ("bug", "reset_renew", [(C, "void message_digest::reset() {\n", "void message_digest::reset() {\n    context_ = ::EVP_MD_CTX_new();\n    if (!context_) throw std::bad_alloc();\n")]),
 ("bug", "reset_free", [(C, "void message_digest::reset() {\n", "void message_digest::reset() {\n    ::EVP_MD_CTX_free(context_);\n")]),
 ("bug", "reset_free_throw", [(C, "void message_digest::reset() {\n", "void message_digest::reset() {\n    ::EVP_MD_CTX_free(context_);\n    auto* n = ::EVP_MD_CTX_new();\n    if (!n) throw std::bad_alloc();\n    context_ = n;\n")]),
 ("bug", "moveassign_leak", [(H, DEL, DEL + MOVE + "    message_digest& operator=(message_digest&& other) noexcept { context_ = other.context_; other.context_ = nullptr; return *this; }\n")]),
 ("bug", "finalize_free", [(C, "        throw std::system_error(make_error_code(evp_errc::buffer_too_small));", "        ::EVP_MD_CTX_free(context_);\n        throw std::system_error(make_error_code(evp_errc::buffer_too_small));")]),
 ("bug", "unique_double", UP + [(C, "message_digest::~message_digest() {\n", "message_digest::~message_digest() {\n    ::EVP_MD_CTX_free(context_.get());\n")]),
 ("refactor", "move_null", [(H, DEL, DEL + MOVE)]),
 ("refactor", "move_exchange", [(H, DEL, DEL + MOVE.replace("context_(other.context_)", "context_(std::exchange(other.context_, nullptr))").replace("{ other.context_ = nullptr; }", "{ }"))]),
 ("refactor", "moveassign_swap", [(H, DEL, DEL + MOVE + "    message_digest& operator=(message_digest&& other) noexcept { std::swap(context_, other.context_); std::swap(algorithm_context_, other.algorithm_context_); return *this; }\n")]),
 ("refactor", "moveassign_free", [(H, DEL, DEL + MOVE + "    message_digest& operator=(message_digest&& other) noexcept { if (this != &other) { ::EVP_MD_CTX_free(context_); context_ = other.context_; other.context_ = nullptr; } return *this; }\n")]),
 ("refactor", "dtor_guard", [(C, DT, "message_digest::~message_digest() {\n    if (context_ != nullptr) {\n        ::EVP_MD_CTX_free(context_);\n        context_ = nullptr;\n    }\n}")]),
 ("refactor", "copy_new", [(H, DEL, "    message_digest(const message_digest& other);\n    message_digest& operator=(const message_digest&) = delete;\n"), (C, "void message_digest::update", "message_digest::message_digest(const message_digest& other) : context_(::EVP_MD_CTX_new()), algorithm_context_(other.algorithm_context_), engine_(other.engine_) { if (!context_) throw std::bad_alloc(); if (EVP_MD_CTX_copy_ex(context_, other.context_) != 1) { ::EVP_MD_CTX_free(context_); throw std::bad_alloc(); } }\n\nvoid message_digest::update")], ["P08", "P09"]),
 ("refactor", "alloc_in_list", [(C, "        : context_()\n        , algorithm_context_(detail::get_evp_message_digest(algorithm))", "        : context_(nullptr)\n        , algorithm_context_(detail::get_evp_message_digest(algorithm))")]),
 ("refactor", "local_unique", [(C, ALLOC, "    std::unique_ptr<::EVP_MD_CTX, decltype(&::EVP_MD_CTX_free)> ctx(::EVP_MD_CTX_new(), &::EVP_MD_CTX_free);\n    if (!ctx) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n"), (C, "    ::EVP_MD_CTX_init(context_);\n", ""), (C, CTORINIT, "    if (::EVP_DigestInit_ex(ctx.get(), algorithm_context_, engine_) != 1) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n    context_ = ctx.release();\n"), (C, "#include <system_error>", "#include <system_error>\n#include <memory>")], ["P08", "P09", "P10"]),
]
