import importlib.util, os
sp = importlib.util.spec_from_file_location("P08", os.path.dirname(__file__) + "/P08.py"); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
C, H, O, SIZE, FIN, UPD = m.C, m.H, m.O, m.SIZE, m.FIN, m.UPD
S = "include/dottorrent/hasher/single_buffer_hasher.hpp"
M = [
 ("bug", "nosize", [(C, SIZE, "")]),
 ("bug", "assert", [(C, SIZE, "    assert(digest.size() >= static_cast<std::size_t>(::EVP_MD_size(algorithm_context_)));\n"), (C, "#include <system_error>", "#include <system_error>\n#include <cassert>")]),
 ("bug", "empty_only", [(C, "digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "digest.empty()")]),
 ("bug", "gt", [(C, "digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "digest.size() > static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))")]),
 ("bug", "half", [(C, "static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "static_cast<std::size_t>(::EVP_MD_size(algorithm_context_)) / 2")]),
 ("bug", "fixed20", [(C, "static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "20")]),
 ("bug", "after", [(C, SIZE, ""), (C, FIN, FIN + SIZE)]),
 ("bug", "noreset", [(O, "        digest_.reset();\n", "")]),
 ("bug", "condreset", [(O, "        digest_.reset();\n", "        if (out.size() != 20) { digest_.reset(); }\n")]),
 ("bug", "reset_before", [(O, "        digest_.finalize_to(out);\n        digest_.reset();", "        digest_.reset();\n        digest_.finalize_to(out);")]),
 ("bug", "reset_wrongalg", [(C, "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1)", "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, ::EVP_sha256(), engine_) != 1)")]),
 ("bug", "feed_short", [(C, "reinterpret_cast<const void*>(data.data()), data.size())", "reinterpret_cast<const void*>(data.data()), data.size() - (data.size() > 4096))")]),
 ("bug", "feed_skip", [(C, UPD, "    if (data.size() < 2) return;\n" + UPD)]),
 ("bug", "sv_length", [(S, "data.data()), data.size()}", "data.data()), std::string(data).find('\\0')}")]),
 ("refactor", "ctxsize", [(C, "::EVP_MD_size(algorithm_context_)", "::EVP_MD_CTX_size(context_)")]),
 ("refactor", "swapped", [(C, "digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "static_cast<std::size_t>(::EVP_MD_size(algorithm_context_)) > digest.size()")]),
 ("refactor", "var", [(C, SIZE, "    const auto required = static_cast<std::size_t>(::EVP_MD_size(algorithm_context_));\n" + SIZE.replace("static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "required"))]),
 ("refactor", "varspan", [(C, SIZE, "    const auto required = static_cast<std::size_t>(::EVP_MD_size(algorithm_context_));\n    const std::size_t available = digest.size();\n    if (available < required) {\n        throw std::system_error(make_error_code(evp_errc::buffer_too_small));\n    }\n")]),
 ("refactor", "nested", [(C, SIZE, ""), (C, FIN, "    if (digest.size() >= static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))) {\n" + FIN + "        return;\n    }\n    throw std::system_error(make_error_code(evp_errc::buffer_too_small));\n")]),
 ("refactor", "local", [(C, SIZE, SIZE + "    unsigned char buffer[EVP_MAX_MD_SIZE];\n"), (C, "reinterpret_cast<unsigned char*>(digest.data()), &digest_size", "buffer, &digest_size"), (C, FIN.split("\n")[1] + "\n    }\n}\n\nvoid message_digest::reset", FIN.split("\n")[1] + "\n    }\n    std::copy_n(reinterpret_cast<const std::byte*>(buffer), digest_size, digest.data());\n}\n\nvoid message_digest::reset")]),
 ("refactor", "digest_size_fn", [(H, "    void reset();", "    std::size_t digest_size() const { return static_cast<std::size_t>(::EVP_MD_size(algorithm_context_)); }\n\n    void reset();"), (C, "digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))", "digest.size() < digest_size()"), (C, "auto digest_size = ", "auto length = "), (C, "&digest_size) != 1", "&length) != 1")]),
 ("refactor", "reset_null", [(C, "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1)", "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, nullptr, engine_) != 1)")]),
 ("refactor", "loop", [(C, UPD, "    while (!data.empty()) {\n        auto part = data.first(std::min<std::size_t>(data.size(), 1 << 20));\n        if (::EVP_DigestUpdate(context_, part.data(), part.size()) != 1) {\n            throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n        }\n        data = data.subspan(part.size());\n    }\n")]),
 ("refactor", "reset_in_final", [(O, "        digest_.reset();\n", ""), (C, FIN, FIN + "    reset();\n")]),
 ("refactor", "sv_asbytes", [(S, "auto s = std::span{reinterpret_cast<const std::byte*>(data.data()), data.size()};", "auto s = std::as_bytes(std::span<const char>(data.data(), data.size()));")]),
 ("refactor", "sv_inline", [(S, "        auto s = std::span{reinterpret_cast<const std::byte*>(data.data()), data.size()};\n        update(s);", "        update(std::span<const std::byte>(reinterpret_cast<const std::byte*>(data.data()), data.size()));")]),
]
