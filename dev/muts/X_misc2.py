A = "include/dottorrent/aligned_allocator.hpp"; B = "include/dottorrent/bitmask_operators.hpp"; L = "include/dottorrent/literals.hpp"
HF = "include/dottorrent/hash_function.hpp"; OH = "include/dottorrent/hasher/openssl_hasher.hpp"; OC = "src/hasher/backends/openssl.cpp"; OO = "include/dottorrent/hasher/backends/openssl.hpp"
SB = "include/dottorrent/hasher/single_buffer_hasher.hpp"; DN = "include/dottorrent/dht_node.hpp"; OP = "include/dottorrent/object_pool.hpp"
AX = ["P26", "P28", "P17"]; HX = ["P07", "P28", "P31"]; CX = ["P07", "P08", "P09", "P10", "P17", "P28", "P16", "P31"]; PX = ["P04", "P16", "P17", "P28", "P31"]
FIN = """    // EVP_DigestFinal_ex always writes the full digest, whatever the size of the buffer.
    if (digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))) {
        throw std::system_error(make_error_code(evp_errc::buffer_too_small));
    }
    auto digest_size = static_cast<unsigned int>(digest.size());
    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
"""
GET = """            value_ptr resource;

            // try to retrieve an unused resource from the pool
            if (queue_.try_pop(resource)) {}
            else if (resources_left_.load(std::memory_order_relaxed) != 0) {
                resources_left_.fetch_sub(1, std::memory_order_relaxed);
                resource = std::invoke(Policy::construct);
            } else {
                queue_.pop(resource);
            }
"""
i = open("/repo/" + HF).read(); MK = i[i.index("constexpr auto make_hash_function"):]
MK = MK[:MK.index("\n}\n") + 3]
ISN = i[i.index("    return std::apply([=]"):i.index("constexpr auto make_hash_function")]
CTOR = open("/repo/" + OC).read(); CTOR = CTOR[CTOR.index("    if (algorithm_context_ == nullptr)"):CTOR.index("void message_digest::update")]
M = [
 # allocator
 ("ok", "a_order", [(A, "        if (n == 0) {\n            return nullptr;\n        }\n", ""), (A, "            throw std::length_error(\"aligned_allocator<T>::allocate() - Integer overflow.\");\n        }\n", "            throw std::length_error(\"aligned_allocator<T>::allocate() - Integer overflow.\");\n        }\n        if (n == 0) return nullptr;\n")], AX),
 ("ok", "a_maxhelper", [(A, "(static_cast<std::size_t>(0) - static_cast<std::size_t>(1)) / sizeof(T)", "SIZE_MAX / sizeof(T)")], AX),
 ("ok", "a_ternary", [(A, "        if (pv == nullptr)\n        {\n            throw std::bad_alloc();\n        }\n\n        return static_cast<T *>(pv);", "        if (pv) return static_cast<T*>(pv);\n        throw std::bad_alloc{};")], AX),
 ("ok", "a_raw", [(A, "    T * allocate(const std::size_t n) const\n", "    static void* raw_allocate(std::size_t bytes)\n    {\n        if (void* p = std::aligned_alloc(Alignment, bytes)) return p;\n        throw std::bad_alloc();\n    }\n\n    T * allocate(const std::size_t n) const\n"), (A, "        void * const pv = std::aligned_alloc(Alignment, n * sizeof(T));\n", "        void * const pv = raw_allocate(n * sizeof(T));\n")], AX),
 ("bug", "a_int", [(A, "std::aligned_alloc(Alignment, n * sizeof(T))", "std::aligned_alloc(Alignment, static_cast<std::uint32_t>(n * sizeof(T)))")], ["P26"]),
 ("bug", "a_gt1", [(A, "if (n > max_size())", "if (n > max_size() * 2)")], ["P26"]),
 ("bug", "a_align_half", [(A, "std::aligned_alloc(Alignment, n", "std::aligned_alloc(Alignment / 2, n")], ["P26"]),
 ("bug", "a_signed", [(A, "if (n > max_size())", "if (static_cast<difference_type>(n) > static_cast<difference_type>(max_size()))")], ["P26"]),
 ("bug", "a_dealloc_small", [(A, "        std::free(p);", "        if (n > 1) std::free(p);")], ["P26"]),
 ("bug", "a_hint", [(A, "        return allocate(n);\n    }\n};", "        return allocate(n / sizeof(U));\n    }\n};")], ["P26"]),
 ("bug", "a_maxadd", [(A, "static_cast<std::size_t>(1)) / sizeof(T);", "static_cast<std::size_t>(1)) / sizeof(T) + 1;")], ["P26"]),
 # bits
 ("ok", "b_helper", [(B, "template <is_bitmask_enum Enum>\nconstexpr auto operator|(", "template <typename E> constexpr auto to_bits(E e) { return static_cast<std::underlying_type_t<E>>(e); }\n\ntemplate <is_bitmask_enum Enum>\nconstexpr auto operator|("), (B, "    return static_cast<Enum>(\n            static_cast<T>(lhs) | static_cast<T>(rhs));", "    return static_cast<Enum>(to_bits(lhs) | to_bits(rhs));")], ["P27"]),
 ("ok", "b_demorgan", [(B, "    return static_cast<Enum>(\n            static_cast<T>(lhs) & static_cast<T>(rhs));", "    return static_cast<Enum>(\n            static_cast<T>(~(~static_cast<T>(lhs) | ~static_cast<T>(rhs))));")], ["P27"]),
 ("ok", "b_assign", [(B, "    lhs = static_cast<Enum>(\n            static_cast<T>(lhs) ^ static_cast<T>(rhs));\n    return lhs;", "    return lhs = lhs ^ rhs;")], ["P27"]),
 ("bug", "b_add", [(B, "    return static_cast<Enum>(\n            static_cast<T>(lhs) | static_cast<T>(rhs));", "    return static_cast<Enum>(\n            static_cast<T>(lhs) + static_cast<T>(rhs));")], ["P27"]),
 ("bug", "b_int", [(B, "constexpr auto operator&=(Enum& lhs, Enum rhs) -> Enum&\n{\n    using T = typename std::underlying_type<Enum>::type;", "constexpr auto operator&=(Enum& lhs, Enum rhs) -> Enum&\n{\n    using T = unsigned int;")], ["P27"]),
 ("bug", "b_neg", [(B, "            ~static_cast<T>(lhs));", "            -static_cast<T>(lhs));")], ["P27"]),
 ("ok", "l_shift", [(L, "    return value*1024*1024*1024*1024;", "    return value << 40;")], ["P27"]),
 ("ok", "l_nest", [(L, "    return value*1024*1024;\n", "    return operator\"\"_KiB(value) * 1024;\n")], ["P27"]),
 ("bug", "l_32", [(L, "    return value*1000*1000*1000;\n", "    return static_cast<unsigned>(value*1000*1000*1000);\n")], ["P27"]),
 ("bug", "l_tb", [(L, "    return value*1000*1000*1000*1000;", "    return value*1000*1000*1000*1024;")], ["P27"]),
 # tables
 ("ok", "h_mkfind", [(HF, MK, """constexpr auto make_hash_function(std::string_view s) -> std::optional<hash_function>
{
    std::optional<hash_function> result {};
    for (std::size_t i = 0; i < supported_hash_functions.size() && !result; ++i) {
        const auto candidate = supported_hash_functions[i];
        if (to_string(candidate) == s) {
            result = candidate;
        }
    }
    return result;
}
""")], HX),
 ("ok", "h_isname", [(HF, ISN, "    for (auto f : supported_hash_functions) {\n        if (to_string(f) == s) { return true; }\n    }\n    return false;\n}\n\n")], HX),
 ("ok", "h_isname_mk", [(HF, ISN, "    const auto matches = [s](hash_function f) { return to_string(f) == s; };\n    return std::any_of(supported_hash_functions.begin(), supported_hash_functions.end(), matches);\n}\n\n")], HX),
 ("ok", "h_order", [(HF, "        case hash_function::md4:         return \"md4\";\n        case hash_function::md5:         return \"md5\";\n", "        case hash_function::md5:         return \"md5\";\n        case hash_function::md4:         return \"md4\";\n")], HX),
 ("ok", "h_table", [(OH, "    case hash_function::md4:          return message_digest_algorithm::md4;\n    case hash_function::md5:          return message_digest_algorithm::md5;\n", "    case hash_function::md5:          return message_digest_algorithm::md5;\n    case hash_function::md4:          return message_digest_algorithm::md4;\n")], HX),
 ("ok", "h_var", [(HF, MK, MK.replace("        if (s == to_string(func)) return func;", "        const std::string_view name = to_string(func);\n        if (name != s) continue;\n        return func;"))], HX),
 ("bug", "h_starts", [(HF, "        if (s == to_string(func)) return func;", "        if (s.starts_with(to_string(func))) return func;")], ["P07"]),
 ("bug", "h_ends", [(HF, "((to_string(v) == s) || ... )", "((to_string(v).ends_with(s)) || ... )")], ["P07"]),
 ("bug", "h_swap3", [(OH, "hash_function::sha3_256:     return message_digest_algorithm::sha3_256", "hash_function::sha3_256:     return message_digest_algorithm::sha256")], ["P07"]),
 ("bug", "h_evp384", [(OC, "        return ::EVP_sha3_384();", "        return ::EVP_sha384();")], ["P07"]),
 ("bug", "h_fallback", [(OC, "    default:\n        return nullptr;", "    default:\n        return ::EVP_sha256();")], ["P07"]),
 # openssl
 ("ok", "o_ctor_try", [(OC, CTOR, """    if (!algorithm_context_) {
        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
    }
    if (!(context_ = ::EVP_MD_CTX_new())) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
    try {
        reset();
    }
    catch (...) {
        ::EVP_MD_CTX_free(context_);
        throw;
    }
}

""")], CX),
 ("ok", "o_fin_min", [(OC, FIN, """    const auto required = ::EVP_MD_size(algorithm_context_);
    if (required < 0 || digest.size() < static_cast<std::size_t>(required)) {
        throw std::system_error(make_error_code(evp_errc::buffer_too_small));
    }
    unsigned int written = 0;
    const int rc = ::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &written);
    if (rc != 1) {
        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
    }
""")], CX),
 ("ok", "o_fin_null", [(OC, "    auto digest_size = static_cast<unsigned int>(digest.size());\n", ""), (OC, "reinterpret_cast<unsigned char*>(digest.data()), &digest_size)", "reinterpret_cast<unsigned char*>(digest.data()), nullptr)")], CX),
 ("ok", "o_check", [(OC, "void message_digest::update(", "static void check(int rc)\n{\n    if (rc == 1) return;\n    throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n}\n\nvoid message_digest::update("), (OC, "    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {\n        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());\n    }\n", "    check(::EVP_DigestUpdate(context_, data.data(), data.size_bytes()));\n")], CX),
 ("ok", "o_hasher_order", [(OH, "        digest_.finalize_to(out);\n        digest_.reset();", "        auto& d = digest_;\n        d.finalize_to(out);\n        d.reset();")], CX),
 ("ok", "o_dtor", [(OC, "    ::EVP_MD_CTX_free(context_);\n}\n}", "    if (context_ != nullptr) {\n        ::EVP_MD_CTX_free(context_);\n        context_ = nullptr;\n    }\n}\n}")], CX),
 ("ok", "o_sv", [(SB, "        auto s = std::span{reinterpret_cast<const std::byte*>(data.data()), data.size()};\n        update(s);", "        const auto* first = reinterpret_cast<const std::byte*>(data.data());\n        update(std::span<const std::byte>(first, first + data.size()));")], CX),
 ("bug", "o_sv_off", [(SB, "        auto s = std::span{reinterpret_cast<const std::byte*>(data.data()), data.size()};", "        auto s = std::span{reinterpret_cast<const std::byte*>(data.data()), data.find('\\0') == data.npos ? data.size() : data.find('\\0')};")], ["P10"]),
 ("bug", "o_upd_int", [(OC, "reinterpret_cast<const void*>(data.data()), data.size()) != 1", "reinterpret_cast<const void*>(data.data()), static_cast<unsigned int>(data.size())) != 1")], ["P10"]),
 ("bug", "o_fin_block", [(OC, "::EVP_MD_size(algorithm_context_)", "::EVP_MD_size(algorithm_context_) / 2")], ["P10"]),
 ("bug", "o_reset_ctx", [(OC, "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {", "void message_digest::reset() {\n    if (::EVP_MD_CTX_reset(context_) != 1) {")], ["P10"]),
 ("bug", "o_fin_catch", [(OH, "        digest_.finalize_to(out);\n        digest_.reset();", "        digest_.finalize_to(out);\n        try { digest_.reset(); } catch (const std::system_error&) {}")], ["P08"]),
 ("bug", "o_upd_retry", [(OC, "    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {", "    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) < 0) {")], ["P08"]),
 ("bug", "o_ctor_free2", [(OC, "        ::EVP_MD_CTX_free(context_);\n        throw std::system_error", "        throw std::system_error")], ["P09"]),
 ("bug", "o_reset_free", [(OC, "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {\n", "void message_digest::reset() {\n    if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {\n        ::EVP_MD_CTX_free(context_);\n")], ["P09"]),
 ("bug", "o_evpname", [(OC, "#ifndef OPENSSL_NO_RMD160\n    case message_digest_algorithm::ripemd160: {\n        return ::EVP_ripemd160();", "#ifndef OPENSSL_NO_RMD160\n    case message_digest_algorithm::ripemd160: {\n        return ::EVP_sha1();")], ["P07"]),
 # pool
 ("ok", "p_get", [(OP, GET, """            value_ptr resource = acquire();
"""), (OP, "        /// @copydoc shared_object_pool::free_unused()\n", """        value_ptr acquire()
        {
            value_ptr resource;
            if (queue_.try_pop(resource)) {
                return resource;
            }
            if (resources_left_.load(std::memory_order_relaxed) > 0) {
                --resources_left_;
                return std::invoke(Policy::construct);
            }
            queue_.pop(resource);
            return resource;
        }

        /// @copydoc shared_object_pool::free_unused()
""")], PX),
 ("ok", "p_del", [(OP, "            auto pool = pool_.lock();\n\n            if (pool) {\n                pool->recycle(std::move(resource_));\n            }", "            if (const std::shared_ptr<impl> owner = pool_.lock(); owner != nullptr) {\n                owner->recycle(std::move(resource_));\n            }")], PX),
 ("ok", "p_fill", [(OP, "            for (size_type i = 0; i != size; ++i) {\n                queue_.push(std::invoke(Policy::construct));\n            }", "            size_type remaining = size;\n            while (remaining-- > 0) {\n                auto fresh = std::invoke(Policy::construct);\n                queue_.push(std::move(fresh));\n            }")], PX),
 ("ok", "p_clear", [(OP, "            value_ptr resource;\n            while (queue_.try_pop(resource)) {\n                resource.reset();\n                resources_left_.fetch_add(1, std::memory_order_relaxed);\n            }", "            for (value_ptr resource; queue_.try_pop(resource); resource = nullptr) {\n                ++resources_left_;\n            }")], PX),
 ("ok", "p_recycle", [(OP, "            std::invoke(Policy::recycle, resource);\n            queue_.push(std::move(resource));", "            Policy::recycle(resource);\n            value_ptr returned = std::move(resource);\n            queue_.push(std::move(returned));")], PX),
 ("ok", "p_handle", [(OP, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            auto* raw = resource.get();\n            deleter give_back(this->weak_from_this(), std::move(resource));\n            return value_ptr(raw, std::move(give_back));")], PX),
 ("bug", "p_dec_after_pop", [(OP, "            if (queue_.try_pop(resource)) {}\n", "            if (queue_.try_pop(resource)) { resources_left_.fetch_sub(1, std::memory_order_relaxed); }\n")], ["P04"]),
 ("bug", "p_handle_moved", [(OP, "            return value_ptr(resource.get(), deleter(impl::weak_from_this(), resource));", "            deleter give_back(impl::weak_from_this(), std::move(resource));\n            return value_ptr(resource.get(), std::move(give_back));")], ["P04"]),
 ("bug", "p_blocking_first", [(OP, "            if (queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 0) {", "            if (queue_.try_pop(resource)) {}\n            else if (resources_left_.load(std::memory_order_relaxed) != 1) {")], ["P04"]),
 ("bug", "p_del_copy", [(OP, "                pool->recycle(std::move(resource_));\n            }", "                auto copy = resource_;\n                pool->recycle(std::move(copy));\n                return;\n            }")], ["P04"]),
 ("bug", "p_size2", [(OP, "                , resources_left_(capacity - size)", "                , resources_left_(size)")], ["P04"]),
]
