H="include/dottorrent/hash_function.hpp"; O="include/dottorrent/hasher/openssl_hasher.hpp"; S="src/hasher/backends/openssl.cpp"; C="include/dottorrent/checksum.hpp"; T="include/dottorrent/hash.hpp"
M=[
 ("bug","name",[(H,'return "sha3_384"','return "sha3-384"')]),
 ("bug","dup",[(H,'return "blake2s_256"','return "blake2b_512"')]),
 ("bug","prefix",[(H,'if (s == to_string(func))','if (s.substr(0, to_string(func).size()) == to_string(func))')]),
 ("bug","unlist",[(H,'        hash_function::shake128,\n        hash_function::shake256,\n        hash_function::ripemd160,','        hash_function::shake256,\n        hash_function::ripemd160,')]),
 ("bug","map",[(O,"return message_digest_algorithm::sha3_256;","return message_digest_algorithm::sha256;")]),
 ("bug","evp",[(S,"return ::EVP_sha3_384();","return ::EVP_sha384();")]),
 ("bug","evp512",[(S,"return ::EVP_sha512();","return ::EVP_sha512_256();")]),
 ("bug","fall",[(S,"    case message_digest_algorithm::shake128:\n        return ::EVP_shake128();\n","    case message_digest_algorithm::shake128:\n")]),
 ("bug","adv",[(O,"        hash_function::md4,\n","        hash_function::md2,\n        hash_function::md4,\n")]),
 ("bug","unadv",[(O,"        hash_function::sha1,\n","")]),
 ("bug","size",[(T,"DOTTORRENT_HASH_CLASS_TEMPLATE(ripemd160,  160)","DOTTORRENT_HASH_CLASS_TEMPLATE(ripemd160,  128)")]),
 ("bug","mk",[(C,"DOTTORRENT_MAKE_CHECKSUM_FN_TEMPLATE(f, sha3_224,   value)\n","")]),
 ("bug","isname",[(H,"return ((to_string(v) == s) || ... );","return ((to_string(v).find(s) == 0) || ... );")]),
 ("refactor","table",[(S,"const ::EVP_MD* get_evp_message_digest(message_digest_algorithm algorithm)\n{\n","static const ::EVP_MD* sha2(message_digest_algorithm a)\n{\n    return a == message_digest_algorithm::sha384 ? ::EVP_sha384() : ::EVP_sha512();\n}\n\nconst ::EVP_MD* get_evp_message_digest(message_digest_algorithm algorithm)\n{\n"),(S,"        return ::EVP_sha384();","        return sha2(algorithm);")]),
 ("refactor","findif",[(H,"    for (auto func: supported_hash_functions) {\n        if (s == to_string(func)) return func;\n    }\n    return std::nullopt;","    auto it = std::find_if(supported_hash_functions.begin(), supported_hash_functions.end(), [&](auto f) { return to_string(f) == s; });\n    if (it == supported_hash_functions.end()) return std::nullopt;\n    return *it;")]),
 ("refactor","advset",[(O,"        hash_function::md4,\n        hash_function::md5,\n","        hash_function::md5,\n        hash_function::md4,\n")]),
 ("refactor","isname2",[(H,"    return std::apply([=](auto... v){\n        return ((to_string(v) == s) || ... );\n    }, supported_hash_functions);","    for (auto f : supported_hash_functions) if (to_string(f) == s) return true;\n    return false;")]),
]
