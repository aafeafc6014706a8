F = "include/dottorrent/aligned_allocator.hpp"
A = "void * const pv = std::aligned_alloc(Alignment, n * sizeof(T));"
OV = "        if (n > max_size())\n        {\n            throw std::length_error(\"aligned_allocator<T>::allocate() - Integer overflow.\");\n        }\n"
NU = "        if (pv == nullptr)\n        {\n            throw std::bad_alloc();\n        }\n"
M = [
 ("bug", "nocheck", [(F, OV, "")]),
 ("bug", "nonull", [(F, NU, "")]),
 ("bug", "returnnull", [(F, NU, "        if (pv == nullptr)\n        {\n            return nullptr;\n        }\n")]),
 ("bug", "wrongmax", [(F, "static_cast<std::size_t>(1)) / sizeof(T);", "static_cast<std::size_t>(1));")]),
 ("bug", "bytes", [(F, A, "void * const pv = std::aligned_alloc(Alignment, n);")]),
 ("bug", "alignoft", [(F, A, "void * const pv = std::aligned_alloc(alignof(T), n * sizeof(T));")]),
 ("bug", "malloc", [(F, A, "void * const pv = std::malloc(n * sizeof(T));")]),
 ("bug", "roundup_overflow", [(F, A, "void * const pv = std::aligned_alloc(Alignment, (n * sizeof(T) + Alignment - 1) / Alignment * Alignment);")]),
 ("bug", "rounddown", [(F, A, "void * const pv = std::aligned_alloc(Alignment, n * sizeof(T) / Alignment * Alignment);")]),
 ("bug", "opdelete", [(F, "        std::free(p);", "        ::operator delete(p);")]),
 ("bug", "nofree", [(F, "        std::free(p);", "        if (n > 1) std::free(p);")]),
 ("bug", "notequal", [(F, "return !(*this == other);", "return (*this == other);")]),
 ("bug", "half", [(F, OV, OV.replace("n > max_size()", "n > max_size() && n < 1000"))]),
 ("bug", "intprod", [(F, "n > max_size()", "n * sizeof(T) > max_size()")]),
 ("refactor", "inline_max", [(F, "n > max_size()", "n > static_cast<std::size_t>(-1) / sizeof(T)")]),
 ("refactor", "numeric", [(F, "n > max_size()", "n > std::numeric_limits<std::size_t>::max() / sizeof(T)"), (F, "#include <cstdint>", "#include <cstdint>\n#include <limits>")]),
 ("refactor", "smaller", [(F, "n > max_size()", "n >= (static_cast<std::size_t>(1) << 47) / sizeof(T)")]),
 ("refactor", "posix", [(F, A, "void* pv = nullptr;\n        if (posix_memalign(&pv, Alignment, n * sizeof(T)) != 0) throw std::bad_alloc();")]),
 ("refactor", "opnew", [(F, A, "void * const pv = ::operator new(n * sizeof(T), std::align_val_t(Alignment));"), (F, "std::free(p);", "::operator delete(p, std::align_val_t(Alignment));")]),
 ("refactor", "bytesvar", [(F, A, "const std::size_t bytes = n * sizeof(T);\n        void * const pv = std::aligned_alloc(Alignment, bytes);")]),
 ("refactor", "helper", [(F, "    void deallocate(T * const p", "    static void* raw(std::size_t bytes) { void* p = std::aligned_alloc(Alignment, bytes); if (!p) throw std::bad_alloc(); return p; }\n    void deallocate(T * const p"), (F, A, "void * const pv = raw(n * sizeof(T));"), (F, NU, "")]),
 ("refactor", "roundup", [(F, OV, OV.replace("max_size()", "max_size() - Alignment")), (F, A, "void * const pv = std::aligned_alloc(Alignment, (n * sizeof(T) + Alignment - 1) / Alignment * Alignment);")]),
 ("refactor", "positive", [(F, NU + "\n        return static_cast<T *>(pv);", "        if (pv) return static_cast<T *>(pv);\n        throw std::bad_alloc();")]),
 ("refactor", "guardfree", [(F, "        std::free(p);", "        if (p != nullptr) { std::free(p); }")]),
 ("refactor", "builtin", [(F, OV, "        std::size_t bytes;\n        if (__builtin_mul_overflow(n, sizeof(T), &bytes)) throw std::length_error(\"x\");\n"), (F, A, "void * const pv = std::aligned_alloc(Alignment, bytes);")]),
 ("refactor", "defaulteq", [(F, "        return true;\n", "        (void)other;\n        return true;\n")]),
]
