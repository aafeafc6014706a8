From 0f95b0b3d41ec94f16404676160981fc4a1931ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 01/76] fix: try_push must not insert into a queue holding more
 items than its capacity

After set_capacity() lowered the capacity below the number of queued items the
equality test never matched and try_push grew the queue without bound.
---
 include/dottorrent/concurrent_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..fbc4625 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
-- 
2.43.0


From aeca47f4d779ed8a594edcfbcc5dd1953ae2a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:12 +0000
Subject: [PATCH 02/76] fix: wake producers blocked in push when the queue
 capacity is changed

A producer waiting for space kept sleeping after set_capacity() raised the
capacity, until some consumer happened to pop.
---
 include/dottorrent/concurrent_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index fbc4625..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From fa4e9077ab2bd25e932ef9a2640cf0cd5e9412ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:46 +0000
Subject: [PATCH 03/76] fix: make object_pool::clear and object_pool::capacity
 usable

Both called members concurrent_queue never had, so any use failed to compile.
Freed objects give their allowance back, otherwise get() would block forever.
---
 include/dottorrent/concurrent_queue.hpp | 6 ++++++
 include/dottorrent/object_pool.hpp      | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index 11489eb..cfe9aba 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -90,6 +90,12 @@ public:
         return queue_.size();
     }
 
+    std::size_t capacity() const noexcept
+    {
+        std::unique_lock<std::mutex> lk(mutex_);
+        return capacity_;
+    }
+
     void set_capacity(std::size_t n) noexcept
     {
         {
diff --git a/include/dottorrent/object_pool.hpp b/include/dottorrent/object_pool.hpp
index a3cebee..740e6f7 100644
--- a/include/dottorrent/object_pool.hpp
+++ b/include/dottorrent/object_pool.hpp
@@ -147,7 +147,13 @@ private:
         /// @copydoc shared_object_pool::free_unused()
         /// not thread safe!
         void clear()
-        { queue_.clear(); }
+        {
+            value_ptr resource;
+            while (queue_.try_pop(resource)) {
+                resource.reset();
+                resources_left_.fetch_add(1, std::memory_order_relaxed);
+            }
+        }
 
         /// @copydoc shared_object_pool::unused_resources()
         size_type capacity() const noexcept
-- 
2.43.0


From f6a68742f2a7c2ff151ade484d4a36e08b2175d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 04/76] fix: reading outside the hex lookup table for
 characters above 0x7f

char is signed here, so such a character indexed the table with a negative value.
---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..10577db 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
-- 
2.43.0


From 9cc008b164579d72ab2263b1074f3863a3161375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 05/76] fix: refuse hexadecimal text of odd length

The last digit of an odd text was silently dropped.
---
 include/dottorrent/hex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 10577db..641b03c 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -68,6 +68,7 @@ inline constexpr bool hex_to_byte(char a, char b, std::byte& out)
 
 inline constexpr bool hex_to_byte(std::string_view hex_pair, std::byte& out)
 {
+    if (hex_pair.size() != 2) [[unlikely]] return false;
     return hex_to_byte(hex_pair[0], hex_pair[1], out);
 }
 
@@ -112,7 +113,7 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
     std::byte byte_value;
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
-- 
2.43.0


From 41b010fe9484f009ba9fdb53a2970659dbbdd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 06/76] fix: decoding hexadecimal text to an output iterator

Bytes above 0x7f did not fit the char handed to from_chars and were refused, a
sign or a single digit was accepted, a text of odd length was read past its end
and the output iterator was never advanced.
---
 include/dottorrent/hex.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 641b03c..0d8ef71 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -94,17 +94,15 @@ inline constexpr void byte_to_hex_uppercase(std::byte c, char * __restrict out)
 template <std::output_iterator<std::byte> OutputIt>
 inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex_string)
 {
-    auto it = hex_string.data();
-    auto end = hex_string.data() + hex_string.size();
-    while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
-
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+    if (hex_string.size() % 2 != 0) [[unlikely]] {
+        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
+    }
+    for (std::size_t i = 0; i < hex_string.size(); i += 2) {
+        std::byte v {};
+        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        *out++ = v;
     }
 }
 
-- 
2.43.0


From e40ad88a2dbdbcbf1adb70eb5369ce45331bccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 07/76] fix: encoding hexadecimal text to an output iterator

The function did not compile for any iterator and did not advance it.
---
 include/dottorrent/hex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 0d8ef71..8d4367e 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -135,13 +135,13 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        out = std::copy_n(buf.data(), 2, out);
     }
     return out;
 }
-- 
2.43.0


From a3ef5e212ca8fff986d4414462596c587dc81d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 08/76] fix: detect every malformed escape when
 percent-decoding

Letters that are no hexadecimal digits were accepted and decoded to an
indeterminate byte, a percent sign inside an escape was dropped and a trailing
percent sign was not reported.
---
 include/dottorrent/percent_encoding.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..5c9affe 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -112,23 +112,22 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         char c = *first++;
 
         // We must start with copying the two hexadecimal character to the buffer
-        if (c == '%') {
+        if (c == '%' && !copy_to_buffer_status) {
             copy_to_buffer_status = true;
             continue;
         }
 
         // We are busy with decoding an encoded character
         if (copy_to_buffer_status) {
-            if (!detail::is_alphanumerical(c)) [[unlikely]] {
-                return percent_decode_status::non_hex_encoded_character;
-            }
 
             buffer[buffer_offset++] = c;
 
             // full percent encoded character has been copied to buffer, decode it and reset status
             if (buffer_offset == 2) {
-                std::byte result;
-                dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result);
+                std::byte result {};
+                if (!dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result)) [[unlikely]] {
+                    return percent_decode_status::non_hex_encoded_character;
+                }
                 *out++ = static_cast<char>(result);
 
                 copy_to_buffer_status = false;
@@ -140,7 +139,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From ceafbda4a197107e9d444efde11b673140f6ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 09/76] fix: report malformed percent-encoding from the string
 overload

The status was dropped and a truncated string handed out as if it were complete.
---
 include/dottorrent/percent_encoding.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 5c9affe..6a9c015 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -150,7 +150,10 @@ inline std::string percent_decode(std::string_view value)
 {
     std::string s {};
     s.reserve(value.size());
-    percent_decode(value.begin(), value.end(), std::back_inserter(s));
+    auto status = percent_decode(value.begin(), value.end(), std::back_inserter(s));
+    if (status != percent_decode_status::success) [[unlikely]] {
+        throw std::invalid_argument("invalid percent-encoding");
+    }
     return s;
 }
 
-- 
2.43.0


From 7a2d3150e9909ef3480e3cc2165fd6ba3314d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:44 +0000
Subject: [PATCH 10/76] fix: advance the output iterator while percent-encoding

With any iterator but an inserter each character overwrote the previous one.
---
 include/dottorrent/percent_encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 6a9c015..1d27e4e 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
-- 
2.43.0


From 5c141fe4a8ce39fa517a20dac6543fdb24592d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:39 +0000
Subject: [PATCH 11/76] fix: include <algorithm> where std::copy_n is used

---
 include/dottorrent/hex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 8d4367e..a3eb0c7 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <span>
 #include <array>
 #include <optional>
-- 
2.43.0


From 711619cb5d85b3c8c36aab5da8c46a7804fb784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:58 +0000
Subject: [PATCH 12/76] fix: report failures of EVP_DigestUpdate and
 EVP_DigestFinal_ex

---
 src/hasher/backends/openssl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..f925bdd 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -127,12 +127,16 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
 }
 
 void message_digest::update(std::span<const std::byte> data) {
-    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());
+    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::finalize_to(std::span<std::byte> digest) {
     auto digest_size = static_cast<unsigned int>(digest.size());
-    ::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size);
+    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::reset() {
-- 
2.43.0


From a08087d2b008d12c5505f8c4955ab169c8905c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:58 +0000
Subject: [PATCH 13/76] fix: refuse buffers that are too small for the digest

---
 src/hasher/backends/openssl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index f925bdd..3e7fd5a 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -133,6 +133,10 @@ void message_digest::update(std::span<const std::byte> data) {
 }
 
 void message_digest::finalize_to(std::span<std::byte> digest) {
+    // EVP_DigestFinal_ex always writes the full digest, whatever the size of the buffer.
+    if (digest.size() < static_cast<std::size_t>(::EVP_MD_size(algorithm_context_))) {
+        throw std::system_error(make_error_code(evp_errc::buffer_too_small));
+    }
     auto digest_size = static_cast<unsigned int>(digest.size());
     if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
-- 
2.43.0


From 214735206fb856437788b9dded3a3dddffc8004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:00 +0000
Subject: [PATCH 14/76] fix: give digest contexts a single owner that releases
 them on every path

---
 include/dottorrent/hasher/backends/openssl.hpp | 4 ++++
 src/hasher/backends/openssl.cpp                | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/hasher/backends/openssl.hpp b/include/dottorrent/hasher/backends/openssl.hpp
index 36dc9d3..587e0a1 100644
--- a/include/dottorrent/hasher/backends/openssl.hpp
+++ b/include/dottorrent/hasher/backends/openssl.hpp
@@ -316,6 +316,10 @@ class message_digest
 public:
     explicit message_digest(message_digest_algorithm algorithm, ::ENGINE* engine = nullptr);
 
+    /// The context is owned by exactly one object.
+    message_digest(const message_digest&) = delete;
+    message_digest& operator=(const message_digest&) = delete;
+
     void update(std::span<const std::byte> data);
 
     void finalize_to(std::span<std::byte> digest);
diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 3e7fd5a..f56e7fe 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -112,16 +112,18 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
         , algorithm_context_(detail::get_evp_message_digest(algorithm))
         , engine_(engine)
 {
+    if (algorithm_context_ == nullptr) {
+        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
+    }
     context_ = ::EVP_MD_CTX_new();
     if (context_ == nullptr) {
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
     ::EVP_MD_CTX_init(context_);
 
-    if (algorithm_context_ == nullptr) {
-        throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
-    }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        // The destructor does not run when the constructor throws.
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
-- 
2.43.0


From 5082bd87adbb62b8daa634cb35b72cd8a09ee5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:16 +0000
Subject: [PATCH 15/76] fix: sha3_384 digests have 384 bits

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..75e20e5 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 9a680f814a34f8b4c6751febfe940c05b199a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:16 +0000
Subject: [PATCH 16/76] fix: hash_function_traits::name was named after the
 macro argument

---
 include/dottorrent/hash_function_traits.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dottorrent/hash_function_traits.hpp b/include/dottorrent/hash_function_traits.hpp
index c260067..2377e67 100644
--- a/include/dottorrent/hash_function_traits.hpp
+++ b/include/dottorrent/hash_function_traits.hpp
@@ -10,15 +10,15 @@ namespace dottorrent {
 template <hash_function F>
 struct hash_function_traits {};
 
-#define DOTTORRENT_REGISTER_HASH_TRAIT(name)        \
+#define DOTTORRENT_REGISTER_HASH_TRAIT(NAME)        \
 template <>                                         \
-struct hash_function_traits<hash_function::name>    \
+struct hash_function_traits<hash_function::NAME>    \
 {                                                   \
-    using hash_type     = name##_hash;              \
-    using checksum_type = name##_checksum;          \
+    using hash_type     = NAME##_hash;              \
+    using checksum_type = NAME##_checksum;          \
     static constexpr std::size_t digest_size_bytes  = hash_type::size_bytes ;    \
     static constexpr std::size_t digest_size_bits   = hash_type::size_bits ;     \
-    static constexpr std::string_view name  = to_string(hash_function::name);  \
+    static constexpr std::string_view name  = to_string(hash_function::NAME);  \
 };                                                  \
 
 
-- 
2.43.0


From 5a852ab36d63c6ddbb0dfedbe608e38a58b4da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:08 +0000
Subject: [PATCH 17/76] fix: basic_hash::value() const must return a reference
 to const

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index 75e20e5..2de430a 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -104,7 +104,7 @@ public:
     constexpr auto end() const noexcept -> const_iterator
     { return data_.end(); }
 
-    constexpr auto value() const noexcept -> storage_type&
+    constexpr auto value() const noexcept -> const storage_type&
     { return data_; }
 
     constexpr auto data() noexcept -> value_type*
-- 
2.43.0


From 9fccd385f01dd2f9b7fede52b1876d820da3e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:08 +0000
Subject: [PATCH 18/76] fix: file_entry::remove_checksum did not compile when
 used

---
 include/dottorrent/file_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..2406afc 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -83,7 +83,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
-- 
2.43.0


From 79ddf0d54f9004adc84d8c49b981dbb56e2bed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 19/76] fix: merkle_tree assignment operators locked a member
 that does not exist and returned nothing

---
 include/dottorrent/merkle_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..a7e8cd7 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
-- 
2.43.0


From a1623d3d2301e57fb177de2824821967ca55087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 20/76] fix: lock the source when copying or moving a
 merkle_tree

---
 include/dottorrent/merkle_tree.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index a7e8cd7..5cc496b 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -41,10 +41,16 @@ public:
     }
 
     merkle_tree(const merkle_tree& other)
-            : data_(other.data_) { }
+    {
+        std::shared_lock lck{other.mutex_};
+        data_ = other.data_;
+    }
 
     merkle_tree(merkle_tree&& other) noexcept
-            : data_(std::move(other.data_)) { }
+    {
+        std::unique_lock lck{other.mutex_};
+        data_ = std::move(other.data_);
+    }
 
     merkle_tree& operator=(const merkle_tree& other)
     {
-- 
2.43.0


From 90df97bc31a6525465d37a9e38552d9931d307a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 21/76] fix: merkle_tree::has_root did not compile and did not
 lock

---
 include/dottorrent/merkle_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 5cc496b..650f141 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -92,8 +92,9 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root() const
     {
+        std::shared_lock lck{mutex_};
         return data_[0] != value_type{};
     }
 
-- 
2.43.0


From de44e5ffef23d754a22c6a641b821d4e2f193500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:34 +0000
Subject: [PATCH 22/76] fix: merkle_tree::set_node read the node count without
 the lock

---
 include/dottorrent/merkle_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 650f141..bd15a77 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -233,8 +233,8 @@ private:
         Expects(index < nodes_in_layer(layer));
 
         auto flat_index = get_flat_index(layer, index);
-        Expects(flat_index <= data_.size());
         std::unique_lock lck{mutex_};
+        Expects(flat_index < data_.size());
         data_[flat_index] = value;
     }
 
-- 
2.43.0


From 26b1908ab25b80fa19a74b3308f64fc54f80a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:28 +0000
Subject: [PATCH 23/76] fix: the hash functors of announce urls must be
 callable on const objects

---
 include/dottorrent/announce_url.hpp      | 2 +-
 include/dottorrent/announce_url_list.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/announce_url.hpp b/include/dottorrent/announce_url.hpp
index e176954..1ecbd3d 100644
--- a/include/dottorrent/announce_url.hpp
+++ b/include/dottorrent/announce_url.hpp
@@ -81,7 +81,7 @@ struct tuple_element<N, dottorrent::announce_url> {
 template <>
 class hash<dottorrent::announce_url> {
 public:
-    std::size_t operator()(const dottorrent::announce_url& value) {
+    std::size_t operator()(const dottorrent::announce_url& value) const {
         return std::hash<std::size_t>{}(value.tier) ^ std::hash<std::string>{}(value.url);
     }
 };
diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 99c19a0..b3aa752 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -275,7 +275,7 @@ namespace std
 template <>
 class hash<dottorrent::announce_url_list> {
 public:
-    std::size_t operator()(const dottorrent::announce_url_list& value) {
+    std::size_t operator()(const dottorrent::announce_url_list& value) const {
         std::size_t hash = std::hash<std::size_t>{}(value.size());
 
         for (const dottorrent::announce_url& a: value) {
-- 
2.43.0


From c50be0addd4b1a73ebe49a60820967ec3cd38538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:44 +0000
Subject: [PATCH 24/76] fix: merkle_tree::get_layer read the nodes without the
 lock

---
 include/dottorrent/merkle_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index bd15a77..44679c5 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -173,6 +173,7 @@ public:
     std::span<const value_type> get_layer(std::size_t depth, std::size_t root_idx = 0)
     {
         Ensures(depth <= tree_height());
+        std::shared_lock lck{mutex_};
         auto begin = std::next(data_.cbegin(), get_flat_index(depth, root_idx));
         return std::span<const value_type>(&*begin, nodes_in_layer(depth));
     }
-- 
2.43.0


From 1656ea68a520a780a00e8a87c0a61afbbda52e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 25/76] fix: asking an info hash for a part it does not have
 read an empty optional

---
 include/dottorrent/info_hash.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..9f025de 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -92,9 +92,9 @@ public:
 
         switch (protocol_version) {
         case protocol::v1:
-            return std::string_view(*v1_hash_);
+            return std::string_view(v1_hash_.value());
         case protocol::v2:
-            return std::string_view(*v2_hash_);
+            return std::string_view(v2_hash_.value());
         default:
             throw std::invalid_argument("only v1 or v2 allowed");
         }
@@ -107,20 +107,20 @@ public:
         return to_hexadecimal_string(std::span(reinterpret_cast<const std::byte*>(binary.data()), binary.size()));
     }
 
-    const sha1_hash& v1() const noexcept
+    const sha1_hash& v1() const
     {
-        return *v1_hash_;
+        return v1_hash_.value();
     }
 
-    const sha256_hash& v2() const noexcept
+    const sha256_hash& v2() const
     {
-        return *v2_hash_;
+        return v2_hash_.value();
     }
 
     [[nodiscard]]
-    sha1_hash truncated_v2() const noexcept
+    sha1_hash truncated_v2() const
     {
-        return sha1_hash(std::string_view(*v2_hash_).substr(0, sha1_hash::size_bytes));
+        return sha1_hash(std::string_view(v2_hash_.value()).substr(0, sha1_hash::size_bytes));
     }
 
     // Infohashes are only equal if they contain the exact same informatino.
-- 
2.43.0


From 49a5bb3b8ee3ab05838661bb5346281953e336cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 26/76] fix: ordering of hybrid info hashes ignored the v1 part

---
 include/dottorrent/info_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 9f025de..b00faec 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -139,8 +139,8 @@ public:
             return protocol_version_ <=> other.protocol_version_;
         }
 
-        if (protocol_version_ == protocol::v1) {
-            return v1_hash_ <=> other.v1_hash_;
+        if (auto v1_cmp = v1_hash_ <=> other.v1_hash_; v1_cmp != std::strong_ordering::equal) {
+            return v1_cmp;
         }
         return v2_hash_ <=> other.v2_hash_;
     }
-- 
2.43.0


From 52f81278c8246c28fa8111ee29e90dfae86f752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 27/76] fix: the hash code of a hybrid info hash ignored its v2
 part

---
 include/dottorrent/info_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index b00faec..9c23949 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -169,8 +169,8 @@ struct hash<dottorrent::info_hash>
             return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));
         }
         case dottorrent::protocol::hybrid: {
-            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) |
-                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));
+            return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) ^
+                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));
         }
         default:
             return 0;
-- 
2.43.0


From a6959ebb5eca92ae4066d370f44e801a05c5e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 28/76] fix: generic_checksum wrote text values past the end of
 an empty vector

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..6a5b289 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -64,7 +64,7 @@ public:
             , key_(key)
     {
         data_.reserve(value.size());
-        std::transform(std::begin(value), std::end(value), std::begin(data_),
+        std::transform(std::begin(value), std::end(value), std::back_inserter(data_),
                 [](char i) { return std::byte(i); });
     }
 
-- 
2.43.0


From 85f02039ba5fca9fe1bff86a005d487a916db002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 29/76] fix: take the checksums from the source in file_entry's
 move assignment

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..37abd00 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
-- 
2.43.0


From b58343306dad231b7fa1faf729cb5898f9df7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 30/76] fix: copy the file mode and regular size of a
 file_storage and invalidate the index on assignment

---
 src/file_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..f8a3ed2 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -14,10 +16,13 @@ file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
+    index_valid_ = false;
 
     return *this;
 }
-- 
2.43.0


From a6eab19e5f19f944f1761995d7f3c4586a6d48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 31/76] fix: initialise file_storage::index_valid_

---
 include/dottorrent/file_storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..b7c896d 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -260,7 +260,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
-- 
2.43.0


From 7f0476d8bcc8022cf2516e76aa6be768d6b9c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 32/76] fix: reset the regular file size when clearing a
 file_storage

---
 include/dottorrent/file_storage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index b7c896d..e032302 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -96,6 +96,7 @@ public:
         index_valid_ = false;
         files_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
-- 
2.43.0


From 8ac6c0c939e4f4525e89796e18a31b4d12e690d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 33/76] fix: initialise metafile::protocol_

---
 include/dottorrent/metafile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/metafile.hpp b/include/dottorrent/metafile.hpp
index 364cb8a..2c2a740 100644
--- a/include/dottorrent/metafile.hpp
+++ b/include/dottorrent/metafile.hpp
@@ -160,7 +160,7 @@ public:
     bool operator==(const metafile& other) const = default;
 
 private:
-    enum protocol protocol_;
+    enum protocol protocol_ = protocol::none;
     file_storage storage_;
 
     announce_url_list announce_list_;
-- 
2.43.0


From e70f1c3a14d97642f8215d094fe9058ca8b363ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 34/76] fix: initialise magnet_uri::size_

---
 include/dottorrent/magnet_uri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d01d6f2..88d9c66 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -177,7 +177,7 @@ private:
     //dn	Display Name	A filename to display to the user, for convenience.
     std::string display_name_;
     //xl	eXact Length	Size (in bytes)
-    std::size_t size_;
+    std::size_t size_ = 0;
     //xt	eXact Topic	URN containing file hash.
     // This is the most crucial part of the magnet link, and is used to find and verify the specified file.
     // The URN is specific to the protocol, so a file hash URN under btih (BitTorrent) would be completely different than the file hash URN for ed2k
-- 
2.43.0


From da25ed9684f146df5c50da5f22253bd8e1978384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 35/76] fix: initialise dht_node::port

---
 include/dottorrent/dht_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/dht_node.hpp b/include/dottorrent/dht_node.hpp
index b4cf177..c8ea702 100644
--- a/include/dottorrent/dht_node.hpp
+++ b/include/dottorrent/dht_node.hpp
@@ -10,7 +10,7 @@ namespace dottorrent {
 struct dht_node
 {
     std::string url;
-    std::uint16_t port;
+    std::uint16_t port{};
 
     dht_node() noexcept = default;
     dht_node(std::string_view url, std::uint16_t port)
-- 
2.43.0


From 408b71f5a2f67eb2f8c8f5301be0f75cb9131fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 36/76] fix: initialise the indices of hashed pieces

---
 include/dottorrent/hashed_piece.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/hashed_piece.hpp b/include/dottorrent/hashed_piece.hpp
index 7b79555..305547a 100644
--- a/include/dottorrent/hashed_piece.hpp
+++ b/include/dottorrent/hashed_piece.hpp
@@ -7,14 +7,14 @@ namespace dottorrent {
 struct v1_hashed_piece
 {
     sha1_hash hash;
-    std::size_t index;
+    std::size_t index{};
 };
 
 struct v2_hashed_piece
 {
     sha256_hash hash;
-    std::size_t file_index;
-    std::size_t leaf_index;
+    std::size_t file_index{};
+    std::size_t leaf_index{};
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From 4653bed63fb7b07fcd6d2b90491e91598a19a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 37/76] fix: initialise file_progress_data

---
 include/dottorrent/file_progress_data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/file_progress_data.hpp b/include/dottorrent/file_progress_data.hpp
index 9eb2b3b..c2bb67f 100644
--- a/include/dottorrent/file_progress_data.hpp
+++ b/include/dottorrent/file_progress_data.hpp
@@ -8,9 +8,9 @@ namespace dottorrent {
 struct file_progress_data
 {
     /// The index of the current file being hashed
-    std::size_t file_index;
+    std::size_t file_index{};
     /// The number of bytes of the file that are processed.
-    std::size_t bytes_hashed;
+    std::size_t bytes_hashed{};
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From 9f3532397a5eaaff54cddc8dc7c31927119fac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 38/76] fix: initialise merkle node positions

---
 include/dottorrent/merkle_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 44679c5..524ef97 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -13,8 +13,8 @@ namespace dottorrent {
 namespace detail {
 struct merkle_node_position
 {
-    std::uint32_t layer;
-    std::uint32_t index;
+    std::uint32_t layer{};
+    std::uint32_t index{};
 };
 }
 
-- 
2.43.0


From 81143624cb93be7a3657150465796501b1c2d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 39/76] fix: return the iterator to the inserted element from
 announce_url_list::insert and emplace

---
 include/dottorrent/announce_url_list.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index b3aa752..3bcbb55 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -114,8 +114,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, announce);
-        return it;
+        return announce_list_.insert(it, announce);
     }
 
     auto insert(announce_url&& announce)
@@ -123,8 +122,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, std::move(announce));
-        return it;
+        return announce_list_.insert(it, std::move(announce));
     }
 
     auto emplace(std::string_view url, std::size_t tier)
@@ -133,8 +131,7 @@ public:
 
         auto [begin, end] = get_tier(tier);
         auto it = std::upper_bound(begin, end, url, url_comparator);
-        announce_list_.emplace(it, url, tier);
-        return it;
+        return announce_list_.emplace(it, url, tier);
     }
 
     auto erase(iterator pos)
-- 
2.43.0


From b8601ed28bc39c095840290da571a366eed7f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:11 +0000
Subject: [PATCH 40/76] fix: sort the urls of each tier when an
 announce_url_list is built from a list

---
 include/dottorrent/announce_url_list.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 3bcbb55..78c03b1 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -26,12 +26,12 @@ public:
     {
         std::size_t tier = 0;
         for (const auto& level : il) {
+            std::vector<announce_url> tmp {};
             for (const auto& url : level) {
-                std::vector<announce_url> tmp {};
                 tmp.emplace_back(url, tier);
-                rng::sort(tmp, url_comparator);
-                rng::move(tmp, std::back_inserter(announce_list_));
             }
+            rng::sort(tmp, url_comparator);
+            rng::move(tmp, std::back_inserter(announce_list_));
             ++tier;
         }
     }
-- 
2.43.0


From 748d9d1c03d4e7b648c2cdf6d80c59b7c79ec0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:30 +0000
Subject: [PATCH 41/76] fix: write magnet keywords under their parameter name
 and end the loop over them

The keywords were appended to the previous parameter, and with two or more
of them the encoder never returned.
---
 include/dottorrent/magnet_uri.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 88d9c66..4899e8c 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -273,11 +273,12 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
     // keywords
     if (!magnet.keywords().empty()) {
         auto it = magnet.keywords().begin();
+        rng::copy("&kt="sv, out);
         rng::copy(detail::percent_encode(*it++), out);
 
         while (it != magnet.keywords().end()) {
             *out++ = '+';
-            rng::copy(detail::percent_encode(*it), out);
+            rng::copy(detail::percent_encode(*it++), out);
         }
     }
 
-- 
2.43.0


From be4c64b7477536768cc1a372b76b8a0ad8cf2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:30 +0000
Subject: [PATCH 42/76] fix: split magnet keywords before decoding them

A keyword with an encoded plus sign was restored as two keywords.
---
 src/magnet_uri.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 73bcb94..2a20b11 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -107,10 +107,9 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_exact_source(detail::percent_decode(value));
         }
         else if (key == "kt") {
-            auto keywords_string = detail::percent_decode(value);
-            auto keywords = detail::split_keywords_string(keywords_string);
+            auto keywords = detail::split_keywords_string(value);
             for (auto kw : keywords) {
-                result.add_keyword(kw);
+                result.add_keyword(detail::percent_decode(kw));
             }
         }
         else if (key == "mt") {
-- 
2.43.0


From a016872a45e31293a8a22c9d3d5863a563785e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:30 +0000
Subject: [PATCH 43/76] fix: accept magnet links that start with a parameter
 separator

The encoder writes such links when there is no topic, and the parser
rejected the empty first part.
---
 src/magnet_uri.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 2a20b11..e0ea4e6 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -75,6 +75,10 @@ magnet_uri make_magnet_uri(std::string_view uri)
     auto query_parts = detail::split_query_string(query_string);
 
     for (auto part: query_parts) {
+        // a link without topics starts with a separator
+        if (part.empty()) {
+            continue;
+        }
         auto [key, value] = detail::split_key_value_pair(part);
 
         if (key == "dn") {
-- 
2.43.0


From 3af43e65203c7ee39c83a0524461480f39eeeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:44 +0000
Subject: [PATCH 44/76] fix: openssl::evp_errc did not convert to
 std::error_code

is_error_code_enum was specialised with private inheritance, so the trait's value
was not accessible and the conversion did not take part in overload resolution.
---
 include/dottorrent/hasher/backends/openssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hasher/backends/openssl.hpp b/include/dottorrent/hasher/backends/openssl.hpp
index 587e0a1..8bbde99 100644
--- a/include/dottorrent/hasher/backends/openssl.hpp
+++ b/include/dottorrent/hasher/backends/openssl.hpp
@@ -264,7 +264,7 @@ xts_duplicated_keys                             = EVP_R_XTS_DUPLICATED_KEYS,
 
 namespace std {
 template <>
-class is_error_code_enum<openssl::evp_errc> : std::true_type { };
+class is_error_code_enum<openssl::evp_errc> : public std::true_type { };
 }
 
 namespace openssl {
-- 
2.43.0


From af8dc21e5b81cecc8e3f7c0991ca8162c7329e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 45/76] fix: a metafile without an info dictionary ended the
 program

The parsing functions assert that their input is a dictionary with an info field;
nothing checked that before they were called.
---
 src/metafile_parsing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..a4de273 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -836,6 +836,14 @@ namespace bc = bencode;
 template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
+    // The functions below require a dictionary with an info dictionary.
+    if (!bc::holds_dict(data)) {
+        throw parse_error("metafile is not a dictionary");
+    }
+    if (!get_dict(data).contains("info")) {
+        throw parse_error("info", "missing field");
+    }
+
     metafile m{};
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
-- 
2.43.0


From 7593b4c1d2952241b5e948b16234e0319695c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 46/76] fix: a malformed DHT node in a metafile ended the
 program

A port that does not fit was truncated silently.
---
 src/metafile_parsing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index a4de273..bbf93a3 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -213,10 +213,14 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
-                m.add_dht_node(
-                        get_string(tuple[0]),
-                        get_integer(tuple[1]));
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a list of host and port");
+                }
+                const auto port = get_integer(tuple[1]);
+                if (port < 0 || port > 65535) {
+                    throw parse_error(key, "port out of range");
+                }
+                m.add_dht_node(get_string(tuple[0]), static_cast<std::uint16_t>(port));
             }
         }
     } catch (bencode::bad_access& e) {
-- 
2.43.0


From 1adaf73b0adb0e05838393364cee75a97f748f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 47/76] fix: a file list with entries or paths of the wrong
 type ended the program

---
 src/metafile_parsing.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index bbf93a3..e302f83 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -366,7 +366,9 @@ void parse_other_info_fields(const T& data, metafile& m)
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
+    if (!holds_list(data)) {
+        throw parse_error("path", "expected a list of path components");
+    }
 
     fs::path p{};
     auto& blist = get_list(data);
@@ -397,7 +399,9 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
-    Expects(holds_dict(data));
+    if (!holds_dict(data)) {
+        throw parse_error("files", "expected a dictionary");
+    }
 
     const auto& file_dict = get_dict(data);
     fs::path path {};
-- 
2.43.0


From d01d6c4475d2640846e8dbf24d2e741392d21890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 48/76] fix: the target of a symlink was assigned through an
 empty optional

---
 src/metafile_parsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index e302f83..0a5ec90 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -432,7 +432,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     std::optional<fs::path> symlink = std::nullopt;
 
     if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(std::move(path), size, attributes, symlink);
@@ -487,7 +487,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     std::optional<fs::path> symlink = std::nullopt;
 
     if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(path, size, attributes, symlink);
-- 
2.43.0


From f4b784048a10f03e24e1ec74415494a4d62582ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 49/76] fix: a negative file length was taken for a huge one

---
 src/metafile_parsing.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 0a5ec90..181923d 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -423,7 +423,11 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    const auto length = bencode::get_integer(length_field_it->second);
+    if (length < 0) {
+        throw parse_error("length", "expected a non-negative integer");
+    }
+    std::size_t size = length;
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
@@ -466,7 +470,11 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = get_integer(length_field_it->second);
+    const auto length = get_integer(length_field_it->second);
+    if (length < 0) {
+        throw parse_error("length", "expected a non-negative integer");
+    }
+    std::size_t size = length;
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
-- 
2.43.0


From 95445eb691f276a4124bd99b48daa57f5756b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 50/76] fix: negative values of the private field were accepted

---
 src/metafile_parsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 181923d..ba5c989 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -81,7 +81,7 @@ void parse_private(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto v = get_integer(it->second);
-            if (v > 1) {
+            if (v != 0 && v != 1) {
                 throw parse_error(key, fmt::format("expected integer equal to '0' or '1'"));
             }
             m.set_private(bool(v));
-- 
2.43.0


From 36bcf5ff634fc763fcaf385cb14448b52a5436c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 51/76] fix: an invalid piece length in a metafile ended the
 program

---
 src/metafile_parsing.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index ba5c989..f4a7a96 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -684,7 +684,11 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto piece_length = get_integer(it->second);
+        if (piece_length < 16 * 1024 || !std::has_single_bit(static_cast<std::size_t>(piece_length))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(static_cast<std::size_t>(piece_length));
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
-- 
2.43.0


From 5c2c1c3fbfd4b0142016bbf516d86f825bcde9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 52/76] fix: a piece string of the wrong length ended the
 program or was accepted

More hashes than pieces hit the assertion in set_piece_hash, with fewer the
remaining hashes stayed zero.
---
 src/metafile_parsing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index f4a7a96..5b518dd 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -661,6 +661,9 @@ void parse_pieces_v1(const T& data, metafile& m)
         auto piece_string = get_string(it->second);
         auto piece_count = piece_string.size() / 20;
 
+        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {
+            throw parse_error("pieces", "length does not match the number of pieces");
+        }
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
-- 
2.43.0


From 1626999ee00087e1ef72e67e7defab77969a3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 53/76] fix: a hybrid metafile with different v1 and v2 file
 lists was read past the end

---
 src/metafile_parsing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 5b518dd..33cfeab 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -638,6 +638,9 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
 
     for (auto& v2_entry : v2_entries) {
         auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        if (it == storage.end()) {
+            throw parse_error("file tree", "file is missing from the v1 file list");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
-- 
2.43.0


From 9b5f2612c98f57d096c278edfc653ad58f8b14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 54/76] fix: an empty tier in an announce list ended the
 program

add_tracker asserts that tiers have no gaps; an empty tier, or one whose only
tracker is named again in a later tier, left such a gap.
---
 src/metafile_parsing.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 33cfeab..97fe7a7 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,14 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // tiers are numbered without gaps, empty ones do not count.
+                const std::size_t tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
                     m.add_tracker(announce_url{s, tier});
-                    ++item;
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From 4eddf123a331632c6d56a34f9073d18b76b42e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 55/76] fix: a metafile with an inconsistent symlink ended the
 program

The attributes and the size of a file entry come straight from the input.
---
 src/file_entry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 37abd00..d8cc060 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -17,8 +17,12 @@ file_entry::file_entry(fs::path path, std::size_t file_size, std::optional<file_
 {
     // Check invariants
     if (is_symlink()) {
-        Ensures(symlink_path_.has_value());
-        Ensures(file_size_ == 0);
+        if (!symlink_path_.has_value()) {
+            throw std::invalid_argument("symlink without a target");
+        }
+        if (file_size_ != 0) {
+            throw std::invalid_argument("symlink with a size");
+        }
     }
 }
 
-- 
2.43.0


From 57be15e7340dc61d404394a96d97ff1b5c1b24fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:38 +0000
Subject: [PATCH 56/76] fix: paths of a metafile could leave the download
 directory

Names and path components were used as they are, so "..", absolute paths and
empty components reached the file list.
---
 src/metafile_parsing.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 97fe7a7..f0da76e 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -11,6 +11,20 @@ namespace bc = bencode;
 
 using namespace std::string_view_literals;
 
+/// Path components of a metafile must name an entry of the directory they are used in.
+static void check_path_component(std::string_view component, std::string_view key)
+{
+    if (component.empty() || component == "." || component == "..") {
+        throw parse_error(key, "invalid path component");
+    }
+    if (component.find('/') != std::string_view::npos ||
+        component.find(static_cast<char>(fs::path::preferred_separator)) != std::string_view::npos ||
+        component.find('\0') != std::string_view::npos)
+    {
+        throw parse_error(key, "path component with a directory separator or null character");
+    }
+}
+
 template <bc::bvalue_or_bview T>
 void parse_announce(const T& data, metafile& m)
 {
@@ -300,6 +314,7 @@ void parse_name(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto& desc = get_string(it->second);
+            check_path_component(desc, key);
             m.set_name(desc);
         }
     }
@@ -369,8 +384,13 @@ fs::path parse_path(const T& data)
 
     fs::path p{};
     auto& blist = get_list(data);
+    if (blist.empty()) {
+        throw parse_error("path", "empty path");
+    }
     for (auto& path_component : blist) {
-        p /= bc::get_as<std::string_view>(path_component);
+        const auto component = bc::get_as<std::string_view>(path_component);
+        check_path_component(component, "path");
+        p /= component;
     }
     return p;
 }
@@ -413,7 +433,9 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         if (name_field_it == file_dict.end()) {
             throw parse_error("name", "missing file name");
         }
-        path = bencode::get_as<std::string_view>(name_field_it->second);
+        const auto name = bencode::get_as<std::string_view>(name_field_it->second);
+        check_path_component(name, "name");
+        path = name;
     }
 
     auto length_field_it = file_dict.find("length");
@@ -585,6 +607,9 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
 
             // leaf node : a file
             if (key == "") {
+                if (path_components.size() < 2) {
+                    throw parse_error("file tree", "file without a name");
+                }
                 fs::path file_path{};
                 for (const auto& component : path_components) {
                     file_path.append(component);
@@ -594,6 +619,7 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
                 *out++ = std::move(entry);
             }
             else {
+                check_path_component(key, "file tree");
                 frames.push(frame_type(value, value.begin()));
                 path_components.push_back(std::string(key));
             }
-- 
2.43.0


From 092c119d12dc7bd166aa0d134a4936ec4f1c7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 57/76] fix: symlink targets were read under a key that is
 never written

---
 src/metafile_parsing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index f0da76e..e8fd329 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -454,7 +454,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     // symlinks
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
         symlink = parse_path(it->second);
     }
 
@@ -513,7 +513,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     // symlink
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
         symlink = parse_path(it->second);
     }
 
-- 
2.43.0


From 37cd6bf0181601f092327d8f6b6161d0728d8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 58/76] fix: attributes, link target and checksums of a single
 file were not written

---
 src/metafile_serialization.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..94e3c43 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -18,6 +18,16 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -163,6 +173,16 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From cb783e6310ab225cf5eb8c416f7a79bf1cb869c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 59/76] fix: checksums were not written to the file tree of a
 hybrid metafile

---
 src/metafile_serialization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 94e3c43..6b713c2 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -247,6 +247,11 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         if (file.is_symlink()) {
             file_info["symlink path"] = file.symlink_path().value();
         }
+
+        for (const auto& [algo, checksum] : file.checksums()) {
+            file_info[algo] = checksum->value();
+        }
+
         ptr->insert_or_assign("", file_info);
         // reset ptr to root of file tree
         ptr = &file_tree;
-- 
2.43.0


From ad1f6aaa4b2b2717a23d62561ff37c3b86a50dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 60/76] fix: the file name of a hybrid single file metafile was
 overwritten by the name of the storage

---
 src/metafile_serialization.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 6b713c2..bea4368 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -259,11 +259,14 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single file metafile is the name of the file
+    if (storage.file_mode() != file_mode::single) {
+        if (m.name().empty()) {
+            info.insert_or_assign("name", storage.root_directory().filename().string());
+        }
+        else {
+            info.insert_or_assign("name", m.name());
+        }
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From 790f5c7f047f2ab23f6a01e42e1d8799b3ddec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:01 +0000
Subject: [PATCH 61/76] fix: missing and padding files did not count as read in
 the v1 reader

---
 src/v1_chunk_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..7c0e5fa 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -92,6 +92,7 @@ void v1_chunk_reader::handle_missing_file()
 
     // the number of missing bytes
     auto missing_file_size = storage.at(file_index_).file_size();
+    bytes_read_.fetch_add(missing_file_size, std::memory_order_relaxed);
 
     // fill current pieces in this chunk with zero bytes.
     if (chunk_offset_ != 0) {
-- 
2.43.0


From 395effa121cf81f4fa5fa0b551abaf0adf9e441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:42 +0000
Subject: [PATCH 62/76] fix: the v2 reader pushed a chunk before looking at the
 outcome of the read

---
 src/v2_chunk_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..158a1d8 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -47,6 +47,10 @@ void v2_chunk_reader::run()
             f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
             current_chunk_size_ = f_.gcount();
 
+            if (f_.fail() && !f_.eof()) {
+                throw std::runtime_error(
+                        fmt::format("I/O error reading: {}", file_entry.path().string()));
+            }
             chunk->resize(current_chunk_size_);
             bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
 
@@ -63,10 +67,6 @@ void v2_chunk_reader::run()
             piece_index_ += pieces_per_chunk;
 
             if (f_.eof()) break;
-            if (f_.fail()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
-- 
2.43.0


From 07b1be4b02d8fc0ae4378d085be5946706fa2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:42 +0000
Subject: [PATCH 63/76] fix: the v2 reader pushed an empty chunk after a file
 that ends with a full chunk

---
 src/v2_chunk_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index 158a1d8..b4a26a0 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -51,6 +51,9 @@ void v2_chunk_reader::run()
                 throw std::runtime_error(
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
+            // the file ends at the end of the previous chunk
+            if (current_chunk_size_ == 0 && piece_index_ != 0) break;
+
             chunk->resize(current_chunk_size_);
             bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
 
-- 
2.43.0


From 5e2a5a0467d4a12f8bf733b2e70314ef169f5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:42 +0000
Subject: [PATCH 64/76] fix: serialize_json_to wrote to the standard output

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..599f3b8 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -335,7 +335,7 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 /// Write a json representation of the metafile to `os`.
 void serialize_json_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::events::encode_json_to to_json(std::cout);
+    bencode::events::encode_json_to to_json(os);
     if (protocol_version == protocol::v1) {
         bc::connect(to_json, detail::make_bvalue_v1(m));
     }
-- 
2.43.0


From 0fb4b6990837bd8464afdb11e2b5c73199395b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:42 +0000
Subject: [PATCH 65/76] fix: load_metafile did not notice that the file could
 not be opened

---
 src/metafile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 599f3b8..ae6abc5 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -318,6 +318,9 @@ void write_metafile_to(std::ostream& os, const metafile& m, protocol protocol_ve
 metafile load_metafile(const std::filesystem::path& path)
 {
     std::ifstream ifs(path, std::ios::binary);
+    if (!ifs) {
+        throw std::runtime_error("could not open " + path.string());
+    }
     auto buffer = std::string(
             std::istreambuf_iterator{ifs},
             std::istreambuf_iterator<char>{});
-- 
2.43.0


From fe853b70fde7066307033fabdaa02b3503807cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:42 +0000
Subject: [PATCH 66/76] fix: failures to write a metafile were not reported

---
 src/metafile.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index ae6abc5..23ab7c5 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -298,20 +298,12 @@ std::string write_metafile(const metafile& m, protocol protocol_version)
 
 void write_metafile_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::bvalue bv;
+    const auto data = write_metafile(m, protocol_version);
+    os.write(data.data(), static_cast<std::streamsize>(data.size()));
 
-    if (protocol_version == protocol::v1) {
-        bv = detail::make_bvalue_v1(m);
-    }
-    else if (protocol_version == protocol::v2) {
-        bv = detail::make_bvalue_v2(m);
+    if (!os) {
+        throw std::runtime_error("could not write metafile");
     }
-    else if (protocol_version == (protocol::v2 | protocol::v1)) {
-        bv = detail::make_bvalue_hybrid(m);
-    } else {
-        throw std::invalid_argument("unrecognised protocol version");
-    }
-    bencode::encode_to(std::ostreambuf_iterator{os}, bv);
 }
 
 
@@ -333,6 +325,11 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 {
     std::ofstream ofs(path, std::ios::binary);
     write_metafile_to(ofs, m, protocol_version);
+    ofs.close();
+
+    if (!ofs) {
+        throw std::runtime_error("could not write " + path.string());
+    }
 }
 
 /// Write a json representation of the metafile to `os`.
@@ -364,6 +361,10 @@ void dump_file(const metafile& m, const fs::path& dst)
     std::ofstream file(dst, std::ios::binary);
     write_metafile_to(file, m);
     file.close();
+
+    if (!file) {
+        throw std::runtime_error("could not write " + dst.string());
+    }
 }
 
 /// Returns the v1 info hash.
-- 
2.43.0


From d9c509b27e5afed84c9147347034d0e57c3bf124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 67/76] fix: cancel the stages of a job from producer to
 consumer

Cancelling all stages at once lets the hashers leave while the reader still
waits for room in their queue, and the reader is then waited for forever.
---
 src/storage_hasher.cpp   | 11 ++++++-----
 src/storage_verifier.cpp | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..bc5a2ed 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -167,16 +167,17 @@ void storage_hasher::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // Cancel all tasks from producer to consumer: a task must keep emptying
+    // its queue until the tasks that push to it are finished.
     reader_->request_cancellation();
+    reader_->wait();
+
     hasher_->request_cancellation();
     for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
-    verifier_->request_cancellation();
-
-    // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     for (auto& ch : checksum_hashers_) { ch->wait(); }
+
+    verifier_->request_cancellation();
     verifier_->wait();
 
     cancelled_ = true;
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..85c0697 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -139,14 +139,15 @@ void storage_verifier::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // Cancel all tasks from producer to consumer: a task must keep emptying
+    // its queue until the tasks that push to it are finished.
     reader_->request_cancellation();
-    hasher_->request_cancellation();
-    verifier_->request_cancellation();
-
-    // wait for all tasks to complete
     reader_->wait();
+
+    hasher_->request_cancellation();
     hasher_->wait();
+
+    verifier_->request_cancellation();
     verifier_->wait();
 
     cancelled_ = true;
-- 
2.43.0


From 445a59d2c34abe77e150267a34d4f3ee021bfdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 68/76] fix: do not require a cancelled v1 reader to have read
 every piece

---
 src/v1_chunk_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 7c0e5fa..e6011ce 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -79,7 +79,7 @@ void v1_chunk_reader::run()
     }
 
     chunk_.reset();
-    Ensures(piece_index_ == storage.piece_count());
+    Ensures(cancelled_.load(std::memory_order_relaxed) || piece_index_ == storage.piece_count());
 }
 
 void v1_chunk_reader::handle_missing_file()
-- 
2.43.0


From 69a1d47e9f74f6b0a0239ab2dd637d8a2b8f1586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 69/76] fix: do not block on a full queue when waking workers

After a cancellation the workers leave without emptying the queue; pushing
wake-up items with a blocking push then waits forever.
---
 .../dottorrent/concurrent_queue_processor.hpp | 13 ++++++------
 src/chunk_processor_base.cpp                  | 21 +++++++++----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..636b264 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -74,15 +74,16 @@ public:
     {
         if (!started()) return;
 
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; i < threads_.size(); ++i) {
-            queue_->push(std::nullopt);
-        }
+        const auto all_done = [this] {
+            return std::all_of(done_.begin(), done_.end(),
+                    [](auto& b) { return b.load(std::memory_order_relaxed); });
+        };
 
         // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
+        // Never block here: the queue may be full and have no reader left.
+        while (!all_done()) {
             queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
 
         // should all be finished by now and ready to join
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..d6f5aa6 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,21 +36,20 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
-    for (auto i = 0; i < threads_.size(); ++i) {
-        queue_->push({
+    const auto all_done = [this] {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    };
+
+    // Wake threads that remain blocked on pop calls.
+    // Never block here: the queue may be full and have no reader left.
+    while (!all_done()) {
+        queue_->try_push({
                 std::numeric_limits<std::uint32_t>::max(),
                 std::numeric_limits<std::uint32_t>::max(),
                 nullptr
         });
-    }
-
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
 
     // should all be finished by now and ready to join
-- 
2.43.0


From 29852eef7a9fb0511612abc1ceac3a3afbbb5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:52 +0000
Subject: [PATCH 70/76] fix: do not require a cancelled queue processor to have
 no work left

---
 include/dottorrent/concurrent_queue_processor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 636b264..c0dc8d9 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -160,7 +160,7 @@ private:
         // Remaining pieces should all be empty
         if (queue_->size() != 0) {
             while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
+                Ensures(cancelled_.load(std::memory_order_relaxed) || !item.has_value());
             }
         }
     }
-- 
2.43.0


From a5ac2c8e0ee9adddc4b04a207ec30b45f5bb54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 71/76] fix: copy symlinks only when all bits of the option are
 set

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index d8cc060..c7390b5 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -289,7 +289,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
+    if ((options & file_options::copy_symlinks) == file_options::copy_symlinks) {
         if (de.is_symlink()) {
             *attributes |= file_attributes::symlink;
             symlink_path = fs::read_symlink(file);
-- 
2.43.0


From d9ecade8663ba2ab67e2de69c480583516868f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 72/76] fix: accept files whose name starts with two dots

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index c7390b5..75f460b 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -260,7 +260,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 
     fs::path relative_file = file.lexically_relative(root_directory);
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (!relative_file.empty() && *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From bed0d2bd52c68adbb26858988fc30da9e03afcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 73/76] fix: do not take files of a directory with a longer
 name for contents of a directory

---
 src/file_storage.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index f8a3ed2..c4da66c 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -252,14 +252,22 @@ void file_storage::index() const {
     index_valid_ = true;
 }
 
+/// Check if a path lies inside a directory by comparing whole path components.
+static bool is_inside_directory(const fs::path& path, const fs::path& directory)
+{
+    auto last = directory.end();
+    // a trailing separator results in an empty last component
+    if (!directory.empty() && !directory.has_filename()) { --last; }
+    return std::mismatch(directory.begin(), last, path.begin(), path.end()).first == last;
+}
+
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
-    auto directory_string = directory.string();
 
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        return is_inside_directory(files_[index].path(), directory);
     });
 
     std::vector<const file_entry*> results;
@@ -301,10 +309,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
     std::set<std::string> directories {};
     std::set<std::string> padding_dir_candidates {};
 
-    auto root_string = root.string();
-
     for (const auto& f : storage) {
-        if (!root.empty() && !f.path().string().starts_with(root_string)) {
+        if (!root.empty() && !is_inside_directory(f.path(), root)) {
             continue;
         }
 
-- 
2.43.0


From d70cd7a7008982fcd6105ba895931841821dc19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 74/76] fix: count directories with the same name in different
 parents separately

---
 src/file_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index c4da66c..b550dee 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -320,7 +320,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
         auto last = std::next(f.path().end(), -1);
 
         while (it != last) {
-            auto dir = (current_dir / *it).string();
+            current_dir /= *it;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
             it++;
-- 
2.43.0


From 08388117a836a83e6815ddcc6ee697ea842d8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 75/76] fix: include the last piece of files that do not start
 at a piece boundary

---
 src/file_storage.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b550dee..b0d1748 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -216,8 +216,11 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             [&](const file_entry& e) { return e.file_size(); });
 
     auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    // empty files have no pieces
+    if (entry.file_size() == 0) return {offset, offset};
+
+    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {offset, last};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From d6b5088e7b86b6a704ac8f3d73a0953953a1e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:01 +0000
Subject: [PATCH 76/76] fix: drop piece hashes and layers when the piece size
 changes

---
 src/file_storage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b0d1748..439d5d9 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -134,6 +134,10 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+
+    // hashes computed with another piece size are no longer valid
+    pieces_.clear();
+    for (auto& entry : files_) { entry.piece_layer_.clear(); }
 }
 
 void file_storage::allocate_pieces()
@@ -144,7 +148,7 @@ void file_storage::allocate_pieces()
 
 const sha1_hash& file_storage::get_piece_hash(std::size_t index) const noexcept
 {
-    Expects(index < piece_count());
+    Expects(index < pieces_.size());
     return pieces_[index];
 }
 
-- 
2.43.0

