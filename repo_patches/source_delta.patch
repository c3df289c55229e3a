From 3577ab3dc673422f685c1dc5fa0a9303ff707199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 01/90] fix: hex digit lookup indexed its table with a negative
 char for bytes >= 0x80

---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..10577db 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
-- 
2.43.0


From 926990049952f81b5dff1ad28b1cb9bdab28387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 02/90] fix: from_hexadecimal_string(out, s) rejected bytes >=
 0x80, read past odd-length input and did not advance out

---
 include/dottorrent/hex.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 10577db..0dee4cf 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -93,17 +93,15 @@ inline constexpr void byte_to_hex_uppercase(std::byte c, char * __restrict out)
 template <std::output_iterator<std::byte> OutputIt>
 inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex_string)
 {
-    auto it = hex_string.data();
-    auto end = hex_string.data() + hex_string.size();
-    while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
-
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+    if (hex_string.size() % 2 != 0) [[unlikely]] {
+        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
+    }
+    for (std::size_t i = 0; i < hex_string.size(); i += 2) {
+        std::byte v {};
+        if (!detail::hex_to_byte(hex_string[i], hex_string[i + 1], v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        *out++ = v;
     }
 }
 
-- 
2.43.0


From 56ec4f21b80665cef9fa4c8f82d05db2cc32e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 03/90] fix: from_hexadecimal_string<N> ignored a trailing
 character of an odd-length string

---
 include/dottorrent/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 0dee4cf..d9dc67e 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -110,7 +110,7 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
     std::byte byte_value;
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
-- 
2.43.0


From 17811dc3bddd4fba6fbe86c2acca1e466118b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 04/90] fix: percent_encode did not advance output iterators
 that are not inserters

---
 include/dottorrent/percent_encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..af76859 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
-- 
2.43.0


From 235a57bdf65c54d69f03f426d9a2d5454d87e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 05/90] fix: percent_decode accepted truncated and
 non-hexadecimal escapes (emitting an uninitialised byte)

---
 include/dottorrent/percent_encoding.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index af76859..80dc40b 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -112,7 +112,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         char c = *first++;
 
         // We must start with copying the two hexadecimal character to the buffer
-        if (c == '%') {
+        if (c == '%' && !copy_to_buffer_status) {
             copy_to_buffer_status = true;
             continue;
         }
@@ -128,7 +128,9 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
             // full percent encoded character has been copied to buffer, decode it and reset status
             if (buffer_offset == 2) {
                 std::byte result;
-                dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result);
+                if (!dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result)) [[unlikely]] {
+                    return percent_decode_status::non_hex_encoded_character;
+                }
                 *out++ = static_cast<char>(result);
 
                 copy_to_buffer_status = false;
@@ -140,7 +142,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From 26d89c68341cc3ab36e351e957e087118de00836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:06 +0000
Subject: [PATCH 06/90] fix: to_hexadecimal_string(out, data) could not be
 instantiated

---
 include/dottorrent/hex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index d9dc67e..a602004 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -134,13 +134,13 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        out = std::copy_n(buf.data(), 2, out);
     }
     return out;
 }
-- 
2.43.0


From 62bc1034208505a38a9b41ce7a97e6442cd3af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:06 +0000
Subject: [PATCH 07/90] fix: concurrent_queue::try_push exceeded the capacity
 after it was lowered below the current size

---
 include/dottorrent/concurrent_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..fbc4625 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
-- 
2.43.0


From bd704a3e52a3c003b3f808f12904ba5cad5b96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:06 +0000
Subject: [PATCH 08/90] fix: concurrent_queue::set_capacity did not wake
 producers blocked on a full queue

---
 include/dottorrent/concurrent_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index fbc4625..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From 79be3fcafe047850379c20ba3847f1a4c46e5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 09/90] fix: openssl message_digest leaked its context when
 construction failed

---
 src/hasher/backends/openssl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..4b4f7c9 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -119,9 +119,11 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
     ::EVP_MD_CTX_init(context_);
 
     if (algorithm_context_ == nullptr) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
     }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
-- 
2.43.0


From f9f1727ef8164977a57f0904acd1e00d7d0ff129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 10/90] fix: openssl message_digest was copyable and freed its
 context twice

---
 include/dottorrent/hasher/backends/openssl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dottorrent/hasher/backends/openssl.hpp b/include/dottorrent/hasher/backends/openssl.hpp
index 36dc9d3..0af4255 100644
--- a/include/dottorrent/hasher/backends/openssl.hpp
+++ b/include/dottorrent/hasher/backends/openssl.hpp
@@ -316,6 +316,9 @@ class message_digest
 public:
     explicit message_digest(message_digest_algorithm algorithm, ::ENGINE* engine = nullptr);
 
+    message_digest(const message_digest&) = delete;
+    message_digest& operator=(const message_digest&) = delete;
+
     void update(std::span<const std::byte> data);
 
     void finalize_to(std::span<std::byte> digest);
-- 
2.43.0


From a1590cbf98dba109abf67332dd0bedabf5d8421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 11/90] fix: sha3_384 digests were declared 284 bits long and
 overflowed on hashing

---
 include/dottorrent/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..75e20e5 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 34c06261dea93cdc44926cd77338b84b48acae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:34 +0000
Subject: [PATCH 12/90] fix: aligned_allocator passed sizes that are not a
 multiple of the alignment to aligned_alloc

---
 include/dottorrent/aligned_allocator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/aligned_allocator.hpp b/include/dottorrent/aligned_allocator.hpp
index 492b31a..006fe5f 100644
--- a/include/dottorrent/aligned_allocator.hpp
+++ b/include/dottorrent/aligned_allocator.hpp
@@ -113,7 +113,12 @@ public:
 #ifdef USE_ALLIGED_MALLOC
         void * const pv = _aligned_malloc(n * sizeof(T), Alignment);
 #else
-        void * const pv = std::aligned_alloc(Alignment, n * sizeof(T));
+        // std::aligned_alloc requires the size to be a multiple of the alignment.
+        if (n > (static_cast<std::size_t>(-1) - (Alignment - 1)) / sizeof(T)) {
+            throw std::bad_alloc();
+        }
+        const std::size_t size = (n * sizeof(T) + Alignment - 1) / Alignment * Alignment;
+        void * const pv = std::aligned_alloc(Alignment, size);
 #endif
 
         // Allocators should throw std::bad_alloc in the case of memory allocation failure.
-- 
2.43.0


From d42984c918ee68174ac8a5e7dab369fd73e6f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:07 +0000
Subject: [PATCH 13/90] fix: generic_checksum built from characters wrote past
 its empty buffer and stayed empty

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..8a613d1 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -63,7 +63,7 @@ public:
             : data_()
             , key_(key)
     {
-        data_.reserve(value.size());
+        data_.resize(value.size());
         std::transform(std::begin(value), std::end(value), std::begin(data_),
                 [](char i) { return std::byte(i); });
     }
-- 
2.43.0


From 630a0a02426591b74e8b08b8afb39f86bc83090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:07 +0000
Subject: [PATCH 14/90] fix: ordering of hybrid info hashes ignored the v1 hash
 and contradicted equality

---
 include/dottorrent/info_hash.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..775507c 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -142,6 +142,9 @@ public:
         if (protocol_version_ == protocol::v1) {
             return v1_hash_ <=> other.v1_hash_;
         }
+        if (v1_hash_ != other.v1_hash_) {
+            return v1_hash_ <=> other.v1_hash_;
+        }
         return v2_hash_ <=> other.v2_hash_;
     }
 
-- 
2.43.0


From 69b8e1be8cba44e9bc761ce8271418bcd0244c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 15/90] fix: concurrent_queue_processor::wait could block for
 ever when wake-ups were taken by another worker or the queue was full

---
 .../dottorrent/concurrent_queue_processor.hpp | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..3c99828 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -75,14 +75,14 @@ public:
         if (!started()) return;
 
         // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; i < threads_.size(); ++i) {
-            queue_->push(std::nullopt);
+        // A finishing worker can discard the wake-up meant for another one and the queue can be full,
+        // so keep offering wake-ups until every worker has finished.
+        for (std::size_t i = 0; i < threads_.size() && !workers_done(); ++i) {
+            queue_->try_push(std::nullopt);
         }
-
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
+        while (!workers_done()) {
             queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
 
         // should all be finished by now and ready to join
@@ -109,9 +109,7 @@ public:
     /// Check if the hasher has completed all work or is cancelled.
     bool done() const noexcept
     {
-        bool all_done = std::all_of(done_.begin(), done_.end(),
-                [](auto& b) { return b.load(std::memory_order_relaxed); });
-        return cancelled() || (started() && all_done);
+        return cancelled() || (started() && workers_done());
     }
 
     std::shared_ptr<queue_type> get_queue()
@@ -129,6 +127,13 @@ public:
     }
 
 private:
+    /// Check if all workers have finished processing.
+    bool workers_done() const noexcept
+    {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    }
+
     void run(std::stop_token stop_token, int thread_idx)
     {
         Ensures(stop_token.stop_possible());
@@ -150,7 +155,7 @@ private:
         if (!cancelled_.load(std::memory_order_relaxed)) {
             while (queue_->try_pop(item)) {
                 if (!item.has_value())
-                    break;
+                    continue;
                 std::invoke(work_function_, std::move(*item));
             }
         }
-- 
2.43.0


From 5dc11e82df132882033bfa977f4ffb5e87165c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 16/90] fix: cancelling a concurrent_queue_processor with
 pending work terminated the program

---
 include/dottorrent/concurrent_queue_processor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 3c99828..9c01bad 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -161,10 +161,10 @@ private:
         }
         done_[thread_idx] = true;
 
-        // Remaining pieces should all be empty
+        // Remaining pieces should all be empty, unless pending work is discarded.
         if (queue_->size() != 0) {
             while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
+                Ensures(!item.has_value() || cancelled());
             }
         }
     }
-- 
2.43.0


From 7406974978d32eae76f25da32c261f0236fa3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:54 +0000
Subject: [PATCH 17/90] fix: destroying a cancelled concurrent_queue_processor
 blocked for ever or destroyed the queue under running workers

---
 include/dottorrent/concurrent_queue_processor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 9c01bad..e32bbe8 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -120,7 +120,8 @@ public:
 
     ~concurrent_queue_processor()
     {
-        if (started() && !done()) {
+        // join the workers before the queue they use is destroyed, also when cancelled.
+        if (started() && rng::any_of(threads_, &std::jthread::joinable)) {
             request_stop();
             wait();
         }
-- 
2.43.0


From be724de5a08c2bb3872808b677a8b6d38fba2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:16 +0000
Subject: [PATCH 18/90] fix: a minimum I/O block size that is not a multiple of
 the piece size terminated hashing and verification

---
 src/storage_hasher.cpp   | 5 +++++
 src/storage_verifier.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..69ab6b0 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -46,6 +46,11 @@ storage_hasher::storage_hasher(file_storage& storage, const storage_hasher_optio
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
  #endif
 
+    // chunks must contain a whole number of pieces
+    if (piece_size != 0) {
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+    }
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..b3a5977 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -41,6 +41,11 @@ storage_verifier::storage_verifier(file_storage& storage, const storage_verifier
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
 #endif
 
+    // chunks must contain a whole number of pieces
+    if (piece_size != 0) {
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+    }
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
-- 
2.43.0


From 15bbaeb5758b680a3538c169942171786fd4cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:16 +0000
Subject: [PATCH 19/90] fix: reading v1 pieces used the size of the file on
 disk (or of a symlink target) instead of the size of the file entry

---
 src/v1_chunk_reader.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..e457958 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -34,13 +34,22 @@ void v1_chunk_reader::run()
         // increment file index, file_index points to the next file now
         ++ file_index_;
 
+        // The file on disk can be shorter or longer than the file entry when verifying,
+        // or the target of a symlink. Always take up the space of the file entry.
+        std::size_t bytes_left = file_entry.file_size();
+
         while (! cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(std::next(chunk_->data(), chunk_offset_)),
-                    (chunk_size_-chunk_offset_)
-            );
+            const auto bytes_to_read = std::min(chunk_size_-chunk_offset_, bytes_left);
+            const auto first = std::next(chunk_->data(), chunk_offset_);
+            f_.read(reinterpret_cast<char*>(first), bytes_to_read);
+            const auto bytes_read = static_cast<std::size_t>(f_.gcount());
+            // replace missing data with zero bytes
+            std::fill_n(first+bytes_read, bytes_to_read-bytes_read, std::byte(0));
+
             file_offsets_.push_back(chunk_offset_);
-            chunk_offset_ += f_.gcount();
-            bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);
+            chunk_offset_ += bytes_to_read;
+            bytes_left -= bytes_to_read;
+            bytes_read_.fetch_add(bytes_read, std::memory_order_relaxed);
 
             if (chunk_offset_ == chunk_size_) [[likely]] {
                 // push chunk to consumers
@@ -58,9 +67,9 @@ void v1_chunk_reader::run()
                 // increment chunk index
                 piece_index_ += pieces_per_chunk;
             }
-            // eof reached
-            if (f_.eof())  [[unlikely]] break;
-            if (f_.fail()) [[unlikely]] {
+            // all data of this file is read
+            if (bytes_left == 0) [[unlikely]] break;
+            if (f_.fail() && !f_.eof()) [[unlikely]] {
                 throw std::runtime_error(
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
-- 
2.43.0


From dd5b2b50965ae7fd99cb964dae9a456fbd65d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:16 +0000
Subject: [PATCH 20/90] fix: pieces consisting of padding file data only were
 not hashed

---
 src/v1_chunk_reader.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e457958..6191128 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -21,16 +21,23 @@ void v1_chunk_reader::run()
         const file_entry& file_entry = storage.at(file_index_);
 
         // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path) || file_entry.is_padding_file()) [[unlikely]] {
+        const bool is_padding_file = file_entry.is_padding_file();
+        if (!is_padding_file && !fs::exists(file_path)) [[unlikely]] {
             handle_missing_file();
             ++file_index_;
             continue;
         }
 
-        // set last modified date in the file entry of the storage
-        storage.set_last_modified_time(file_index_, fs::last_write_time(file_path));
-        f_.open(file_path, std::ios::binary);
-        f_.rdbuf()->pubsetbuf(nullptr, 0);
+        if (is_padding_file) {
+            // The data of padding files is all zero bytes and does not exists on disk.
+            f_.setstate(std::ios::eofbit);
+        }
+        else {
+            // set last modified date in the file entry of the storage
+            storage.set_last_modified_time(file_index_, fs::last_write_time(file_path));
+            f_.open(file_path, std::ios::binary);
+            f_.rdbuf()->pubsetbuf(nullptr, 0);
+        }
         // increment file index, file_index points to the next file now
         ++ file_index_;
 
-- 
2.43.0


From abce26b1402ff9a45ec1574aadc1c8c592203f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:16 +0000
Subject: [PATCH 21/90] fix: reading v2 pieces passed on an extra empty chunk
 for files that are a multiple of the chunk size and used the size on disk
 instead of the size of the file entry

---
 src/v2_chunk_reader.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..9ee1ba1 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -43,12 +43,20 @@ void v2_chunk_reader::run()
         // reset piece index. piece index is per file for v2!
         piece_index_ = 0;
 
+        // The file on disk can be shorter or longer than the file entry when verifying,
+        // or the target of a symlink. Always take up the space of the file entry.
+        std::size_t bytes_left = file_entry.file_size();
+
         while (!cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
-            current_chunk_size_ = f_.gcount();
+            current_chunk_size_ = std::min(chunk_size_, bytes_left);
+            f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+            const auto bytes_read = static_cast<std::size_t>(f_.gcount());
+            // replace missing data with zero bytes
+            std::fill(std::next(chunk->begin(), bytes_read), chunk->end(), std::byte(0));
 
             chunk->resize(current_chunk_size_);
-            bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
+            bytes_left -= current_chunk_size_;
+            bytes_read_.fetch_add(bytes_read, std::memory_order_relaxed);
 
             // push chunk to consumers
             push({static_cast<std::uint32_t>(piece_index_),
@@ -62,8 +70,9 @@ void v2_chunk_reader::run()
             // increment chunk index
             piece_index_ += pieces_per_chunk;
 
-            if (f_.eof()) break;
-            if (f_.fail()) {
+            // all data of this file is read
+            if (bytes_left == 0) break;
+            if (f_.fail() && !f_.eof()) {
                 throw std::runtime_error(
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
@@ -76,7 +85,8 @@ void v2_chunk_reader::run()
 
 
 void v2_chunk_reader::push(const data_chunk& chunk) {
-    Expects(chunk.piece_index < storage_.get().piece_count());
+    // the only chunk of an empty file does not contain any piece
+    Expects(chunk.piece_index == 0 || chunk.piece_index < storage_.get().piece_count());
 
     // hasher queues
     for (auto& queue : hash_queues_) {
-- 
2.43.0


From 26d16d43e9eb83cb8207e3e17826f79aa5d8a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:06 +0000
Subject: [PATCH 22/90] fix: empty files at the end of a v1 torrent did not get
 a checksum

---
 src/v1_checksum_hasher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v1_checksum_hasher.cpp b/src/v1_checksum_hasher.cpp
index fd375a1..f455ba0 100644
--- a/src/v1_checksum_hasher.cpp
+++ b/src/v1_checksum_hasher.cpp
@@ -27,7 +27,8 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
     // Verify that we are receive chunks sequentially
 
-    while (chunk_offset != chunk_size) {
+    // Also complete empty files that directly follow the data of this chunk.
+    while (chunk_offset != chunk_size || (current_file_index_ < storage.file_count() && current_file_size == 0)) {
         auto current_file_data_remaining = current_file_size - current_file_data_hashed_;
         auto current_chunk_data_remaining = chunk_size-chunk_offset;
         auto current_file_subchunk_size = std::min(current_file_data_remaining, current_chunk_data_remaining);
-- 
2.43.0


From 5434fe6132b6f072bba991e55161923170ed0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:06 +0000
Subject: [PATCH 23/90] fix: checksums of v2 and hybrid torrents missed the
 last file and terminated after a padding file

---
 src/v2_checksum_hasher.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 1676bd1..203789c 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -17,28 +17,26 @@ void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
     file_storage& storage = storage_;
 
-    // offset from the start of data where we are currently processing
-    std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
 
+    // Chunks are received in order, padding files are skipped.
     Expects(current_file_index_ <= item.file_index);
+    current_file_index_ = item.file_index;
 
-    if (item.file_index > current_file_index_) {
-        // Set the hash for the previous file.
+    hasher.update(std::span(*item.data));
+    bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
+    bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
+    current_file_data_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
+
+    // check if we completed a file checksum
+    if (current_file_data_hashed_.load(std::memory_order_relaxed) == storage[item.file_index].file_size()) {
         Expects(hash_functions_.size() == 1);
         auto hash_function = hash_functions_.front();
         auto checksum = make_checksum(hash_function);
         hasher.finalize_to(checksum->value());
-        storage[current_file_index_].add_checksum(std::move(checksum));
-
-        // update current file index
-        ++current_file_index_;
+        storage[item.file_index].add_checksum(std::move(checksum));
+        current_file_data_hashed_.store(0, std::memory_order_relaxed);
     }
-
-    Expects(current_file_index_ == item.file_index);
-    hasher.update(std::span(*item.data));
-    bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
-    bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 864821e367e8d71cad97a7ba3460ace3e328f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:35 +0000
Subject: [PATCH 24/90] fix: v1 torrents with only empty files did not get
 checksums

---
 src/v1_chunk_reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 6191128..936ea85 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -93,6 +93,13 @@ void v1_chunk_reader::run()
               std::move(chunk_)});
         piece_index_ += pieces_in_chunk;
     }
+    else if (storage.total_file_size() == 0) {
+        // No data at all, let the checksum hashers process the empty files.
+        chunk_->resize(0);
+        for (auto& queue: checksum_queues_) {
+            queue->push({0, 0, chunk_});
+        }
+    }
 
     chunk_.reset();
     Ensures(piece_index_ == storage.piece_count());
-- 
2.43.0


From 2c26a9ced95686d45aafe8f2e6780d70b780b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 25/90] fix: pieces of a file missed the last piece when the
 file does not start at a piece boundary

---
 src/file_storage.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..5c94892 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -211,8 +211,13 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             [&](const file_entry& e) { return e.file_size(); });
 
     auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    // empty files do not have any piece
+    if (entry.file_size() == 0)
+        return {offset, offset};
+
+    // the first and last piece of a file can be shared with neighbouring files.
+    auto last = (cumulative_size + entry.file_size() + piece_size_ - 1) / piece_size_;
+    return {offset, last};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From 445a3354315f4d04fc086792ebb9214275653357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 26/90] fix: verifying v2 torrents with empty files without v2
 data threw an exception

---
 src/v2_piece_verifier.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index 241a209..1a719ef 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -2,6 +2,19 @@
 
 namespace dottorrent {
 
+namespace {
+
+/// Number of entries in the piece map of a regular file.
+/// Empty files do not need to have v2 data.
+std::size_t piece_map_entries(const file_entry& entry)
+{
+    if (!entry.has_v2_data())
+        return 1;
+    return std::max(std::size_t(1), entry.piece_layer().size());
+}
+
+}
+
 v2_piece_verifier::v2_piece_verifier(dottorrent::file_storage& storage, std::size_t capacity,
         std::size_t max_concurrency)
         : storage_(storage)
@@ -87,7 +100,7 @@ double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
             0ul, std::plus<>{},
             [](const file_entry& e) {
                 if (e.is_padding_file()) return std::size_t(0);
-                return std::max(std::size_t(1), e.piece_layer().size());
+                return piece_map_entries(e);
             });
 
     auto n_complete_pieces = std::count(
@@ -120,7 +133,7 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
         }
         else {
             auto& m = merkle_trees_.emplace_back(block_count);
-            auto offset = std::max(std::size_t(1), entry.piece_layer().size());
+            auto offset = piece_map_entries(entry);
 
             // get the offset of the last non-padding file
             std::size_t previous_offset = 0;
@@ -144,15 +157,8 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
         if (entry.is_padding_file())
             continue;
 
-        auto s = entry.piece_layer().size();
-        if (s != 0) {
-            piece_map_size += s;
-        }
-        else {
-            // we have a file smaller then the piece size with only a root hash.
-            // or a padding file
-            piece_map_size += 1;
-        }
+        // files smaller then the piece size only have a root hash.
+        piece_map_size += piece_map_entries(entry);
     }
     piece_map_.resize(piece_map_size);
 }
@@ -197,6 +203,13 @@ void v2_piece_verifier::verify_piece_layers_and_root(HasherType& hasher, std::si
     file_entry& entry = storage.at(file_index);
     std::size_t entry_index = file_offsets_.at(file_index);
 
+    // empty files do not have a root hash
+    if (entry.file_size() == 0) {
+        Expects(entry_index < piece_map_.size());
+        piece_map_[entry_index] = 1;
+        return;
+    }
+
     bool whole_file_complete = entry.pieces_root() == tree.root();
     bool is_single_piece_file = entry.piece_layer().size() == 0;
 
-- 
2.43.0


From 341e6b3b16c2c72c1618a614794a037a558e3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:24 +0000
Subject: [PATCH 27/90] fix: cancelling a v1 hasher or verifier before all data
 was read terminated the program

---
 src/v1_chunk_reader.cpp | 6 ++++++
 src/v2_chunk_reader.cpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 936ea85..5eb0220 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -18,6 +18,7 @@ void v1_chunk_reader::run()
     chunk_->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) [[unlikely]] break;
         const file_entry& file_entry = storage.at(file_index_);
 
         // handle pieces if the file does not exists. Used when verifying torrents.
@@ -84,6 +85,11 @@ void v1_chunk_reader::run()
         f_.close();
         f_.clear();
     }
+    // discard the current chunk when not all data has been read
+    if (cancelled_.load(std::memory_order_relaxed)) [[unlikely]] {
+        chunk_.reset();
+        return;
+    }
     // push last possibly partial chunk
     if (chunk_offset_ != 0) [[likely]] {
         chunk_->resize(chunk_offset_);
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index 9ee1ba1..ceeba80 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -17,6 +17,7 @@ void v2_chunk_reader::run()
     chunk->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) [[unlikely]] break;
         const file_entry& file_entry = storage.at(file_index_);
 
         if (file_entry.is_padding_file()) {
-- 
2.43.0


From ea0cede26b6874521ed0f12a17d01de112886711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:24 +0000
Subject: [PATCH 28/90] fix: cancelling a hasher or verifier could block for
 ever on full queues

---
 src/chunk_processor_base.cpp | 26 ++++++++++++++++----------
 src/storage_hasher.cpp       |  6 ++++--
 src/storage_verifier.cpp     |  6 ++++--
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..3ef9658 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,21 +36,27 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
-    for (auto i = 0; i < threads_.size(); ++i) {
-        queue_->push({
+    // Wake threads that remain blocked on pop calls.
+    // A finishing worker can take the wake-up meant for another one and the queue can be full of
+    // discarded work, so keep offering wake-ups until every worker has finished.
+    const auto wake_up = [this] {
+        queue_->try_push({
                 std::numeric_limits<std::uint32_t>::max(),
                 std::numeric_limits<std::uint32_t>::max(),
                 nullptr
         });
+    };
+    const auto workers_done = [this] {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    };
+
+    for (std::size_t i = 0; i < threads_.size() && !workers_done(); ++i) {
+        wake_up();
     }
-
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+    while (!workers_done()) {
+        wake_up();
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
 
     // should all be finished by now and ready to join
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 69ab6b0..d521be0 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -172,14 +172,16 @@ void storage_hasher::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // stop the reader first, it can be blocked until the hashers process a chunk.
     reader_->request_cancellation();
+    reader_->wait();
+
+    // cancel all other tasks
     hasher_->request_cancellation();
     for (auto& ch : checksum_hashers_) { ch->request_cancellation(); }
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     for (auto& ch : checksum_hashers_) { ch->wait(); }
     verifier_->wait();
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index b3a5977..f489177 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -144,13 +144,15 @@ void storage_verifier::cancel() {
         return;
     }
 
-    // cancel all tasks
+    // stop the reader first, it can be blocked until the hashers process a chunk.
     reader_->request_cancellation();
+    reader_->wait();
+
+    // cancel all other tasks
     hasher_->request_cancellation();
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
     hasher_->wait();
     verifier_->wait();
 
-- 
2.43.0


From d170909fd8fe0968128c7e4e5f08673dff79ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 29/90] fix: destroying a verifier or hasher that was never
 started terminated the program

---
 src/chunk_processor_base.cpp | 5 +++--
 src/storage_verifier.cpp     | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index 3ef9658..f117bb9 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -105,12 +105,13 @@ void chunk_processor_base::register_v2_hashed_piece_queue(const std::shared_ptr<
 
 chunk_processor_base::~chunk_processor_base()
 {
-    if (started() && !done()) {
+    // join the workers, also when cancelled.
+    if (started() && rng::any_of(threads_, &std::jthread::joinable)) {
         request_stop();
         wait();
     }
     // Destructor should only be called after all workers are done
-    Ensures(std::all_of(done_.begin(), done_.end(),
+    Ensures(!started() || std::all_of(done_.begin(), done_.end(),
                         [](auto& b) { return b.load(std::memory_order_relaxed); }));
 };
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index f489177..8690660 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -267,7 +267,6 @@ storage_verifier::~storage_verifier()
     if (started() && !done()) {
         std::terminate();
     }
-    Expects(done());
 }
 
 
-- 
2.43.0


From ece415167b9e543947d2ed7fe5d749ca20974f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 30/90] fix: progress functions of a hasher or verifier that is
 not started dereferenced a null pointer

---
 src/storage_hasher.cpp   | 6 +++---
 src/storage_verifier.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index d521be0..eb49e74 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -237,17 +237,17 @@ bool storage_hasher::done() const noexcept
 
 std::size_t storage_hasher::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 8690660..c2cdeec 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -207,17 +207,17 @@ bool storage_verifier::done() const noexcept
 
 std::size_t storage_verifier::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_verifier::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_verifier::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
-- 
2.43.0


From 5dfa463444d8e17c9df668fd0244b9c79dd9fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 31/90] fix: merkle_tree could not be assigned

---
 include/dottorrent/merkle_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..a7e8cd7 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
-- 
2.43.0


From e7051eee1dafb371abe33c2c7d9738bd4b9d9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 32/90] fix: merkle_tree::has_root could not be instantiated

---
 include/dottorrent/merkle_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index a7e8cd7..32f1750 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -86,8 +86,9 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root() const
     {
+        std::shared_lock lck{mutex_};
         return data_[0] != value_type{};
     }
 
-- 
2.43.0


From f1bc2a7b309d83baf7948345624eeac2214e3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 33/90] fix: merkle_tree::get_node_range indexed past the last
 node

---
 include/dottorrent/merkle_tree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 32f1750..e9a4b69 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -187,9 +187,7 @@ public:
         Expects(last <= nodes_in_layer(layer));
         Expects(first <= last);
         std::shared_lock lck{mutex_};
-        auto d_first = get_flat_index(layer, first);
-        auto d_last = get_flat_index(layer, last);
-        return std::span(&data_[d_first], &data_[d_last]);
+        return std::span<const value_type>(&data_[get_flat_index(layer, first)], last-first);
     }
 
     const value_type& get_leaf(std::size_t index) const
-- 
2.43.0


From 807886ef13fe17d0393ddcae2c45991aa6f75f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 34/90] fix: verify_piece_layers rejected valid layers that
 need padding and files without a layer

---
 include/dottorrent/file_storage.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..5296dd2 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -295,9 +295,23 @@ void verify_piece_layers(const file_storage& storage, OutputIt out)
 {
     merkle_tree<hash_function::sha256> tree {};
 
+    // The layer is balanced with the root of a piece that consist of zeroed block hashes only.
+    sha256_hash padding {};
+    if (storage.piece_size() > 16_KiB) {
+        tree.set_leaf_nodes(storage.piece_size() / 16_KiB);
+        tree.update();
+        padding = tree.root();
+    }
+
     for (const auto& entry: storage) {
+        // padding files, empty files and files not larger than the piece size do not have a layer.
+        if (!entry.has_v2_data() || entry.piece_layer().empty()) {
+            *out++ = entry.is_padding_file() || entry.file_size() <= storage.piece_size();
+            continue;
+        }
+
         auto layers = entry.piece_layer();
-        tree.set_leaf_nodes(layers.size());
+        tree.set_leaf_nodes(layers.size(), padding);
 
         std::size_t idx = 0;
         for (const auto& l : layers) {
-- 
2.43.0


From f64e50cb93f2aa0c2659682968e208772af5dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 35/90] fix: magnet_uri size is zero until it is set

---
 include/dottorrent/magnet_uri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d01d6f2..88d9c66 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -177,7 +177,7 @@ private:
     //dn	Display Name	A filename to display to the user, for convenience.
     std::string display_name_;
     //xl	eXact Length	Size (in bytes)
-    std::size_t size_;
+    std::size_t size_ = 0;
     //xt	eXact Topic	URN containing file hash.
     // This is the most crucial part of the magnet link, and is used to find and verify the specified file.
     // The URN is specific to the protocol, so a file hash URN under btih (BitTorrent) would be completely different than the file hash URN for ed2k
-- 
2.43.0


From ef74157dabb3402cd679727b9a9253aee42887fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 36/90] fix: encode_magnet_uri writes the kt key and ends for
 two or more keywords

---
 include/dottorrent/magnet_uri.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 88d9c66..3a9b7fe 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -272,10 +272,11 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
 
     // keywords
     if (!magnet.keywords().empty()) {
+        rng::copy("&kt="sv, out);
         auto it = magnet.keywords().begin();
         rng::copy(detail::percent_encode(*it++), out);
 
-        while (it != magnet.keywords().end()) {
+        for (; it != magnet.keywords().end(); ++it) {
             *out++ = '+';
             rng::copy(detail::percent_encode(*it), out);
         }
-- 
2.43.0


From 1279392a4a2c7bdfff3b3f4605bc3cfb73a64685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 37/90] fix: a percent-encoded plus sign does not split a
 magnet keyword

---
 src/magnet_uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 73bcb94..30c5d3a 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -107,10 +107,10 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_exact_source(detail::percent_decode(value));
         }
         else if (key == "kt") {
-            auto keywords_string = detail::percent_decode(value);
-            auto keywords = detail::split_keywords_string(keywords_string);
+            // split before decoding: an encoded plus sign is part of a keyword.
+            auto keywords = detail::split_keywords_string(value);
             for (auto kw : keywords) {
-                result.add_keyword(kw);
+                result.add_keyword(detail::percent_decode(kw));
             }
         }
         else if (key == "mt") {
-- 
2.43.0


From 5202b47237dd4eeac4ad2afc87d1e7b44a986682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 38/90] fix: encode_magnet_uri of a magnet without topics does
 not start with an ampersand

---
 include/dottorrent/magnet_uri.hpp | 34 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 3a9b7fe..d3846a4 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -221,58 +221,60 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
     std::string uri = "magnet:?";
     rng::copy(uri, out);
 
+    // fields are separated by ampersands.
     bool first = true;
+    const auto write_key = [&](std::string_view key) {
+        if (!first) { *out++ = '&'; }
+        first = false;
+        rng::copy(key, out);
+        *out++ = '=';
+    };
+
     // topics
     for (const auto& topic : magnet.topics()) {
-        if (first) {
-            rng::copy("xt="sv, out);
-            first = false;
-        }
-        else {
-            rng::copy("&xt="sv, out);
-        }
+        write_key("xt"sv);
         rng::copy(topic, out);
     }
 
     // display name
     if (!magnet.display_name().empty()) {
-        rng::copy("&dn="sv, out);
+        write_key("dn"sv);
         rng::copy(detail::percent_encode(magnet.display_name()), out);
     }
 
     if (magnet.size() != 0) {
         // exact length
-        rng::copy("&xl="sv, out);
+        write_key("xl"sv);
         rng::copy(detail::percent_encode(std::to_string(magnet.size())), out);
     }
     // trackers
     for (const auto& tr : magnet.trackers()) {
-        rng::copy("&tr="sv, out);
+        write_key("tr"sv);
         rng::copy(detail::percent_encode(tr), out);
     }
 
     // webseeds
     for (const auto& ws : magnet.web_seeds()) {
-        rng::copy("&ws="sv, out);
+        write_key("ws"sv);
         rng::copy(detail::percent_encode(ws), out);
     }
 
     // Acceptable sources
     for (const auto& as : magnet.acceptable_sources()) {
-        rng::copy("&as="sv, out);
+        write_key("as"sv);
         rng::copy(detail::percent_encode(as), out);
     }
 
 
     // Exact source
     if (!magnet.exact_source().empty()) {
-        rng::copy("&xs="sv, out);
+        write_key("xs"sv);
         rng::copy(detail::percent_encode(magnet.exact_source()), out);
     }
 
     // keywords
     if (!magnet.keywords().empty()) {
-        rng::copy("&kt="sv, out);
+        write_key("kt"sv);
         auto it = magnet.keywords().begin();
         rng::copy(detail::percent_encode(*it++), out);
 
@@ -284,13 +286,13 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
 
     // manifest
     if (!magnet.manifest().empty()) {
-        rng::copy("&mt="sv, out);
+        write_key("mt"sv);
         rng::copy(detail::percent_encode(magnet.manifest()), out);
     }
 
     // Peers
     for (const auto& pe : magnet.peer_adresses()) {
-        rng::copy("&x.pe="sv, out);
+        write_key("x.pe"sv);
         rng::copy(detail::percent_encode(pe), out);
     }
 }
-- 
2.43.0


From 7f7d4747b2d37ad308774da4e2e34fb8120220d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 39/90] fix: announce_url_list constructed from nested lists is
 sorted and has no empty tiers

---
 include/dottorrent/announce_url_list.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 99c19a0..51f3b69 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -26,12 +26,15 @@ public:
     {
         std::size_t tier = 0;
         for (const auto& level : il) {
+            // skip empty tiers
+            if (level.size() == 0) continue;
+
+            std::vector<announce_url> tmp {};
             for (const auto& url : level) {
-                std::vector<announce_url> tmp {};
                 tmp.emplace_back(url, tier);
-                rng::sort(tmp, url_comparator);
-                rng::move(tmp, std::back_inserter(announce_list_));
             }
+            rng::sort(tmp, url_comparator);
+            rng::move(tmp, std::back_inserter(announce_list_));
             ++tier;
         }
     }
-- 
2.43.0


From 7192ee79bced4c8e1901459fcedace066d8f2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:16 +0000
Subject: [PATCH 40/90] fix: announce_url_list insert and emplace return a
 valid iterator

---
 include/dottorrent/announce_url_list.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 51f3b69..c29a588 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -117,8 +117,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, announce);
-        return it;
+        return announce_list_.insert(it, announce);
     }
 
     auto insert(announce_url&& announce)
@@ -126,8 +125,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, std::move(announce));
-        return it;
+        return announce_list_.insert(it, std::move(announce));
     }
 
     auto emplace(std::string_view url, std::size_t tier)
@@ -136,8 +134,7 @@ public:
 
         auto [begin, end] = get_tier(tier);
         auto it = std::upper_bound(begin, end, url, url_comparator);
-        announce_list_.emplace(it, url, tier);
-        return it;
+        return announce_list_.emplace(it, url, tier);
     }
 
     auto erase(iterator pos)
-- 
2.43.0


From 58f3481d591da70737edfcde74017a40cf874ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 41/90] fix: encode_magnet_uri advances any output iterator

---
 include/dottorrent/magnet_uri.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d3846a4..7172ea2 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -219,81 +219,81 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
     using namespace std::string_view_literals;
 
     std::string uri = "magnet:?";
-    rng::copy(uri, out);
+    out = rng::copy(uri, out).out;
 
     // fields are separated by ampersands.
     bool first = true;
     const auto write_key = [&](std::string_view key) {
         if (!first) { *out++ = '&'; }
         first = false;
-        rng::copy(key, out);
+        out = rng::copy(key, out).out;
         *out++ = '=';
     };
 
     // topics
     for (const auto& topic : magnet.topics()) {
         write_key("xt"sv);
-        rng::copy(topic, out);
+        out = rng::copy(topic, out).out;
     }
 
     // display name
     if (!magnet.display_name().empty()) {
         write_key("dn"sv);
-        rng::copy(detail::percent_encode(magnet.display_name()), out);
+        out = rng::copy(detail::percent_encode(magnet.display_name()), out).out;
     }
 
     if (magnet.size() != 0) {
         // exact length
         write_key("xl"sv);
-        rng::copy(detail::percent_encode(std::to_string(magnet.size())), out);
+        out = rng::copy(detail::percent_encode(std::to_string(magnet.size())), out).out;
     }
     // trackers
     for (const auto& tr : magnet.trackers()) {
         write_key("tr"sv);
-        rng::copy(detail::percent_encode(tr), out);
+        out = rng::copy(detail::percent_encode(tr), out).out;
     }
 
     // webseeds
     for (const auto& ws : magnet.web_seeds()) {
         write_key("ws"sv);
-        rng::copy(detail::percent_encode(ws), out);
+        out = rng::copy(detail::percent_encode(ws), out).out;
     }
 
     // Acceptable sources
     for (const auto& as : magnet.acceptable_sources()) {
         write_key("as"sv);
-        rng::copy(detail::percent_encode(as), out);
+        out = rng::copy(detail::percent_encode(as), out).out;
     }
 
 
     // Exact source
     if (!magnet.exact_source().empty()) {
         write_key("xs"sv);
-        rng::copy(detail::percent_encode(magnet.exact_source()), out);
+        out = rng::copy(detail::percent_encode(magnet.exact_source()), out).out;
     }
 
     // keywords
     if (!magnet.keywords().empty()) {
         write_key("kt"sv);
         auto it = magnet.keywords().begin();
-        rng::copy(detail::percent_encode(*it++), out);
+        out = rng::copy(detail::percent_encode(*it++), out).out;
 
         for (; it != magnet.keywords().end(); ++it) {
             *out++ = '+';
-            rng::copy(detail::percent_encode(*it), out);
+            out = rng::copy(detail::percent_encode(*it), out).out;
         }
     }
 
     // manifest
     if (!magnet.manifest().empty()) {
         write_key("mt"sv);
-        rng::copy(detail::percent_encode(magnet.manifest()), out);
+        out = rng::copy(detail::percent_encode(magnet.manifest()), out).out;
     }
 
     // Peers
     for (const auto& pe : magnet.peer_adresses()) {
         write_key("x.pe"sv);
-        rng::copy(detail::percent_encode(pe), out);
+        out = rng::copy(detail::percent_encode(pe), out).out;
     }
 }
 
-- 
2.43.0


From ac7756c614a59a16011af80009841ac28fd259cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 42/90] fix: choose_piece_size of a storage without content

---
 src/file_storage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 5c94892..8403246 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -273,7 +273,9 @@ std::vector<const file_entry*> file_storage::directory_contents(const fs::path&
 
 std::size_t choose_piece_size(file_storage& storage)
 {
-    double exp = std::log2(storage.total_file_size()) - 9;
+    // storage without content has no logarithm, use the smallest piece size.
+    const auto size = std::max<std::size_t>(storage.total_file_size(), 1);
+    double exp = std::log2(size) - 9;
     exp = std::min(std::max(15, static_cast<int>(exp)), 24);
     auto piece_size = static_cast<std::size_t>(pow(2, exp));
     storage.set_piece_size(piece_size);
-- 
2.43.0


From 8929eca8d8862acb8c811e284f578b9fe02181b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 43/90] fix: optimize_alignment replaces existing padding and
 accepts an empty storage

---
 src/file_storage.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 8403246..e8ca241 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -445,21 +445,19 @@ void optimize_alignment(file_storage& storage)
     std::size_t total_padding_bytes = 0;
     std::vector<file_entry> aligned_entries {};
 
-    for (std::size_t i = 0; i < storage.file_count()-1; ++i) {
-        auto& entry = storage[i];
-        auto size = entry.file_size();
-        aligned_entries.push_back(std::move(entry));
-
-        auto bytes_till_next_piece = piece_size - (size % piece_size);
+    std::size_t bytes_till_next_piece = 0;
+    for (auto& entry : storage) {
+        // drop padding of an earlier alignment
+        if (entry.is_padding_file()) continue;
 
-        Expects(bytes_till_next_piece != 0);
-        if (bytes_till_next_piece != piece_size) [[likely]] {
+        // pad the previous file, the last file is not padded.
+        if (bytes_till_next_piece != 0) {
             aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
             total_padding_bytes += bytes_till_next_piece;
         }
+        bytes_till_next_piece = (piece_size - (entry.file_size() % piece_size)) % piece_size;
+        aligned_entries.push_back(std::move(entry));
     }
-    // add the last file
-    aligned_entries.push_back(std::move(storage.back()));
 
     // clear old storage and set new
     storage.clear();
-- 
2.43.0


From c976ce5ccd339b0950a68203042bd22fc40823a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 44/90] fix: set_piece_size clears the piece hashes and piece
 layers as documented

---
 src/file_storage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index e8ca241..39c2a89 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -129,6 +129,11 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+    // hashes of pieces with another size are no longer valid.
+    pieces_.clear();
+    for (auto& file : files_) {
+        file.piece_layer_.clear();
+    }
 }
 
 void file_storage::allocate_pieces()
-- 
2.43.0


From fd2d801daf5bbed61a3733a3aaaaf143e808346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 45/90] fix: file_storage clear drops the piece hashes of the
 removed files

---
 include/dottorrent/file_storage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 5296dd2..c9410d1 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -95,7 +95,9 @@ public:
     {
         index_valid_ = false;
         files_.clear();
+        pieces_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
-- 
2.43.0


From 12da62481e884d9648fe5142597b054e52c629a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 46/90] fix: make_v1_pieces_string reserves memory per piece,
 not per byte of a piece

---
 src/file_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 39c2a89..466d1f1 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -402,7 +402,7 @@ auto absolute_file_paths(const file_storage& storage) -> std::vector<fs::path>
 std::string make_v1_pieces_string(const file_storage& storage)
 {
     std::string pieces_string{};
-    pieces_string.reserve(storage.piece_size() * sha1_hash::size());
+    pieces_string.reserve(storage.pieces().size() * sha1_hash::size());
     for (const auto& p: storage.pieces()) {
         pieces_string.append(std::string_view(p));
     }
-- 
2.43.0


From a272b0b57d874c753170581e4a272109561fe3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 47/90] fix: copies of a file_storage keep the file mode

---
 src/file_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 466d1f1..bf61708 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -14,8 +16,10 @@ file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
 
-- 
2.43.0


From 5de549439576bc4813eb29ceb74cc5791def4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 48/90] fix: file_storage index is invalid after construction
 and assignment

---
 include/dottorrent/file_storage.hpp | 2 +-
 src/file_storage.cpp                | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index c9410d1..d85a82b 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -262,7 +262,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index bf61708..6752ee5 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -22,6 +22,7 @@ file_storage& file_storage::operator=(const file_storage& other)
     file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
+    index_valid_ = false;
 
     return *this;
 }
-- 
2.43.0


From 894878cfa4b0970e177bf2d046bac671ed4b6827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 49/90] fix: moving a file_entry by assignment moves its
 checksums

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..37abd00 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
-- 
2.43.0


From 800773e2e9fb74796f43cd017f407dfc8788f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 50/90] fix: add_checksum replaces an older checksum of the
 same algorithm

---
 src/file_entry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 37abd00..077a43b 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -205,7 +205,8 @@ const checksum* file_entry::get_checksum(hash_function algorithm) const {
 void file_entry::add_checksum(std::unique_ptr<checksum> value)
 {
     std::unique_lock lck{checksum_mutex_};
-    checksums_.emplace(std::string(value->name()), std::move(value));
+    auto name = std::string(value->name());
+    checksums_.insert_or_assign(std::move(name), std::move(value));
 }
 
 const file_entry::checksum_map& file_entry::checksums() const
-- 
2.43.0


From de108741c9bd334102812d8306340ffb45506d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 51/90] fix: file_entry remove_checksum compiles

---
 include/dottorrent/file_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..2406afc 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -83,7 +83,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
-- 
2.43.0


From b791f45924233e4a958e0229a4ee50bc27e55d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 52/90] fix: accept files of which the name starts with two
 dots

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 077a43b..b22baef 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -257,7 +257,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 
     fs::path relative_file = file.lexically_relative(root_directory);
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From 8fc32c0399c14877b2ff38001a876817736869d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:48 +0000
Subject: [PATCH 53/90] fix: symlinks are only kept as symlinks when
 copy_symlinks is given

---
 src/file_entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index b22baef..2b2b5d0 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -286,7 +286,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
+    if ((options & file_options::copy_symlinks) == file_options::copy_symlinks) {
         if (de.is_symlink()) {
             *attributes |= file_attributes::symlink;
             symlink_path = fs::read_symlink(file);
-- 
2.43.0


From 6e6975ea28f3da15c7ecea9792c3e6d91951b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 54/90] fix: a path with dot-dot components cannot leave the
 root directory

---
 src/file_entry.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 2b2b5d0..c541cc1 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -245,9 +245,7 @@ std::strong_ordering file_entry::operator<=>(const file_entry& rhs) const noexce
 
 file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_options options)
 {
-    if (!file.is_absolute()) {
-        file = fs::absolute(file);
-    }
+    file = fs::absolute(file).lexically_normal();
 
     if (!fs::exists(file))
         throw std::invalid_argument("file does not exist");
-- 
2.43.0


From ebf477ea89b56818143ae71472632479693e92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 55/90] fix: symlinks to directories and missing files can be
 added as symlinks

---
 src/file_entry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index c541cc1..73220a6 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -247,7 +247,10 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 {
     file = fs::absolute(file).lexically_normal();
 
-    if (!fs::exists(file))
+    const bool keep_symlink = (options & file_options::copy_symlinks) == file_options::copy_symlinks
+            && fs::is_symlink(file);
+
+    if (!keep_symlink && !fs::exists(file))
         throw std::invalid_argument("file does not exist");
 
     if (!(fs::is_regular_file(file) || fs::is_symlink(file)))
@@ -259,7 +262,8 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-    std::size_t file_size = de.file_size();
+    // file size of symlinks should be 0 for backward compatibility
+    std::size_t file_size = keep_symlink ? 0 : de.file_size();
     std::optional<file_attributes> attributes = std::nullopt;
     std::optional<fs::path> symlink_path = std::nullopt;
 
@@ -284,13 +288,9 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) == file_options::copy_symlinks) {
-        if (de.is_symlink()) {
-            *attributes |= file_attributes::symlink;
-            symlink_path = fs::read_symlink(file);
-            // file size of symlinks should be 0 for backward compatibility
-            file_size = 0;
-        }
+    if (keep_symlink) {
+        *attributes |= file_attributes::symlink;
+        symlink_path = fs::read_symlink(file);
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From 98f2b4d06127563df9410b7b9c9e0be5990408e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 56/90] fix: symlink targets are stored relative to the root
 directory as documented

---
 src/file_entry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 73220a6..948ea0b 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -290,7 +290,9 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     // Copy symlinks as symlinks
     if (keep_symlink) {
         *attributes |= file_attributes::symlink;
-        symlink_path = fs::read_symlink(file);
+        // relative to the root directory, not to the directory of the symlink.
+        symlink_path = (file.parent_path() / fs::read_symlink(file)).lexically_normal()
+                .lexically_relative(root_directory);
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From b3306356d2f26c9271742ff4383e13fcb4e0f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 57/90] fix: a root directory given with a trailing separator
 keeps its name

---
 src/file_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 6752ee5..7b6dbb7 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -41,6 +41,10 @@ void file_storage::set_root_directory(const fs::path& root)
 {
     Ensures(fs::exists(root));
     root_directory_ = fs::absolute(root).lexically_normal();
+    // remove the trailing separator so the last component is the directory name.
+    if (!root_directory_.has_filename()) {
+        root_directory_ = root_directory_.parent_path();
+    }
 }
 
 void file_storage::add_file(const file_entry& file)
-- 
2.43.0


From 52022d92115ffc9398021867e966c3e651d4c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 58/90] fix: directory_contents compares whole path components

---
 src/file_storage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 7b6dbb7..c92b8da 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -268,12 +268,14 @@ void file_storage::index() const {
 
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
-    auto directory_string = directory.string();
+    // ignore the empty component after a trailing separator
+    const auto directory_end = (directory.empty() || directory.has_filename()) ? directory.end() : std::prev(directory.end());
 
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        const auto& path = files_[index].path();
+        return std::mismatch(directory.begin(), directory_end, path.begin(), path.end()).first == directory_end;
     });
 
     std::vector<const file_entry*> results;
-- 
2.43.0


From f1537ec05f4f3f90cab404ce52abfa6e9d58364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 59/90] fix: directory_count compares whole path components of
 the root

---
 src/file_storage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index c92b8da..b9d691b 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -319,10 +319,11 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
     std::set<std::string> directories {};
     std::set<std::string> padding_dir_candidates {};
 
-    auto root_string = root.string();
+    // ignore the empty component after a trailing separator
+    const auto root_end = (root.empty() || root.has_filename()) ? root.end() : std::prev(root.end());
 
     for (const auto& f : storage) {
-        if (!root.empty() && !f.path().string().starts_with(root_string)) {
+        if (std::mismatch(root.begin(), root_end, f.path().begin(), f.path().end()).first != root_end) {
             continue;
         }
 
-- 
2.43.0


From 3930f081147899f2736959872528af7b69ecd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:38 +0000
Subject: [PATCH 60/90] fix: directory_count distinguishes directories by their
 whole path

---
 src/file_storage.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b9d691b..057db52 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -329,14 +329,11 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
 
         bool is_padding_dir_candidate = f.is_padding_file();
         fs::path current_dir = "";
-        auto it = f.path().begin();
-        auto last = std::next(f.path().end(), -1);
-
-        while (it != last) {
-            auto dir = (current_dir / *it).string();
+        for (const auto& component : f.path().parent_path()) {
+            current_dir /= component;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
-            it++;
         }
     }
     if (include_padding_directories)
-- 
2.43.0


From 2e08c123faccde5bbaeaa2f7eac1026bd5f783c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 61/90] fix: comparing metafiles does not read an uninitialised
 member

---
 include/dottorrent/metafile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/metafile.hpp b/include/dottorrent/metafile.hpp
index 364cb8a..2c2a740 100644
--- a/include/dottorrent/metafile.hpp
+++ b/include/dottorrent/metafile.hpp
@@ -160,7 +160,7 @@ public:
     bool operator==(const metafile& other) const = default;
 
 private:
-    enum protocol protocol_;
+    enum protocol protocol_ = protocol::none;
     file_storage storage_;
 
     announce_url_list announce_list_;
-- 
2.43.0


From 4759275e4bbab6aba2cf3c7c1ffaa12567851dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 62/90] fix: serialize_json_to writes to the given stream
 instead of standard output

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..599f3b8 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -335,7 +335,7 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 /// Write a json representation of the metafile to `os`.
 void serialize_json_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::events::encode_json_to to_json(std::cout);
+    bencode::events::encode_json_to to_json(os);
     if (protocol_version == protocol::v1) {
         bc::connect(to_json, detail::make_bvalue_v1(m));
     }
-- 
2.43.0


From e8440067c03bd26a97150a352272bfcc91e62bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 63/90] fix: a creation date of any size is stored without
 overflow

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 599f3b8..15f9f98 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -178,7 +178,7 @@ std::chrono::seconds metafile::creation_date() const
 
 // TODO: [c++20] change system_clock to utc_clock for guaranteed unix epoch.
 void metafile::set_creation_date(std::time_t time)
-{ set_creation_date(std::chrono::system_clock::from_time_t(time)); }
+{ creation_date_ = time; }
 
 const std::unordered_set<info_hash>& metafile::similar_torrents() const
 { return similar_torrents_; }
-- 
2.43.0


From 8e0e85adfc70cc689f6a6602ca2255c2b5cab769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 64/90] fix: save_metafile reports failure to write the file

---
 src/metafile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 15f9f98..aa21736 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -330,6 +330,10 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 {
     std::ofstream ofs(path, std::ios::binary);
     write_metafile_to(ofs, m, protocol_version);
+    ofs.close();
+    if (!ofs) {
+        throw std::ios_base::failure("could not write metafile: " + path.string());
+    }
 }
 
 /// Write a json representation of the metafile to `os`.
-- 
2.43.0


From 8bda04e06405bcf7c1f795c3763e9981411df9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 65/90] fix: a metafile without info dictionary is a parse
 error

---
 src/metafile_parsing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..43f982a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -837,6 +837,14 @@ template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
     metafile m{};
+
+    if (!holds_dict(data))
+        throw parse_error("metafile", "expected dict");
+
+    const auto& dict = get_dict(data);
+    if (auto it = dict.find("info"); it == dict.end() || !holds_dict(it->second))
+        throw parse_error("info", "missing info dict");
+
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
 
-- 
2.43.0


From 33398f978a24333f3d7c1bcebd25db7c981605a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 66/90] fix: empty tiers and duplicates in the announce-list do
 not end the program

---
 src/metafile_parsing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 43f982a..5a7e1fa 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,17 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // empty tiers are skipped
+                const std::size_t tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
-                    m.add_tracker(announce_url{s, tier});
-                    ++item;
+                    // the first occurrence of a duplicate announce is kept
+                    if (!m.trackers().contains(s)) {
+                        m.add_tracker(announce_url{s, tier});
+                    }
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From c8c470fc4f5e8c656eddcf294f954138f94a8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 67/90] fix: malformed dht nodes are a parse error

---
 src/metafile_parsing.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 5a7e1fa..cdb3449 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -213,10 +213,14 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
-                m.add_dht_node(
-                        get_string(tuple[0]),
-                        get_integer(tuple[1]));
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a host and a port");
+                }
+                const auto port = get_integer(tuple[1]);
+                if (port < 0 || port > std::numeric_limits<std::uint16_t>::max()) {
+                    throw parse_error(key, "invalid port number");
+                }
+                m.add_dht_node(get_string(tuple[0]), static_cast<std::uint16_t>(port));
             }
         }
     } catch (bencode::bad_access& e) {
-- 
2.43.0


From 9939c380139afbe8eb35930cf209dc62d0594ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 68/90] fix: negative values of the private field are a parse
 error

---
 src/metafile_parsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index cdb3449..7742313 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -81,7 +81,7 @@ void parse_private(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto v = get_integer(it->second);
-            if (v > 1) {
+            if (v != 0 && v != 1) {
                 throw parse_error(key, fmt::format("expected integer equal to '0' or '1'"));
             }
             m.set_private(bool(v));
-- 
2.43.0


From de1f735b4b78bbc90bba9a65a5bcc92b0524472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 69/90] fix: an unsupported piece length is a parse error

---
 src/metafile_parsing.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 7742313..dfc7042 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -672,7 +672,11 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto size = get_integer(it->second);
+        if (size < static_cast<std::int64_t>(16_KiB) || !std::has_single_bit(static_cast<std::uint64_t>(size))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(size);
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
-- 
2.43.0


From 3110861e787813515b8e84e8b321093fc730936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 70/90] fix: a pieces string that does not match the file size
 is a parse error

---
 src/metafile_parsing.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index dfc7042..59d9f1f 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -647,8 +647,12 @@ void parse_pieces_v1(const T& data, metafile& m)
 
     if (auto it = info_dict.find("pieces"); it != info_dict.end()) {
         auto piece_string = get_string(it->second);
-        auto piece_count = piece_string.size() / 20;
+        auto piece_count = storage.piece_count();
 
+        if (piece_string.size() % sha1_hash::size_bytes != 0 ||
+            piece_string.size() / sha1_hash::size_bytes != piece_count) {
+            throw parse_error("pieces", "number of pieces does not match the file size");
+        }
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
-- 
2.43.0


From 559062c374314c26d5ece576eeb460f995419d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 71/90] fix: a negative file length is a parse error

---
 src/metafile_parsing.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 59d9f1f..7d61318 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -376,6 +376,16 @@ fs::path parse_path(const T& data)
     return p;
 }
 
+template <bc::bvalue_or_bview T>
+static std::size_t parse_length(const T& data)
+{
+    const auto length = get_integer(data);
+    if (length < 0) {
+        throw parse_error("length", "negative file size");
+    }
+    return static_cast<std::size_t>(length);
+}
+
 template <bc::bvalue_or_bview T>
 std::optional<file_attributes> parse_file_attributes(const T& data)
 {
@@ -419,7 +429,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    std::size_t size = parse_length(length_field_it->second);
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
@@ -462,7 +472,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = get_integer(length_field_it->second);
+    std::size_t size = parse_length(length_field_it->second);
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
-- 
2.43.0


From 6091f0e73ab938c7291d7dbaad410e96fcda52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 72/90] fix: symlink targets are read from the BEP 47 key they
 are written to

---
 src/metafile_parsing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 7d61318..74175b3 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -437,8 +437,8 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     // symlinks
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(std::move(path), size, attributes, symlink);
@@ -492,8 +492,8 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     // symlink
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
 
     file_entry entry(path, size, attributes, symlink);
-- 
2.43.0


From 7f98cce4442ea0dfc05efb472aedfbcda4a58d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 73/90] fix: symlinks without target or with a length are a
 parse error

---
 src/metafile_parsing.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 74175b3..3d3b019 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -404,6 +404,17 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 }
 
 
+static void validate_symlink(std::optional<file_attributes> attributes, std::size_t size,
+                             const std::optional<fs::path>& symlink)
+{
+    if (!attributes || (*attributes & file_attributes::symlink) != file_attributes::symlink)
+        return;
+    if (!symlink)
+        throw parse_error("symlink path", "missing symlink target");
+    if (size != 0)
+        throw parse_error("length", "symlinks must have zero length");
+}
+
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
@@ -440,6 +451,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
         symlink = parse_path(it->second);
     }
+    validate_symlink(attributes, size, symlink);
 
     file_entry entry(std::move(path), size, attributes, symlink);
 
@@ -495,6 +507,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
         symlink = parse_path(it->second);
     }
+    validate_symlink(attributes, size, symlink);
 
     file_entry entry(path, size, attributes, symlink);
     if (pieces_root) {
-- 
2.43.0


From c38c07adf677dc1f77ed6d9b8f333276e5b1a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 74/90] fix: a hybrid file tree entry missing from the file
 list is a parse error

---
 src/metafile_parsing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 3d3b019..74e999e 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -649,6 +649,9 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
 
     for (auto& v2_entry : v2_entries) {
         auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        if (it == storage.end()) {
+            throw parse_error("file tree", "file not present in the v1 file list");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
-- 
2.43.0


From 88e1b0392ef97b4606c8be3f146d9d8ed27b9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 75/90] fix: a file path that is not a list is a parse error

---
 src/metafile_parsing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 74e999e..04dc6da 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -366,7 +366,8 @@ void parse_other_info_fields(const T& data, metafile& m)
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
+    if (!holds_list(data))
+        throw parse_error("path", "expected list");
 
     fs::path p{};
     auto& blist = get_list(data);
-- 
2.43.0


From 57da15f7d1b547def3c0eef00a916c1e2c4ff071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 76/90] fix: a url-list with a single url string is accepted

---
 src/metafile_parsing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 04dc6da..7890861 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -190,6 +190,13 @@ void parse_web_seeds(const T& data, metafile& m)
 
     try {
         if (const auto it = dict.find(key); it != dict.end()) {
+            // BEP-19: a single url can be given as a string.
+            if (holds_string(it->second)) {
+                if (const auto& url = get_string(it->second); !url.empty()) {
+                    m.add_web_seed(url);
+                }
+                return;
+            }
             const auto& desc = get_list(it->second);
             for (const auto& c : desc) {
                 m.add_web_seed(get_string(c));
-- 
2.43.0


From d4dcb137901b3ccab092a8dec6ea05eda15ccf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 77/90] fix: files of exactly one piece do not have a piece
 layer

---
 src/metafile_parsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 7890861..73c8d30 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -740,7 +740,7 @@ void parse_piece_layers_v2(const T& data, metafile& m)
 
     for (auto& f: storage) {
         // piece layers are only set for files larger then the piece size
-        if (f.file_size() < m.storage().piece_size() || f.is_padding_file())
+        if (f.file_size() <= m.storage().piece_size() || f.is_padding_file())
             continue;
 
         auto root = f.pieces_root();
-- 
2.43.0


From 057685b553200f293b39bbfe4ae20ab52d728538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:34 +0000
Subject: [PATCH 78/90] fix: a file list with an entry that is not a dict is a
 parse error

---
 src/metafile_parsing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 73c8d30..9f5c396 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -555,7 +555,10 @@ void parse_file_list_v1(const T& data, metafile& m)
         // multi file torrents
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto& l = get_list(it->second);
-            for (auto f : l) {
+            for (const auto& f : l) {
+                if (!holds_dict(f)) {
+                    throw parse_error(key, "expected a dict for every file");
+                }
                 storage.add_file(parse_file_entry_v1(f));
             }
             storage.set_file_mode(file_mode::multi);
-- 
2.43.0


From d311a9f28d2111c8eac6c060e506ed45e760b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:34 +0000
Subject: [PATCH 79/90] fix: file paths that leave the torrent directory are a
 parse error

---
 src/metafile_parsing.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 9f5c396..8a803dd 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -384,6 +384,14 @@ fs::path parse_path(const T& data)
     return p;
 }
 
+/// Files of a torrent must be located inside the root directory of the torrent.
+static void validate_path(const fs::path& path)
+{
+    if (path.empty() || path.is_absolute() || rng::find(path, fs::path("..")) != path.end()) {
+        throw parse_error("path", "file path is not located inside the torrent");
+    }
+}
+
 template <bc::bvalue_or_bview T>
 static std::size_t parse_length(const T& data)
 {
@@ -444,6 +452,8 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         path = bencode::get_as<std::string_view>(name_field_it->second);
     }
 
+    validate_path(path);
+
     auto length_field_it = file_dict.find("length");
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
@@ -488,6 +498,8 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
 
     const auto& file_dict = get_dict(data);
 
+    validate_path(path);
+
     auto length_field_it = file_dict.find("length");
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
-- 
2.43.0


From 039efd934ab7919133191736495cd23c40255600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 80/90] fix: v2 and hybrid single file torrents are named after
 their file

---
 src/metafile_serialization.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..5450dff 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -80,7 +80,11 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
     auto& info = get_dict(binfo);
     const auto& storage = m.storage();
 
-    if (m.name().empty()) {
+    // the name of a single file torrent is the file name.
+    if (storage.file_mode() == file_mode::single) {
+        info.insert_or_assign("name", storage.at(0).path().filename().string());
+    }
+    else if (m.name().empty()) {
         info.insert_or_assign("name", storage.root_directory().filename().string());
     }
     else {
@@ -234,11 +238,14 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single file torrent is the file name.
+    if (storage.file_mode() != file_mode::single) {
+        if (m.name().empty()) {
+            info.insert_or_assign("name", storage.root_directory().filename().string());
+        }
+        else {
+            info.insert_or_assign("name", m.name());
+        }
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From 47f9d604c73957211c442f6cd7983e9b76c4845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 81/90] fix: the file mode of v2 metafiles is set when they are
 read

---
 src/metafile_parsing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a803dd..4804bc1 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -652,6 +652,10 @@ void parse_file_tree_v2(const T& data, metafile& m)
     for (auto&& r: results) {
         storage.add_file(std::move(r));
     }
+
+    // a single file torrent has one file with the name of the torrent.
+    const bool is_single = storage.file_count() == 1 && storage[0].path() == fs::path(m.name());
+    storage.set_file_mode(is_single ? file_mode::single : file_mode::multi);
 }
 
 template <bc::bvalue_or_bview T>
-- 
2.43.0


From 26936c4bfc3c7369ba1d56125c5481ab6240ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 82/90] fix: attributes and checksums of single file torrents
 are written

---
 src/metafile_parsing.cpp       |  4 ++++
 src/metafile_serialization.cpp | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 4804bc1..c614278 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -363,9 +363,13 @@ void parse_other_info_fields(const T& data, metafile& m)
         "source"sv,
     };
 
+    const bool is_single_file = info_dict.contains("length");
+
     for (const auto& [k, v] : info_dict) {
         auto tmp = std::string(k);
         if (known_keys.contains(k)) continue;
+        // file properties of single file torrents
+        if (is_single_file && (k == "attr" || k == "symlink path" || is_hash_function_name(k))) continue;
         m.other_info_fields().insert_or_assign(std::string(k), v);
     }
 }
diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 5450dff..2cd2b7b 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -18,6 +18,16 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -167,6 +177,16 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+
+        if (file.attributes()) {
+            info.insert_or_assign("attr", file.attributes().value());
+        }
+        if (file.is_symlink()) {
+            info.insert_or_assign("symlink path", file.symlink_path().value());
+        }
+        for (const auto& [algo, checksum] : file.checksums()) {
+            info.insert_or_assign(algo, checksum->value());
+        }
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From b53b88211a0694c13a4c986b35cabe8747482828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 83/90] fix: v2 metafiles can be written from a hybrid storage
 as documented

---
 src/metafile_serialization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index 2cd2b7b..b266992 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -110,6 +110,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
 
     auto ptr = &file_tree;
     for (const auto& file : storage) {
+        // padding files are only for v1
+        if (file.is_padding_file())
+            continue;
+
         for (const auto& component : file.path()) {
             if (auto it = ptr->find(component); it != ptr->end()) {
                 ptr = &get_dict(it->second);
-- 
2.43.0


From f52ead01254a07f9fa15179ebabac65d26aafaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:15 +0000
Subject: [PATCH 84/90] fix: a storage with one file and no explicit file mode
 is written as a file list

---
 src/file_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 057db52..645445d 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -97,7 +97,8 @@ file_mode file_storage::file_mode() const noexcept
     if (fc == 0) return file_mode::empty;
     // one file
     if (fc == 1) {
-        return file_mode_;
+        // a storage with a file is never empty, also if no mode was set.
+        return file_mode_ == file_mode::empty ? file_mode::multi : file_mode_;
     }
     // more then one file
     return file_mode::multi;
-- 
2.43.0


From a0a2a94b18b84389b1b9cf50abf79c4be0f7b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:11 +0000
Subject: [PATCH 85/90] fix: a total file size that overflows is a parse error

---
 src/metafile_parsing.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index c614278..d09ee4d 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -554,6 +554,15 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
 }
 
 
+static void add_parsed_file(file_storage& storage, file_entry&& entry)
+{
+    constexpr std::size_t max_size = std::numeric_limits<std::int64_t>::max();
+    if (entry.file_size() > max_size - storage.total_file_size()) {
+        throw parse_error("length", "total file size is too large");
+    }
+    storage.add_file(std::move(entry));
+}
+
 template <bc::bvalue_or_bview T>
 void parse_file_list_v1(const T& data, metafile& m)
 {
@@ -575,13 +584,13 @@ void parse_file_list_v1(const T& data, metafile& m)
                 if (!holds_dict(f)) {
                     throw parse_error(key, "expected a dict for every file");
                 }
-                storage.add_file(parse_file_entry_v1(f));
+                add_parsed_file(storage, parse_file_entry_v1(f));
             }
             storage.set_file_mode(file_mode::multi);
         }
         // single file torrent
         else {
-            storage.add_file(parse_file_entry_v1(dict.at("info")));
+            add_parsed_file(storage, parse_file_entry_v1(dict.at("info")));
             storage.set_file_mode(file_mode::single);
         }
     }
@@ -654,7 +663,7 @@ void parse_file_tree_v2(const T& data, metafile& m)
 
     auto& storage = m.storage();
     for (auto&& r: results) {
-        storage.add_file(std::move(r));
+        add_parsed_file(storage, std::move(r));
     }
 
     // a single file torrent has one file with the name of the torrent.
-- 
2.43.0


From aec3717aa424430f582cbf4c47748164881c10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:19 +0000
Subject: [PATCH 86/90] fix: symlink target given with a trailing separator or
 dot has no empty last component

---
 src/file_entry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 948ea0b..920f581 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -291,8 +291,12 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     if (keep_symlink) {
         *attributes |= file_attributes::symlink;
         // relative to the root directory, not to the directory of the symlink.
-        symlink_path = (file.parent_path() / fs::read_symlink(file)).lexically_normal()
-                .lexically_relative(root_directory);
+        auto target = (file.parent_path() / fs::read_symlink(file)).lexically_normal();
+        // a trailing separator would be recorded as an empty path component.
+        if (!target.has_filename()) {
+            target = target.parent_path();
+        }
+        symlink_path = target.lexically_relative(root_directory);
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From 9e9acf796daa575c01ebda1bf24430d1cb2cbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:28 +0000
Subject: [PATCH 87/90] fix: verification treats a directory or special file in
 place of a file as a missing file

---
 src/v1_chunk_reader.cpp | 6 ++++--
 src/v2_chunk_reader.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 5eb0220..c3b80df 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -21,9 +21,11 @@ void v1_chunk_reader::run()
         if (cancelled_.load(std::memory_order_relaxed)) [[unlikely]] break;
         const file_entry& file_entry = storage.at(file_index_);
 
-        // handle pieces if the file does not exists. Used when verifying torrents.
+        // handle pieces if the file does not exists, or something else took its place.
+        // Used when verifying torrents.
         const bool is_padding_file = file_entry.is_padding_file();
-        if (!is_padding_file && !fs::exists(file_path)) [[unlikely]] {
+        std::error_code ec {};
+        if (!is_padding_file && !fs::is_regular_file(file_path, ec)) [[unlikely]] {
             handle_missing_file();
             ++file_index_;
             continue;
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index ceeba80..6410cfd 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -26,8 +26,10 @@ void v2_chunk_reader::run()
             continue;
         }
 
-        // handle pieces if the file does not exists. Used when verifying torrents.
-        if (!fs::exists(file_path)) {
+        // handle pieces if the file does not exists, or something else took its place.
+        // Used when verifying torrents.
+        std::error_code ec {};
+        if (!fs::is_regular_file(file_path, ec)) {
             auto file_size = file_entry.file_size();
             push({static_cast<std::uint32_t>(0),
                   static_cast<std::uint32_t>(file_index_),
-- 
2.43.0


From b1cc85ac0e58298c629fb6a136017e13d03d4ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:29 +0000
Subject: [PATCH 88/90] fix: checksums of v2 and hybrid torrents with a symlink
 to a missing file or a directory

---
 src/v2_checksum_hasher.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 203789c..342dc38 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -13,10 +13,14 @@ void v2_checksum_hasher::hash_chunk(std::vector<std::unique_ptr<single_buffer_ha
 
 void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chunk& item)
 {
-    Expects(item.data != nullptr);
-
     file_storage& storage = storage_;
 
+    // The file does not exists or is a symlink to a missing file: there is no content to hash.
+    if (item.data == nullptr) {
+        bytes_done_.fetch_add(storage[item.file_index].file_size(), std::memory_order_relaxed);
+        return;
+    }
+
     std::size_t chunk_size = item.data->size();
 
     // Chunks are received in order, padding files are skipped.
-- 
2.43.0


From 25375528d758c811301dec66f2406bdba0af12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 89/90] fix: an error while reading files is reported by wait
 instead of being ignored or ending the program

---
 include/dottorrent/chunk_reader.hpp |  6 ++++++
 src/chunk_reader.cpp                | 13 ++++++++++++-
 src/storage_hasher.cpp              |  4 ++++
 src/storage_verifier.cpp            |  4 ++++
 src/v1_chunk_reader.cpp             |  8 ++++----
 src/v2_chunk_reader.cpp             |  8 ++++----
 6 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index aa3a426..18aebff 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <atomic>
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <string>
 #include <thread>
@@ -43,6 +44,10 @@ public:
     /// Block until the reader completes all work or terminates because of a cancellation request.
     void wait();
 
+    /// The error that ended the reader before all data was read, null if there was none.
+    /// @note Only valid after wait returned.
+    std::exception_ptr error() const noexcept;
+
     bool started() const noexcept;
 
     bool done() const noexcept;
@@ -61,6 +66,7 @@ protected:
     pool::object_pool<data_type> pool_;
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
+    std::exception_ptr error_ {};
     std::jthread thread_;
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 66595f6..0b96c15 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -31,7 +31,13 @@ void chunk_reader::start() {
     if (cancelled())
         throw std::runtime_error("cancelled");
 
-    thread_ = std::jthread(&chunk_reader::run, this);
+    thread_ = std::jthread([this]() {
+        try {
+            run();
+        } catch (...) {
+            error_ = std::current_exception();
+        }
+    });
     started_.store(true, std::memory_order_release);
 }
 
@@ -46,6 +52,11 @@ void chunk_reader::wait() {
     thread_.join();
 }
 
+std::exception_ptr chunk_reader::error() const noexcept
+{
+    return error_;
+}
+
 bool chunk_reader::started() const noexcept
 {
     return started_.load(std::memory_order_acquire);
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index eb49e74..97323d6 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -213,6 +213,10 @@ void storage_hasher::wait()
     verifier_->wait();
 
     stopped_ = true;
+
+    // report errors of the reader now all threads have finished
+    if (auto error = reader_->error())
+        std::rethrow_exception(error);
 }
 
 bool storage_hasher::running() const noexcept
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index c2cdeec..2e16be6 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -183,6 +183,10 @@ void storage_verifier::wait()
     Expects(verifier_->done());
 
     stopped_ = true;
+
+    // report errors of the reader now all threads have finished
+    if (auto error = reader_->error())
+        std::rethrow_exception(error);
 }
 
 bool storage_verifier::running() const noexcept
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index c3b80df..9da9c89 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -52,6 +52,10 @@ void v1_chunk_reader::run()
             const auto bytes_to_read = std::min(chunk_size_-chunk_offset_, bytes_left);
             const auto first = std::next(chunk_->data(), chunk_offset_);
             f_.read(reinterpret_cast<char*>(first), bytes_to_read);
+            if (f_.fail() && !f_.eof()) [[unlikely]] {
+                throw std::runtime_error(
+                        fmt::format("I/O error reading: {}", file_entry.path().string()));
+            }
             const auto bytes_read = static_cast<std::size_t>(f_.gcount());
             // replace missing data with zero bytes
             std::fill_n(first+bytes_read, bytes_to_read-bytes_read, std::byte(0));
@@ -79,10 +83,6 @@ void v1_chunk_reader::run()
             }
             // all data of this file is read
             if (bytes_left == 0) [[unlikely]] break;
-            if (f_.fail() && !f_.eof()) [[unlikely]] {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index 6410cfd..f3e41a4 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -53,6 +53,10 @@ void v2_chunk_reader::run()
         while (!cancelled_.load(std::memory_order_relaxed)) {
             current_chunk_size_ = std::min(chunk_size_, bytes_left);
             f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+            if (f_.fail() && !f_.eof()) {
+                throw std::runtime_error(
+                        fmt::format("I/O error reading: {}", file_entry.path().string()));
+            }
             const auto bytes_read = static_cast<std::size_t>(f_.gcount());
             // replace missing data with zero bytes
             std::fill(std::next(chunk->begin(), bytes_read), chunk->end(), std::byte(0));
@@ -75,10 +79,6 @@ void v2_chunk_reader::run()
 
             // all data of this file is read
             if (bytes_left == 0) break;
-            if (f_.fail() && !f_.eof()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
         }
         f_.close();
         f_.clear();
-- 
2.43.0


From 841cf1e756363bc418c90be407626d2ebee000f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:49 +0000
Subject: [PATCH 90/90] fix: hashing a storage with missing or shortened files
 is an error

---
 include/dottorrent/chunk_reader.hpp | 5 ++++-
 src/chunk_reader.cpp                | 3 ++-
 src/storage_hasher.cpp              | 4 ++--
 src/v1_chunk_reader.cpp             | 8 ++++++++
 src/v2_chunk_reader.cpp             | 8 ++++++++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index 18aebff..f4719e2 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -28,7 +28,9 @@ public:
     using hash_queue_vector = std::vector<std::shared_ptr<hash_queue>>;
     using checksum_queue_vector = std::vector<std::shared_ptr<checksum_queue>>;
 
-    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity);
+    /// @param allow_missing_data: Replace the data of missing files and files which are smaller
+    ///     than their file entry with zero bytes instead of ending with an error.
+    chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity, bool allow_missing_data = true);
 
     void register_hash_queue(std::shared_ptr<hash_queue> q);
 
@@ -63,6 +65,7 @@ protected:
 
     std::reference_wrapper<file_storage> storage_;
     std::size_t chunk_size_;
+    bool allow_missing_data_;
     pool::object_pool<data_type> pool_;
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 0b96c15..69a94b6 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -4,9 +4,10 @@
 
 namespace dottorrent {
 
-chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity)
+chunk_reader::chunk_reader(file_storage& storage, std::size_t block_size, std::size_t capacity, bool allow_missing_data)
         : storage_(storage)
         , chunk_size_(block_size)
+        , allow_missing_data_(allow_missing_data)
         , pool_(capacity)
 {
     Expects(storage.piece_size() >= 16_KiB);
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 97323d6..0fdb475 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -102,10 +102,10 @@ void storage_hasher::start() {
     auto& storage = storage_.get();
 
     if (protocol_ == protocol::v1) {
-        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v1_chunk_reader>(storage_, io_block_size_, queue_capacity_, false);
     }
     else {
-        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_);
+        reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_, false);
     }
 
     if (protocol_ == protocol::v1) {
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index 9da9c89..849f4db 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -26,6 +26,10 @@ void v1_chunk_reader::run()
         const bool is_padding_file = file_entry.is_padding_file();
         std::error_code ec {};
         if (!is_padding_file && !fs::is_regular_file(file_path, ec)) [[unlikely]] {
+            if (!allow_missing_data_ && !file_entry.is_symlink()) {
+                throw std::runtime_error(
+                        fmt::format("file does not exist: {}", file_entry.path().string()));
+            }
             handle_missing_file();
             ++file_index_;
             continue;
@@ -57,6 +61,10 @@ void v1_chunk_reader::run()
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
             const auto bytes_read = static_cast<std::size_t>(f_.gcount());
+            if (!allow_missing_data_ && !is_padding_file && bytes_read != bytes_to_read) [[unlikely]] {
+                throw std::runtime_error(
+                        fmt::format("file is smaller than expected: {}", file_entry.path().string()));
+            }
             // replace missing data with zero bytes
             std::fill_n(first+bytes_read, bytes_to_read-bytes_read, std::byte(0));
 
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index f3e41a4..4feb2e9 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -30,6 +30,10 @@ void v2_chunk_reader::run()
         // Used when verifying torrents.
         std::error_code ec {};
         if (!fs::is_regular_file(file_path, ec)) {
+            if (!allow_missing_data_ && !file_entry.is_symlink()) {
+                throw std::runtime_error(
+                        fmt::format("file does not exist: {}", file_entry.path().string()));
+            }
             auto file_size = file_entry.file_size();
             push({static_cast<std::uint32_t>(0),
                   static_cast<std::uint32_t>(file_index_),
@@ -58,6 +62,10 @@ void v2_chunk_reader::run()
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
             const auto bytes_read = static_cast<std::size_t>(f_.gcount());
+            if (!allow_missing_data_ && bytes_read != current_chunk_size_) {
+                throw std::runtime_error(
+                        fmt::format("file is smaller than expected: {}", file_entry.path().string()));
+            }
             // replace missing data with zero bytes
             std::fill(std::next(chunk->begin(), bytes_read), chunk->end(), std::byte(0));
 
-- 
2.43.0

