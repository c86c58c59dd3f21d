From 335ad2b76cb57eb98b847133de4bc34a9682d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 01/12] fix: parsing or assigning into a used Jwt drops the
 previous token's claims

audiences_ was appended to and kid_, iss_, sub_, jti_, iat_, nbf_, exp_ kept
their old value when the new token does not have the claim, so a reused or
assigned-to (even self-assigned) Jwt mixed the claims of two tokens.
---
 src/jwt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 2c22eb4..dc83b6c 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -48,10 +48,29 @@ Jwt& Jwt::operator=(const Jwt& rhs) {
 }
 
 Status Jwt::parseFromString(const std::string& jwt) {
-  // jwt must have exactly 2 dots with 3 sections.
+  // Drop everything an earlier parse has left in this object. "jwt" may be our
+  // own jwt_ (self-assignment), so only use jwt_ from here on.
   jwt_ = jwt;
+  header_str_.clear();
+  header_str_base64url_.clear();
+  header_pb_.Clear();
+  payload_str_.clear();
+  payload_str_base64url_.clear();
+  payload_pb_.Clear();
+  signature_.clear();
+  alg_.clear();
+  kid_.clear();
+  iss_.clear();
+  audiences_.clear();
+  sub_.clear();
+  iat_ = 0;
+  nbf_ = 0;
+  exp_ = 0;
+  jti_.clear();
+
+  // jwt must have exactly 2 dots with 3 sections.
   std::vector<absl::string_view> jwt_split =
-      absl::StrSplit(jwt, '.', absl::SkipEmpty());
+      absl::StrSplit(jwt_, '.', absl::SkipEmpty());
   if (jwt_split.size() != 3) {
     return Status::JwtBadFormat;
   }
-- 
2.43.0


From 3d070a87885fe6347a5d7d78e328e75dc03003b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 02/12] fix: reject a Jwt that does not have exactly two dots

Empty sections were skipped before counting, so ".h..p.s." was accepted
although a Jwt must be Header.Payload.Signature with two dots.
---
 src/jwt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index dc83b6c..500b1c1 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -71,7 +71,7 @@ Status Jwt::parseFromString(const std::string& jwt) {
   // jwt must have exactly 2 dots with 3 sections.
   std::vector<absl::string_view> jwt_split =
       absl::StrSplit(jwt_, '.', absl::SkipEmpty());
-  if (jwt_split.size() != 3) {
+  if (jwt_split.size() != 3 || std::count(jwt_.begin(), jwt_.end(), '.') != 2) {
     return Status::JwtBadFormat;
   }
 
-- 
2.43.0


From db95074df356086f46e2110c5544c8bd4434116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 03/12] fix: time constraint checks no longer wrap around for a
 large clock skew

now + clock_skew and exp + clock_skew could overflow, which rejected tokens
well within the allowed skew.
---
 src/jwt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwt.cc b/src/jwt.cc
index 500b1c1..493dc57 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -166,11 +166,12 @@ Status Jwt::parseFromString(const std::string& jwt) {
 
 Status Jwt::verifyTimeConstraint(uint64_t now, uint64_t clock_skew) const {
   // Check Jwt is active (nbf).
-  if (now + clock_skew < nbf_) {
+  // Compare differences: adding clock_skew could wrap around.
+  if (now < nbf_ && nbf_ - now > clock_skew) {
     return Status::JwtNotYetValid;
   }
   // Check JWT has not expired (exp).
-  if (exp_ && now > exp_ + clock_skew) {
+  if (exp_ && now > exp_ && now - exp_ > clock_skew) {
     return Status::JwtExpired;
   }
   return Status::Ok;
-- 
2.43.0


From 7ed78746be958bbfcd594fb9f9be8b7c79cdb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 04/12] fix: only verify a Jwt with keys of the type its alg is
 for

An EC, oct or OKP key without "alg" was used for a Jwt of any alg (RSA keys
already check it): a Jwt whose alg names another algorithm was accepted, and an
OKP key listed before the right key failed every non-EdDSA Jwt with
JwtEd25519SignatureWrongLength instead of going on to the other keys.
---
 src/verify.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 70eb817..fbee68e 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -227,6 +227,10 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
     kid_alg_matched = true;
 
     if (jwk->kty_ == "EC") {
+      if (jwt.alg_.compare(0, 2, "ES") != 0) {
+        // Not an ECDSA token: this key cannot verify it.
+        continue;
+      }
       const EVP_MD* md;
       if (jwt.alg_ == "ES384") {
         md = EVP_sha384();
@@ -267,6 +271,10 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         }
       }
     } else if (jwk->kty_ == "oct") {
+      if (jwt.alg_.compare(0, 2, "HS") != 0) {
+        // Not an HMAC token: this key cannot verify it.
+        continue;
+      }
       const EVP_MD* md;
       if (jwt.alg_ == "HS384") {
         md = EVP_sha384();
@@ -282,6 +290,10 @@ Status verifyJwtWithoutTimeChecking(const Jwt& jwt, const Jwks& jwks) {
         return Status::Ok;
       }
     } else if (jwk->kty_ == "OKP" && jwk->crv_ == "Ed25519") {
+      if (jwt.alg_ != "EdDSA") {
+        // Not an EdDSA token: this key cannot verify it.
+        continue;
+      }
       Status status = verifySignatureEd25519(jwk->okp_key_raw_, jwt.signature_,
                                              signed_data);
       // For verification failures keep going and try the rest of the keys in
-- 
2.43.0


From 8276132a92b1ae2bdd1da5eed802161e16cdfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 05/12] fix: reject ECDSA signatures that are not exactly R ||
 S

A trailing byte after R || S was ignored and zero-padded or shortened halves
were accepted, so a changed signature could still verify (RFC 7518, 3.4).
---
 src/verify.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index fbee68e..5b63ee9 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -111,6 +111,13 @@ bool verifySignatureEC(EC_KEY* key, const EVP_MD* md, const uint8_t* signature,
       signed_data == nullptr) {
     return false;
   }
+  // The signature is R || S, each as long as the curve's field elements.
+  // https://tools.ietf.org/html/rfc7518#section-3.4
+  const size_t coordinate_len =
+      (EC_GROUP_get_degree(EC_KEY_get0_group(key)) + 7) / 8;
+  if (signature_len != 2 * coordinate_len) {
+    return false;
+  }
   bssl::UniquePtr<EVP_MD_CTX> md_ctx(EVP_MD_CTX_create());
   std::vector<uint8_t> digest(EVP_MAX_MD_SIZE);
   unsigned int digest_len = 0;
-- 
2.43.0


From 73c8d9f56921d1500c478ad60a1142089ace0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 06/12] fix: GetUInt64 reports NaN as out of range

The range check let NaN through to a cast to uint64_t, which is undefined.
---
 src/struct_utils.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index 077a1d5..e8d0499 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -57,9 +57,10 @@ StructUtils::FindResult StructUtils::GetUInt64(const std::string& name,
   if (result != OK) {
     return result;
   }
-  if (double_value < 0 ||
-      double_value >=
-          static_cast<double>(std::numeric_limits<uint64_t>::max())) {
+  // Written so that NaN is out of range as well.
+  if (!(double_value >= 0 &&
+        double_value <
+            static_cast<double>(std::numeric_limits<uint64_t>::max()))) {
     return OUT_OF_RANGE;
   }
   *int_value = static_cast<uint64_t>(double_value);
-- 
2.43.0


From f6292d524b31bcbaa7dfa61754a6bc026d91539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 07/12] fix: no keys are left behind when an X509 key set fails
 to load

The certificates before the bad one, in the unspecified order of a protobuf
map, stayed usable although the key set's status is an error.
---
 src/jwks.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwks.cc b/src/jwks.cc
index 2b1acb0..2470af9 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -409,6 +409,8 @@ Status createFromX509(const ::google::protobuf::Struct& jwks_pb,
     Jwks::PubkeyPtr key_ptr(new Jwks::Pubkey());
     Status status = extractX509(kid.second.string_value(), key_ptr.get());
     if (status != Status::Ok) {
+      // Do not leave a partial key set, which depends on the map's order.
+      keys.clear();
       return status;
     }
 
-- 
2.43.0


From 3ab971ef967e3e457d198c9bde9c6c1d41989c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 08/12] fix: overlapping lookups with different options keep
 the LRU list intact

An entry that was looked up both with and without update_eviction_order
could end up off the LRU list for good (and so never be evicted), twice on
it, or out of order.
---
 simple_lru_cache/simple_lru_cache_inl.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 99aad30..442dc9c 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -561,6 +561,7 @@ class SimpleLRUCacheBase {
   // Note, if (value == nullptr), only key is used for matching.
   bool inDeferredTable(const Key& k, const Value* value) const;
 
+  void linkInOrder(Elem* e);           // Put on LRU list, by last_use_
   void garbageCollect();               // Discard to meet space constraints
   void discardIdle(int64_t max_idle);  // Discard to meet idle-time constraints
 
@@ -735,11 +736,14 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::releaseWithOptions(
     assert(e->pin > 0);
     if (lru_ && options.update_eviction_order()) {
       e->last_use_ = SimpleCycleTimer::now();
+      // The entry is still on the LRU list if it was first pinned by a lookup
+      // that does not update the eviction order.
+      e->unlink();
     }
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->link(&head_);
+      if (!e->isLinked()) linkInOrder(e);
       pinned_units_ -= e->units;
       if (isOverfullInternal()) {
         // This element is no longer needed, and we are full. So kick it out.
@@ -867,6 +871,17 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::remove(Elem* e) {
   }
 }
 
+template <class Key, class Value, class MapType, class EQ>
+void SimpleLRUCacheBase<Key, Value, MapType, EQ>::linkInOrder(Elem* e) {
+  // The LRU list is sorted by last_use_, and an entry that has just been used
+  // goes to the front. Only one that was used earlier has to look further.
+  Elem* pos = &head_;
+  while (pos->next != &head_ && pos->next->last_use_ > e->last_use_) {
+    pos = pos->next;
+  }
+  e->link(pos);
+}
+
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::garbageCollect() {
   Elem* e = head_.prev;
-- 
2.43.0


From 84da3c0f9adc06f26ffdd9a8eafb60e8dc45e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 09/12] fix: an entry that idles out while pinned without
 update no longer aborts

A lookup that does not update the eviction order leaves the entry on the LRU
list, so idle expiration can meet a pinned entry in the LRU mode too.
---
 simple_lru_cache/simple_lru_cache_inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 442dc9c..93f8a00 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -936,9 +936,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::discardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // The only pinned elements on the list in the LRU mode are those looked up
+    // without updating the eviction order. We push them out of the main table
+    // regardless of pinning, as all elements in the age-based mode.
     remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 4e7bdc64876d8b9b090b7d91982f61770dc47e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 10/12] fix: entries that are pinned when age-based eviction is
 set stay evictable

In the LRU mode pinned entries are off the list, and in the age-based mode
nothing put them back: they were never expired nor evicted.
---
 simple_lru_cache/simple_lru_cache_inl.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 93f8a00..4f6247b 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -566,6 +566,7 @@ class SimpleLRUCacheBase {
   void discardIdle(int64_t max_idle);  // Discard to meet idle-time constraints
 
   void setTimeout(double seconds, bool lru);
+  void setLru(bool lru);
 
   bool isOverfullInternal() const {
     return ((units_ > max_units_) || isOverfull());
@@ -592,19 +593,30 @@ SimpleLRUCacheBase<Key, Value, MapType, EQ>::SimpleLRUCacheBase(
   lru_ = true;     // default to LRU, not age-based
 }
 
+template <class Key, class Value, class MapType, class EQ>
+void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setLru(bool lru) {
+  if (lru_ && !lru) {
+    // In the age-based mode pinned entries are on the list, too.
+    for (TableIterator iter = table_.begin(); iter != table_.end(); ++iter) {
+      if (!iter->second->isLinked()) linkInOrder(iter->second);
+    }
+  }
+  lru_ = lru;
+}
+
 template <class Key, class Value, class MapType, class EQ>
 void SimpleLRUCacheBase<Key, Value, MapType, EQ>::setTimeout(double seconds,
                                                              bool lru) {
   if (seconds < 0 || std::isinf(seconds)) {
     // Treat as no expiration based on idle time
-    lru_ = lru;
+    setLru(lru);
     max_idle_ = -1;
   } else if (max_idle_ >= 0 && lru != lru_) {
     // LOG(DFATAL) << "Can't setMaxIdleSeconds() and setAgeBasedEviction()";
     // In production we'll just ignore the second call
     assert(0);
   } else {
-    lru_ = lru;
+    setLru(lru);
 
     // Convert to cycles ourselves in order to perform all calculations in
     // floating point so that we avoid integer overflow.
-- 
2.43.0


From 584320316a3e5a18486df3bd2766421d4caf0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:25 +0000
Subject: [PATCH 11/12] fix: reject deeply nested JSON before parsing it takes
 more than quadratic time

---
 jwt_verify_lib/struct_utils.h |  6 ++++++
 src/jwks.cc                   |  5 +++++
 src/jwt.cc                    |  6 ++++++
 src/struct_utils.cc           | 25 +++++++++++++++++++++++++
 4 files changed, 42 insertions(+)

diff --git a/jwt_verify_lib/struct_utils.h b/jwt_verify_lib/struct_utils.h
index 5365f84..cb81c11 100644
--- a/jwt_verify_lib/struct_utils.h
+++ b/jwt_verify_lib/struct_utils.h
@@ -23,6 +23,12 @@ class StructUtils {
  public:
   StructUtils(const ::google::protobuf::Struct& struct_pb);
 
+  // Whether a JSON text nests objects and lists deeper than any text that can
+  // be read as a Struct (protobuf's limit is 100 messages, and each level takes
+  // at least two). Check this before calling JsonStringToMessage, whose time
+  // is otherwise worse than quadratic in the nesting depth.
+  static bool IsNestedTooDeep(const std::string& json);
+
   enum FindResult {
     OK = 0,
     MISSING,
diff --git a/src/jwks.cc b/src/jwks.cc
index 2470af9..e035384 100644
--- a/src/jwks.cc
+++ b/src/jwks.cc
@@ -525,6 +525,11 @@ void Jwks::createFromPemCore(const std::string& pkey_pem) {
 void Jwks::createFromJwksCore(const std::string& jwks_json) {
   keys_.clear();
 
+  if (StructUtils::IsNestedTooDeep(jwks_json)) {
+    updateStatus(Status::JwksParseError);
+    return;
+  }
+
   ::google::protobuf::util::JsonParseOptions options;
   ::google::protobuf::Struct jwks_pb;
   const auto status = ::google::protobuf::util::JsonStringToMessage(
diff --git a/src/jwt.cc b/src/jwt.cc
index 493dc57..211cb7b 100644
--- a/src/jwt.cc
+++ b/src/jwt.cc
@@ -82,6 +82,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
   }
 
   ::google::protobuf::util::JsonParseOptions options;
+  if (StructUtils::IsNestedTooDeep(header_str_)) {
+    return Status::JwtHeaderParseErrorBadJson;
+  }
   const auto header_status = ::google::protobuf::util::JsonStringToMessage(
       header_str_, &header_pb_, options);
   if (!header_status.ok()) {
@@ -109,6 +112,9 @@ Status Jwt::parseFromString(const std::string& jwt) {
     return Status::JwtPayloadParseErrorBadBase64;
   }
 
+  if (StructUtils::IsNestedTooDeep(payload_str_)) {
+    return Status::JwtPayloadParseErrorBadJson;
+  }
   const auto payload_status = ::google::protobuf::util::JsonStringToMessage(
       payload_str_, &payload_pb_, options);
   if (!payload_status.ok()) {
diff --git a/src/struct_utils.cc b/src/struct_utils.cc
index e8d0499..caf9da0 100644
--- a/src/struct_utils.cc
+++ b/src/struct_utils.cc
@@ -22,6 +22,31 @@ namespace jwt_verify {
 StructUtils::StructUtils(const ::google::protobuf::Struct& struct_pb)
     : struct_pb_(struct_pb) {}
 
+bool StructUtils::IsNestedTooDeep(const std::string& json) {
+  constexpr int kMaxDepth = 100;
+  int depth = 0;
+  char quote = 0;  // the quote that ends the current string
+  for (size_t i = 0; i < json.size(); ++i) {
+    const char c = json[i];
+    if (quote != 0) {
+      if (c == '\\') {
+        ++i;
+      } else if (c == quote) {
+        quote = 0;
+      }
+    } else if (c == '"' || c == '\'') {
+      quote = c;
+    } else if (c == '{' || c == '[') {
+      if (++depth > kMaxDepth) {
+        return true;
+      }
+    } else if (c == '}' || c == ']') {
+      --depth;
+    }
+  }
+  return false;
+}
+
 StructUtils::FindResult StructUtils::GetString(const std::string& name,
                                                std::string* str_value) {
   const ::google::protobuf::Value* found;
-- 
2.43.0


From b252779c5cf531ae118c0fdd95c9ffe7ebea864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:43 +0000
Subject: [PATCH 12/12] fix: no overflow in the age of an entry that has been
 idle for months

---
 simple_lru_cache/simple_lru_cache_inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simple_lru_cache/simple_lru_cache_inl.h b/simple_lru_cache/simple_lru_cache_inl.h
index 4f6247b..30a7998 100644
--- a/simple_lru_cache/simple_lru_cache_inl.h
+++ b/simple_lru_cache/simple_lru_cache_inl.h
@@ -990,8 +990,11 @@ template <class Key, class Value, class MapType, class EQ>
 int64_t SimpleLRUCacheBase<Key, Value, MapType,
                            EQ>::ageOfLRUItemInMicroseconds() const {
   if (head_.prev == &head_) return 0;
-  return kSecToUsec * (SimpleCycleTimer::now() - head_.prev->last_use_) /
-         SimpleCycleTimer::frequency();
+  const int64_t age = SimpleCycleTimer::now() - head_.prev->last_use_;
+  const int64_t frequency = SimpleCycleTimer::frequency();
+  // Whole seconds apart, as the product would overflow for long times.
+  return age / frequency * kSecToUsec +
+         age % frequency * kSecToUsec / frequency;
 }
 
 template <class Key, class Value, class MapType, class EQ>
-- 
2.43.0

