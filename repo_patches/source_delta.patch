From 3d60250a29b5df4c6dd0ae87d8b88697b660abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 01/24] fix: give fpconv_dtoa room for its longest output

A negative number with 17 digits followed by 7 zeros (e.g. -4.5334930805451006e23)
takes 25 characters; the 24-byte buffer overflowed into its own cursor and
stack contents were printed as part of the JSON text.
---
 include/eosio/fpconv.c    |  2 +-
 include/eosio/fpconv.h    | 10 +++++-----
 include/eosio/to_json.hpp |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..c3d9b5e 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -308,7 +308,7 @@ static int filter_special(double fp, char* dest)
     return 3;
 }
 
-int fpconv_dtoa(double d, char dest[24])
+int fpconv_dtoa(double d, char dest[25])
 {
     char digits[18];
 
diff --git a/include/eosio/fpconv.h b/include/eosio/fpconv.h
index 5c9dc78..39aced3 100644
--- a/include/eosio/fpconv.h
+++ b/include/eosio/fpconv.h
@@ -10,8 +10,8 @@
  *
  * Input:
  * fp -> the double to convert, dest -> destination buffer.
- * The generated string will never be longer than 24 characters.
- * Make sure to pass a pointer to at least 24 bytes of memory.
+ * The generated string will never be longer than 25 characters.
+ * Make sure to pass a pointer to at least 25 bytes of memory.
  * The emitted string will not be null terminated.
  *
  * Output:
@@ -21,7 +21,7 @@
  *
  * void print(double d)
  * {
- *      char buf[24 + 1] // plus null terminator
+ *      char buf[25 + 1] // plus null terminator
  *      int str_len = fpconv_dtoa(d, buf);
  *
  *      buf[str_len] = '\0';
@@ -31,9 +31,9 @@
  */
 
 #   ifdef __cplusplus
-extern "C" int fpconv_dtoa(double fp, char dest[24]);
+extern "C" int fpconv_dtoa(double fp, char dest[25]);
 #   else
-int fpconv_dtoa(double fp, char dest[24]);
+int fpconv_dtoa(double fp, char dest[25]);
 #   endif
 
 #endif
diff --git a/include/eosio/to_json.hpp b/include/eosio/to_json.hpp
index 3c62ef9..7eb626a 100644
--- a/include/eosio/to_json.hpp
+++ b/include/eosio/to_json.hpp
@@ -118,7 +118,7 @@ void fp_to_json(double value, S& stream) {
    } else if (std::isnan(value)) {
       stream.write("\"NaN\"", 5);
    } else {
-      small_buffer<24> b; // fpconv_dtoa generates at most 24 characters
+      small_buffer<25> b; // fpconv_dtoa generates at most 25 characters
       int              n = fpconv_dtoa(value, b.pos);
       check( n > 0, convert_stream_error(stream_error::float_error) );
       b.pos += n;
-- 
2.43.0


From 02518349661770790ea9fc1f458ac65e9a9eedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 02/24] fix: accept subnormal floating-point numbers in JSON

strtod and strtof report ERANGE for subnormal results too, so values the
library itself prints (e.g. 5e-324) could not be read back.
---
 include/eosio/from_json.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..06e5e74 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -485,7 +485,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(),
+   // ERANGE is also reported for subnormal results, which are representable
+   check( (!errno || std::abs(result) < 1) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
 
@@ -497,7 +498,8 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
+   // ERANGE is also reported for subnormal results, which are representable
+   check( (!errno || std::abs(result) < 1) && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
 }
 
 /*
-- 
2.43.0


From 78f70cbae0da9c960d1f038bcbb723834f645406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 03/24] fix: reject JSON text containing a nul character

abi_type::json_to_bin and json_to_bin_reorderable take a string_view but the
reader stops at the first nul, so anything after it was silently ignored.
---
 src/abieos.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..634f27c 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -507,6 +507,9 @@ ABIEOS_NODISCARD inline bool receive_event(struct json_to_jvalue_state& state, e
 
 template<typename F>
 inline void json_to_jvalue(jvalue& value, std::string_view json, F&& f) {
+    // the reader stops at the first nul character; don't let one hide the rest of the text
+    eosio::check(json.find('\0') == json.npos,
+        eosio::convert_json_error(eosio::from_json_error::unspecific_syntax_error));
     std::string mutable_json{json};
     mutable_json.push_back(0);
     mutable_json.push_back(0);
@@ -738,6 +741,9 @@ inline void json_to_bin(std::string*, State& state, bool, const abi_type*,
 
 template<typename F>
 inline void json_to_bin(std::vector<char>& bin, const abi_type* type, std::string_view json, F&& f) {
+    // the reader stops at the first nul character; don't let one hide the rest of the text
+    eosio::check(json.find('\0') == json.npos,
+        eosio::convert_json_error(eosio::from_json_error::unspecific_syntax_error));
     std::string mutable_json{json};
     mutable_json.push_back(0);
     mutable_json.push_back(0);
-- 
2.43.0


From 114261b39ee0e14f9b317a293a291925faa1a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 04/24] fix: reject boolean bytes other than 0 and 1 when
 decoding

Any byte was copied into a bool, so binary that no value encodes to was
accepted (and the bool had an invalid representation).
---
 include/eosio/from_bin.hpp | 9 +++++++--
 include/eosio/stream.hpp   | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..271cd67 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -80,7 +80,7 @@ void from_bin(T (&v)[N], S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
    check( size == N, convert_stream_error(stream_error::array_size_mismatch) );
-   if constexpr (has_bitwise_serialization<T>()) {
+   if constexpr (has_bitwise_serialization<T>() && !std::is_same_v<T, bool>) {
       stream.read(reinterpret_cast<char*>(v), size * sizeof(T));
    } else {
       for (size_t i = 0; i < size; ++i) {
@@ -235,7 +235,12 @@ void from_bin(std::tuple<T...>& obj, S& stream) {
 
 template <typename T, typename S>
 void from_bin(T& obj, S& stream) {
-   if constexpr (has_bitwise_serialization<T>()) {
+   if constexpr (std::is_same_v<T, bool>) {
+      uint8_t value;
+      from_bin(value, stream);
+      check( value <= 1, convert_stream_error(stream_error::invalid_bool_encoding) );
+      obj = value;
+   } else if constexpr (has_bitwise_serialization<T>()) {
       stream.read(reinterpret_cast<char*>(&obj), sizeof(T));
    } else if constexpr (std::is_same_v<serialization_type<T>, void>) {
       for_each_field(obj, [&](auto& member) {
diff --git a/include/eosio/stream.hpp b/include/eosio/stream.hpp
index 043e5be..b7dc897 100644
--- a/include/eosio/stream.hpp
+++ b/include/eosio/stream.hpp
@@ -26,6 +26,7 @@ enum class stream_error {
    invalid_name_char13,
    name_too_long,
    json_writer_error, // !!!
+   invalid_bool_encoding,
 }; // stream_error
 
 constexpr inline std::string_view convert_stream_error(stream_error e) {
@@ -44,6 +45,7 @@ constexpr inline std::string_view convert_stream_error(stream_error e) {
       case stream_error::invalid_name_char13:      return "thirteenth character in name cannot be a letter that comes after j";
       case stream_error::name_too_long:            return "string is too long to be a valid name";
       case stream_error::json_writer_error: return "Error writing json";
+      case stream_error::invalid_bool_encoding:    return "Invalid bool encoding";
          // clang-format on
 
       default: return "unknown";
-- 
2.43.0


From 974f0410c7c8d443ffaf69242c8a84a98ff06c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 05/24] fix: treat every missing binary extension alike when
 converting objects

---
 src/abieos.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 634f27c..dbfbee4 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -785,7 +785,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
-        if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
+        while (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
             auto& field = fields[stack_entry.position + 1];
             if (!field.type->extension_of() || !allow_extensions) {
                 stack_entry.position = -1;
@@ -942,6 +942,7 @@ inline void bin_to_json(pseudo_object*, bin_to_json_state& state, bool allow_ext
             state.skipped_extension = true;
             return;
         }
+        eosio::check(!state.skipped_extension, eosio::convert_stream_error(eosio::stream_error::overrun));
         if(stack_entry.position != 0) { state.writer.write(','); };
         to_json(field.name, state.writer);
         state.writer.write(':');
-- 
2.43.0


From 15db8cb793575018696bfff82dbb15b71761942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 06/24] fix: do not allocate for declared sizes before data is
 present

---
 include/eosio/from_bin.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 271cd67..072c75c 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,10 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
@@ -168,6 +169,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From d94ef4f7408be2df5baca239ae72981be0770952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 07/24] fix: make abieos_set_abi replace the contract's ABI
 when called again

---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..0510105 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 5a62d8db53f3ac20681df136a84a82cd32897312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 08/24] fix: report the missing contract in abieos_bin_to_json

---
 src/abieos.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0510105..19ba739 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -223,9 +223,8 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
             size = 0;
         context->last_error = "binary decode error";
         auto contract_it = context->contracts.find(::abieos::name{contract});
-        std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            (void)set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From 858f1688e4d98be1f325e959614430523a437032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 09/24] fix: do not terminate when there is no memory for an
 error message

---
 src/abieos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 19ba739..8078e84 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -29,6 +29,15 @@ bool set_error(abieos_context* context, std::string error) noexcept {
     return false;
 }
 
+// Used where an exception can't be allowed to escape, even if there's no memory to store the message.
+void set_exception_error(abieos_context* context, const char* error) noexcept {
+    try {
+        set_error(context, error);
+    } catch (...) {
+        context->last_error = "out of memory";
+    }
+}
+
 template <typename T, typename F>
 auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> decltype(f()) {
     if (!context)
@@ -38,12 +47,12 @@ auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> declt
     } catch (std::exception& e) {
         if (!catch_all)
             throw;
-        set_error(context, e.what());
+        set_exception_error(context, e.what());
         return errval;
     } catch (...) {
         if (!catch_all)
             throw;
-        set_error(context, "unknown exception");
+        set_exception_error(context, "unknown exception");
         return errval;
     }
 }
-- 
2.43.0


From 7c3d0e230ea28b0246dc32553c58c95309f889be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 10/24] fix: keep the case names of variants when deriving an
 abi_def

---
 src/abi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..dfe20f6 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -258,7 +258,7 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
    for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+      types.push_back(name);
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From c1f1e96835bb51a2c530ae16b6d64decbf1da5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 11/24] fix: refuse asset amounts and symbol precisions that do
 not fit

---
 include/eosio/chain_conversions.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..6a979ab 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -370,7 +370,10 @@ inline std::string symbol_code_to_string(uint64_t v) {
    uint8_t precision = 0;
    bool    found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
-      precision = precision * 10 + (*pos - '0');
+      uint32_t next = precision * 10u + (*pos - '0');
+      if (next > 0xff)
+         return false;
+      precision = next;
       found     = true;
       ++pos;
    }
@@ -389,7 +392,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -399,12 +401,22 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
+   const uint64_t limit     = negative ? uint64_t(1) << 63 : (uint64_t(1) << 63) - 1;
+   auto           add_digit = [&](char c) {
+      uint64_t digit = c - '0';
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
    while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+      if (!add_digit(*s++))
+         return false;
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (precision == 0xff || !add_digit(*s++))
+            return false;
          ++precision;
       }
    }
-- 
2.43.0


From 19372dadfeaa34051666da6eea5e4c87d728ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:01 +0000
Subject: [PATCH 12/24] fix: symbol codes have at most seven letters

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..d2abb70 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return !sym;
    }
 
    /**
-- 
2.43.0


From a002a5fd522a43303296b7e6f6c9ed31273069a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 13/24] fix: refuse asset sums and quotients that leave the
 64-bit range

---
 include/eosio/asset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 9281752..2173f09 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -100,7 +100,7 @@ struct asset {
     */
    asset& operator-=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to subtract asset with different symbol");
-      amount -= a.amount;
+      eosio::check(!__builtin_sub_overflow(amount, a.amount, &amount), "subtraction out of range");
       eosio::check(-max_amount <= amount, "subtraction underflow");
       eosio::check(amount <= max_amount, "subtraction overflow");
       return *this;
@@ -115,7 +115,7 @@ struct asset {
     */
    asset& operator+=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to add asset with different symbol");
-      amount += a.amount;
+      eosio::check(!__builtin_add_overflow(amount, a.amount, &amount), "addition out of range");
       eosio::check(-max_amount <= amount, "addition underflow");
       eosio::check(amount <= max_amount, "addition overflow");
       return *this;
@@ -210,6 +210,7 @@ struct asset {
       eosio::check(a != 0, "divide by zero");
       eosio::check(!(amount == std::numeric_limits<int64_t>::min() && a == -1), "signed division overflow");
       amount /= a;
+      eosio::check(is_amount_within_range(), "magnitude of asset amount must be less than 2^62");
       return *this;
    }
 
@@ -237,6 +238,7 @@ struct asset {
    friend int64_t operator/(const asset& a, const asset& b) {
       eosio::check(b.amount != 0, "divide by zero");
       eosio::check(a.symbol == b.symbol, "comparison of assets with different symbols is not allowed");
+      eosio::check(!(a.amount == std::numeric_limits<int64_t>::min() && b.amount == -1), "signed division overflow");
       return a.amount / b.amount;
    }
 
-- 
2.43.0


From 77daf19c38579af17df0e6feee7954bcb0abd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 14/24] fix: refuse times that are not on the calendar or not
 representable

---
 include/eosio/chain_conversions.hpp | 21 ++++++++++++++++++---
 include/eosio/time.hpp              |  3 +++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 6a979ab..e070b08 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -263,7 +263,7 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return result;
 }
 
-[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+[[nodiscard]] inline bool string_to_utc_seconds(uint64_t& result, const char*& s, const char* end, bool eat_fractional,
                                                 bool require_end) {
    auto parse_uint = [&](uint32_t& result, int digits) {
       result = 0;
@@ -298,7 +298,13 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   if (h > 23 || min > 59 || sec > 59)
+      return false;
+   auto           since_epoch = year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days();
+   year_month_day real{sys_days(since_epoch)}; // differs if there is no such date
+   if (since_epoch.count() < 0 || real.year() != y || real.month() != m || real.day() != d)
+      return false;
+   result = since_epoch.count() * 86400ull + h * 3600 + min * 60 + sec;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
@@ -306,13 +312,22 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return s == end || !require_end;
 }
 
+[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+                                                bool require_end) {
+   uint64_t sec;
+   if (!string_to_utc_seconds(sec, s, end, eat_fractional, require_end) || sec > 0xffffffff)
+      return false;
+   result = sec;
+   return true;
+}
+
 [[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char* s, const char* end) {
    return string_to_utc_seconds(result, s, end, true, true);
 }
 
 [[nodiscard]] inline bool string_to_utc_microseconds(uint64_t& result, const char*& s, const char* end,
                                                      bool require_end) {
-   uint32_t sec;
+   uint64_t sec;
    if (!string_to_utc_seconds(sec, s, end, false, false))
       return false;
    result = sec * 1000000ull;
diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index c021595..7807907 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -253,6 +253,9 @@ template <typename S>
 void from_json(block_timestamp& obj, S& stream) {
    time_point tp;
    from_json(tp, stream);
+   int64_t msec = tp.time_since_epoch().count() / 1000 - block_timestamp::block_timestamp_epoch;
+   check(msec >= 0 && msec / block_timestamp::block_interval_ms <= 0xffffffffll,
+         convert_json_error(from_json_error::expected_time_point));
    obj = block_timestamp(tp);
 }
 
-- 
2.43.0


From 599534de5e0bac308a8f28f451e632fb12852a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 15/24] fix: a zero byte is not a base-58 digit

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 06f157776d3fe8fbf70e5775f610f2ac86c71e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 16/24] fix: refuse text of keys and signatures with data left
 over

---
 src/crypto.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..baf027c 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -95,6 +95,16 @@ std::array<unsigned char, 20> digest_suffix_ripemd160(const Container&... data)
 }
 
 
+// The data must be exactly one key
+template <typename Key>
+Key whole_from_bin(const std::vector<char>& whole) {
+    input_stream stream{whole};
+    Key key;
+    from_bin(key, stream);
+    check(stream.remaining() == 0, convert_json_error(eosio::from_json_error::expected_key));
+    return key;
+}
+
 template <typename Key>
 Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     std::vector<char> whole;
@@ -106,7 +116,7 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    return whole_from_bin<Key>(whole);
 }
 
 template <typename Key>
@@ -169,10 +179,12 @@ private_key eosio::private_key_from_string(std::string_view s) {
     } else {
         std::vector<char> whole;
         base58_to_binary(whole, s);
-        check(whole.size() >= 5, convert_json_error(from_json_error::expected_private_key));
+        // version byte, key, optional compression flag, checksum
+        check((whole.size() == 37 || (whole.size() == 38 && whole[33] == 1)) && whole[0] == char(0x80),
+            convert_json_error(from_json_error::expected_private_key));
         whole[0] = key_type::k1;
-        whole.erase(whole.end() - 4, whole.end());
-        return convert_from_bin<private_key>(whole);
+        whole.resize(33);
+        return whole_from_bin<private_key>(whole);
     }
 }
 
-- 
2.43.0


From c701bc41baeb0d38451737f2f0371704fd96ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 17/24] fix: refuse writes of sizes that wrap around in
 fixed_buf_stream

---
 include/eosio/stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/stream.hpp b/include/eosio/stream.hpp
index b7dc897..afb0d43 100644
--- a/include/eosio/stream.hpp
+++ b/include/eosio/stream.hpp
@@ -101,7 +101,7 @@ struct fixed_buf_stream {
    }
 
    void write(const void* src, std::size_t sz) {
-      check( pos + sz <= end, convert_stream_error(stream_error::overrun) );
+      check( sz <= std::size_t(end-pos), convert_stream_error(stream_error::overrun) );
       memcpy(pos, src, sz);
       pos += sz;
    }
-- 
2.43.0


From 6bf469ac7d6d671c4cd370a10c792e49b7f12d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 18/24] fix: do not read past the end of hex text of odd length

---
 include/eosio/from_json.hpp | 2 ++
 src/abieos.hpp              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 06e5e74..32c88d6 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -343,6 +343,8 @@ class json_token_stream : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>,
 template <typename SrcIt, typename DestIt>
 [[nodiscard]] bool unhex(DestIt dest, SrcIt begin, SrcIt end) {
    auto get_digit = [&](uint8_t& nibble) {
+      if (begin == end)
+         return false;
       if (*begin >= '0' && *begin <= '9')
          nibble = *begin++ - '0';
       else if (*begin >= 'a' && *begin <= 'f')
diff --git a/src/abieos.hpp b/src/abieos.hpp
index dbfbee4..36f78d0 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -91,6 +91,8 @@ std::string hex(SrcIt begin, SrcIt end) {
 template <typename SrcIt, typename DestIt>
 ABIEOS_NODISCARD bool unhex(std::string& error, SrcIt begin, SrcIt end, DestIt dest) {
     auto get_digit = [&](uint8_t& nibble) {
+        if (begin == end)
+            return set_error(error, "expected hex string");
         if (*begin >= '0' && *begin <= '9')
             nibble = *begin++ - '0';
         else if (*begin >= 'a' && *begin <= 'f')
-- 
2.43.0


From c2ea995fb940d1b7183a5a1153422ddbc0ed6991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 19/24] fix: name tool refuses negative values instead of
 wrapping them around

---
 tools/name.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/name.cpp b/tools/name.cpp
index b491d39..a4186e5 100644
--- a/tools/name.cpp
+++ b/tools/name.cpp
@@ -12,7 +12,7 @@ bool handle_one(const std::string& s, bool reverse) {
       } else {
          std::size_t   pos;
          std::uint64_t value = std::stoull(s, &pos, 0);
-         if (pos == s.size()) {
+         if (pos == s.size() && s.find('-') == std::string::npos) {
             std::cout << eosio::name(value).to_string() << std::endl;
          } else {
             std::cerr << "Invalid name value: " << s << std::endl;
-- 
2.43.0


From 774786d353ce2d1d3630b64043719857671daf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 20/24] fix: refuse empty text as a number in decimal_to_binary

---
 include/eosio/abieos_numeric.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index 04096b2..a4617c5 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -58,6 +58,8 @@ template <auto size>
 inline void decimal_to_binary(std::array<uint8_t, size>& result,
                                                               std::string_view s) {
     memset(result.begin(), 0, result.size());
+    eosio::check(!s.empty(),
+         eosio::convert_json_error(eosio::from_json_error::expected_int));
     for (auto& src_digit : s) {
        eosio::check(!(src_digit < '0' || src_digit > '9'),
             eosio::convert_json_error(eosio::from_json_error::expected_int));
-- 
2.43.0


From 4f01adf3dcfe54d8afed6fa504d47108ddd61f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:48 +0000
Subject: [PATCH 21/24] fix: accept -0 as int128 without native 128-bit
 integers

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 36f78d0..289e70e 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -422,7 +422,7 @@ void from_json(int128& obj, S& stream) {
     if (s.size() && s[0] == '-') {
         decimal_to_binary(obj.data, {s.data() + 1, s.size() - 1});
         negate(obj.data);
-        eosio::check(is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
+        eosio::check(is_negative(obj.data) || obj.data == std::array<uint8_t, 16>{}, eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
     } else {
         decimal_to_binary(obj.data, s);
         eosio::check(!is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
-- 
2.43.0


From 28df54507bc3ce8cb64d64c56edb8b182202c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:00 +0000
Subject: [PATCH 22/24] fix: block_timestamp::maximum() is the latest slot

---
 include/eosio/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index 7807907..45f6872 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -198,7 +198,7 @@ class block_timestamp {
 
    block_timestamp(const time_point_sec& t) { set_time_point(t); }
 
-   static block_timestamp maximum() { return block_timestamp(0xffff); }
+   static block_timestamp maximum() { return block_timestamp(0xffffffff); }
    static block_timestamp min() { return block_timestamp(0); }
 
    block_timestamp next() const {
-- 
2.43.0


From 9ab266af87afc926827a20de112004f7c3cb226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 23/24] fix: decoding into a container replaces its contents

Binary decoding of sets, maps, lists and deques and JSON decoding of vectors
added to whatever the target already held, while vectors (binary), strings,
optionals and variants were replaced.
---
 include/eosio/from_bin.hpp  | 3 +++
 include/eosio/from_json.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 072c75c..da9e2f0 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -58,6 +58,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -69,6 +70,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -125,6 +127,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 32c88d6..047f312 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -544,6 +544,7 @@ void from_json(bool& result, S& stream) {
 template <typename T, typename S>
 void from_json(std::vector<T>& result, S& stream) {
    stream.get_start_array();
+   result.clear();
    while (true) {
       auto t = stream.peek_token();
       if (t.get().type == json_token_type::type_end_array)
-- 
2.43.0


From dd2320d561d3d3126dd17948a1f4f925469706a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:52 +0000
Subject: [PATCH 24/24] fix: count an empty object in the nesting limit of the
 in-order conversion

---
 src/abieos.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 289e70e..1301f1f 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -783,6 +783,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
             printf("%*s{ %d fields, allow_ex=%d\n", int(state.stack.size() * 4), "", int(type->as_struct()->fields.size()),
                    allow_extensions);
         state.stack.push_back({type, allow_extensions});
+        return;
     }
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
-- 
2.43.0

