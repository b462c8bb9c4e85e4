From d95bb366c34bef4c9afdfd2fcdb08ba0a791fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 01/17] fix: reject malformed trailing content after the root
 value

---
 include/parser/parser_impl.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 94b601e..50c677c 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -38,7 +38,8 @@ inline std::optional<value> parser<accept_jsonc, parsing_t, accel_traits>::parse
     }
 
     // After the parsing is complete, there should be no more content other than spaces behind
-    if (skip_whitespace()) {
+    // (skip_whitespace also stops at a NUL, which ends the content, and at a '/' that starts no valid comment)
+    if (skip_whitespace() || (_cur != _end && *_cur != '\0')) {
         return std::nullopt;
     }
 
@@ -525,7 +526,11 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         return false;
     }
 
+    // an invalid comment is not consumed, so that the caller won't take it for the end of the content
+    const auto first = _cur;
+
     if (++_cur == _end) {
+        _cur = first;
         return false;
     }
 
@@ -544,6 +549,7 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
         t = comment_type::block;
         break;
     default:
+        _cur = first;
         return false;
     }
 
@@ -566,7 +572,11 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_comment() noexce
     }
 
     // _cur == _end
-    return t == comment_type::line;
+    if (t != comment_type::line) {
+        _cur = first;
+        return false;
+    }
+    return true;
 }
 
 template <bool accept_jsonc, typename parsing_t, typename accel_traits>
-- 
2.43.0


From 69d96556e36b05fc43b6710d07c2b286a0f22ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 02/17] fix: reject unpaired surrogates followed by other
 content

---
 include/parser/parser_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 50c677c..70e0354 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -316,6 +316,10 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
     uint16_t pair_high = 0;
 
     while (_cur != _end) {
+        // A high surrogate must be followed immediately by the escape of a low one
+        if (pair_high && *_cur != '\\') {
+            return std::nullopt;
+        }
         if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
             if (!skip_string_literal_with_accel()) {
                 return std::nullopt;
@@ -438,6 +442,9 @@ inline bool parser<accept_jsonc, parsing_t, accel_traits>::skip_unicode_escape(u
         ext_cp = (((pair_high - 0xD800) << 10) | (cp - 0xDC00)) + 0x10000;
         pair_high = 0;
     }
+    else if (pair_high) {
+        return false;
+    }
 
     // utf8
     if (ext_cp <= 0x7F) {
-- 
2.43.0


From 52320100e719490402135ab0a1a6f2c8fefae696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 03/17] fix: do not move out of nullable wrappers which are
 lvalues or shared

---
 include/common/utils.hpp | 12 ++++++++++++
 include/common/value.hpp |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 6a3eeeb..0b1e380 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -86,6 +86,18 @@ constexpr bool is_nullable<
 template <typename T, typename = std::enable_if_t<is_nullable<T>>>
 using nullable_value_t = std::decay_t<decltype(*std::declval<T>())>;
 
+// Forward what a nullable wrapper holds. It can be moved from only if the wrapper is an rvalue, and is not shared with others.
+template <typename wrapper_t>
+constexpr decltype(auto) forward_nullable_value(std::remove_reference_t<wrapper_t>& wrapper)
+{
+    if constexpr (!std::is_lvalue_reference_v<wrapper_t> && !std::is_copy_constructible_v<wrapper_t>) {
+        return std::move(*wrapper);
+    }
+    else {
+        return *std::forward<wrapper_t>(wrapper);
+    }
+}
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 2e304ba..9d29125 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -143,7 +143,7 @@ public:
                 && !_utils::has_to_json_in_member<wrapper_t>::value && !_utils::has_to_json_in_templ_spec<wrapper_t>::value,
             bool> = true>
     value(wrapper_t&& wrapper)
-        : value(wrapper ? value(std::move(*wrapper)) : value())
+        : value(wrapper ? value(_utils::forward_nullable_value<wrapper_t>(wrapper)) : value())
     {
     }
 
-- 
2.43.0


From aaa162d24d1bf450875cc0f736f18a5015ef299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 04/17] fix: assignment between a value and its own
 descendants, and state of moved-from values

---
 include/common/value_impl.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 0838137..a535105 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -83,7 +83,11 @@ inline value::value(const value& rhs)
 {
 }
 
-inline value::value(value&& rhs) noexcept = default;
+inline value::value(value&& rhs) noexcept
+    : _type(std::exchange(rhs._type, value_type::null))
+    , _raw_data(std::exchange(rhs._raw_data, var_t {}))
+{
+}
 
 inline value::value(bool b)
     : _type(value_type::boolean)
@@ -845,14 +849,22 @@ inline bool value::all() const
 
 inline value& value::operator=(const value& rhs)
 {
-    _type = rhs._type;
-    _raw_data = deep_copy(rhs._raw_data);
+    // rhs may be a part of *this, or the other way around
+    return *this = value(rhs);
+}
+
+inline value& value::operator=(value&& rhs) noexcept
+{
+    // rhs may be a part of *this, so take everything out of it before the old data is destroyed
+    const value_type type = std::exchange(rhs._type, value_type::null);
+    var_t raw_data = std::exchange(rhs._raw_data, var_t {});
+
+    _type = type;
+    _raw_data.swap(raw_data);
 
     return *this;
 }
 
-inline value& value::operator=(value&& rhs) noexcept = default;
-
 inline bool value::operator==(const value& rhs) const
 {
     if (_type != rhs._type) {
-- 
2.43.0


From c033b7e50d7c132d22960579324c27ac08cae6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 05/17] fix: enum_to_string truncated wide enum values

---
 include/common/enum_reflection.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/common/enum_reflection.hpp b/include/common/enum_reflection.hpp
index a70ae04..c13f4cb 100644
--- a/include/common/enum_reflection.hpp
+++ b/include/common/enum_reflection.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <array>
+#include <cstddef>
+#include <limits>
 #include <optional>
 #include <string_view>
 #include <type_traits>
@@ -184,13 +186,19 @@ constexpr std::string_view enum_to_string(E val)
 {
     constexpr int min = enum_range<E>::min;
     constexpr int max = enum_range<E>::max;
-    constexpr int range = max - min + 1;
 
     const auto& names = enum_name_storage<E>::names;
 
-    int idx = static_cast<int>(val) - min;
-    if (idx >= 0 && idx < range) {
-        return names[idx];
+    // The underlying type may be wider than int
+    using underlying_t = std::underlying_type_t<E>;
+    using wide_t = std::conditional_t<std::is_signed_v<underlying_t>, long long, unsigned long long>;
+    const auto num = static_cast<wide_t>(static_cast<underlying_t>(val));
+    if (num > static_cast<wide_t>(std::numeric_limits<int>::max())) {
+        return {};
+    }
+    const auto signed_num = static_cast<long long>(num);
+    if (signed_num >= min && signed_num <= max) {
+        return names[static_cast<size_t>(signed_num - min)];
     }
     return {};
 }
-- 
2.43.0


From bcff578f119dd2df2ec608e45d05aadee25e675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 06/17] fix: only use accelerated string scan on contiguous
 containers

---
 include/common/utils.hpp       | 6 ++++++
 include/parser/parser_impl.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 0b1e380..276af5b 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -53,6 +53,12 @@ template <typename T>
 constexpr bool is_container<T, std::void_t<typename T::value_type, range_value_t<T>>> =
     std::is_same_v<typename T::value_type, range_value_t<T>> && !is_string<T>;
 
+template <typename T, typename = void>
+constexpr bool is_contiguous = false;
+template <typename T>
+constexpr bool is_contiguous<T, std::void_t<decltype(std::declval<const T&>().data())>> =
+    std::is_pointer_v<decltype(std::declval<const T&>().data())>;
+
 template <typename T, typename = void>
 constexpr bool is_map = false;
 template <typename T>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index 70e0354..ed4faeb 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -320,7 +320,7 @@ inline std::optional<std::string> parser<accept_jsonc, parsing_t, accel_traits>:
         if (pair_high && *_cur != '\\') {
             return std::nullopt;
         }
-        if constexpr (sizeof(*_cur) == 1 && accel_traits::available) {
+        if constexpr (sizeof(*_cur) == 1 && _utils::is_contiguous<parsing_t> && accel_traits::available) {
             if (!skip_string_literal_with_accel()) {
                 return std::nullopt;
             }
-- 
2.43.0


From 5d00ef806f16f709c4462a6d0bcfdb23d7caf905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 07/17] fix: do not trust the reported size when reading a
 stream

---
 include/parser/parser.hpp      |  1 +
 include/parser/parser_impl.hpp | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/parser/parser.hpp b/include/parser/parser.hpp
index 858f971..75dd1e9 100644
--- a/include/parser/parser.hpp
+++ b/include/parser/parser.hpp
@@ -2,6 +2,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cctype>
 #include <fstream>
 #include <optional>
diff --git a/include/parser/parser_impl.hpp b/include/parser/parser_impl.hpp
index ed4faeb..99c984a 100644
--- a/include/parser/parser_impl.hpp
+++ b/include/parser/parser_impl.hpp
@@ -627,12 +627,22 @@ inline std::optional<value> parse(const char* content)
 inline std::optional<value> parse(std::istream& istream, bool check_bom, bool with_commets)
 {
     istream.seekg(0, std::ios::end);
-    auto file_size = istream.tellg();
+    auto rest_size = static_cast<std::streamoff>(istream.tellg());
 
     istream.seekg(0, std::ios::beg);
-    std::string str(file_size, '\0');
-
-    istream.read(str.data(), file_size);
+    std::string str;
+
+    // The reported size is not reliable (e.g. a directory), so don't allocate more than what can really be read
+    char buffer[4096];
+    while (rest_size > 0) {
+        istream.read(buffer, static_cast<std::streamsize>(std::min<std::streamoff>(rest_size, sizeof(buffer))));
+        const auto count = istream.gcount();
+        if (count <= 0) {
+            break;
+        }
+        str.append(buffer, static_cast<size_t>(count));
+        rest_size -= count;
+    }
 
     if (check_bom) {
         using uchar = unsigned char;
-- 
2.43.0


From 4db42b0ee78d9ae1fc27dc4836292cc220d8ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 08/17] fix: subnormal floating point numbers could not be read
 back

---
 include/common/value_impl.hpp | 65 +++++++++++++++++------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index a535105..7baf8b7 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+
 #include "value.hpp"
 
 namespace json
@@ -28,26 +32,35 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline value_t parse_floating(const std::string& str, const char* target_type)
+inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
 {
-    try {
-        size_t pos = 0;
-        value_t result {};
-        if constexpr (std::is_same_v<value_t, float>) {
-            result = std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            result = std::stod(str, &pos);
-        }
-        else {
-            result = std::stold(str, &pos);
-        }
+    static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
+    const char* first = str.c_str();
+    char* last = nullptr;
 
-        if (pos == str.size()) {
-            return result;
-        }
+    const int saved_errno = std::exchange(errno, 0);
+    if constexpr (std::is_same_v<value_t, float>) {
+        result = std::strtof(first, &last);
+    }
+    else if constexpr (std::is_same_v<value_t, double>) {
+        result = std::strtod(first, &last);
+    }
+    else {
+        result = std::strtold(first, &last);
     }
-    catch (const std::exception&) {
+    // ERANGE is also reported for subnormal results, which are fine
+    const bool out_of_range = errno == ERANGE && (result == 0 || std::isinf(result));
+    errno = saved_errno;
+
+    return !str.empty() && last == first + str.size() && !out_of_range;
+}
+
+template <typename value_t>
+inline value_t parse_floating(const std::string& str, const char* target_type)
+{
+    value_t result {};
+    if (try_parse_floating(str, result)) {
+        return result;
     }
 
     throw exception("Parse error: cannot convert number '" + str + "' to " + target_type);
@@ -56,22 +69,8 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 template <typename value_t>
 inline bool can_parse_floating(const std::string& str) noexcept
 {
-    try {
-        size_t pos = 0;
-        if constexpr (std::is_same_v<value_t, float>) {
-            (void)std::stof(str, &pos);
-        }
-        else if constexpr (std::is_same_v<value_t, double>) {
-            (void)std::stod(str, &pos);
-        }
-        else {
-            (void)std::stold(str, &pos);
-        }
-        return pos == str.size();
-    }
-    catch (const std::exception&) {
-        return false;
-    }
+    value_t result {};
+    return try_parse_floating(str, result);
 }
 } // namespace _value_impl_detail
 
-- 
2.43.0


From e89756b32c043cc2f37662fd80bd9de7cd1d0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 09/17] fix: mutable access to an empty container invalidated
 references to it

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 7baf8b7..76f0b1f 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -642,7 +642,7 @@ inline const object& value::as_object() const
 
 inline array& value::as_array()
 {
-    if (empty()) {
+    if (empty() && !is_array()) {
         _type = value_type::array;
         _raw_data = std::make_unique<array>();
     }
@@ -656,7 +656,7 @@ inline array& value::as_array()
 
 inline object& value::as_object()
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
@@ -997,7 +997,7 @@ inline value& value::operator[](size_t pos)
 
 inline value& value::operator[](const std::string& key)
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
@@ -1007,7 +1007,7 @@ inline value& value::operator[](const std::string& key)
 
 inline value& value::operator[](std::string&& key)
 {
-    if (empty()) {
+    if (empty() && !is_object()) {
         _type = value_type::object;
         _raw_data = std::make_unique<object>();
     }
-- 
2.43.0


From 0da165dd2c99eb5645d74e56f32c29f17908c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 10/17] fix: assignment between arrays or objects and their own
 descendants

---
 include/common/array_impl.hpp  | 16 ++++++++++++++--
 include/common/object_impl.hpp | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/common/array_impl.hpp b/include/common/array_impl.hpp
index af1cf4c..54cb5dd 100644
--- a/include/common/array_impl.hpp
+++ b/include/common/array_impl.hpp
@@ -23,8 +23,20 @@ inline array::array() = default;
 inline array::array(const array& rhs) = default;
 inline array::array(array&& rhs) noexcept = default;
 inline array::~array() noexcept = default;
-inline array& array::operator=(const array&) = default;
-inline array& array::operator=(array&&) noexcept = default;
+
+inline array& array::operator=(const array& rhs)
+{
+    // rhs may be a part of *this, or the other way around
+    return *this = array(rhs);
+}
+
+inline array& array::operator=(array&& rhs) noexcept
+{
+    // rhs may be a part of *this, so take everything out of it before the old data is destroyed
+    raw_array data = std::exchange(rhs._array_data, raw_array {});
+    _array_data.swap(data);
+    return *this;
+}
 
 inline array::array(std::initializer_list<value_type> init_list)
     : _array_data(init_list)
diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index b59a11b..f906f77 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -25,8 +25,20 @@ inline object::object() = default;
 inline object::object(const object& rhs) = default;
 inline object::object(object&& rhs) noexcept = default;
 inline object::~object() = default;
-inline object& object::operator=(const object&) = default;
-inline object& object::operator=(object&&) noexcept = default;
+
+inline object& object::operator=(const object& rhs)
+{
+    // rhs may be a part of *this, or the other way around
+    return *this = object(rhs);
+}
+
+inline object& object::operator=(object&& rhs) noexcept
+{
+    // rhs may be a part of *this, so take everything out of it before the old data is destroyed
+    raw_object data = std::exchange(rhs._object_data, raw_object {});
+    _object_data.swap(data);
+    return *this;
+}
 
 inline object::object(std::initializer_list<value_type> init_list)
     : _object_data(std::make_move_iterator(init_list.begin()), std::make_move_iterator(init_list.end()))
-- 
2.43.0


From 35731ae6219161d00e128518987cd86d95486024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 11/17] fix: as<>() of optionals, variants and tuples used
 their converting constructors

---
 include/common/utils.hpp      |  6 ++++++
 include/common/value.hpp      | 12 ++++++------
 include/common/value_impl.hpp |  8 ++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 276af5b..d188bd9 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <optional>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -104,6 +105,11 @@ constexpr decltype(auto) forward_nullable_value(std::remove_reference_t<wrapper_
     }
 }
 
+template <typename T>
+constexpr bool is_optional = false;
+template <typename T>
+constexpr bool is_optional<std::optional<T>> = true;
+
 template <typename T>
 constexpr bool is_variant = false;
 template <typename... args_t>
diff --git a/include/common/value.hpp b/include/common/value.hpp
index 9d29125..e259f74 100644
--- a/include/common/value.hpp
+++ b/include/common/value.hpp
@@ -540,7 +540,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(*this));
+        return std::optional<T>(as<T>());
     }
 
     template <typename T>
@@ -549,7 +549,7 @@ public:
         if (is_null()) {
             return std::nullopt;
         }
-        return std::optional<T>(static_cast<T>(std::move(*this)));
+        return std::optional<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -558,7 +558,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(*this));
+        return std::make_shared<T>(as<T>());
     }
 
     template <typename T>
@@ -567,7 +567,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_shared<T>(static_cast<T>(std::move(*this)));
+        return std::make_shared<T>(std::move(*this).template as<T>());
     }
 
     template <typename T>
@@ -576,7 +576,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(*this));
+        return std::make_unique<T>(as<T>());
     }
 
     template <typename T>
@@ -585,7 +585,7 @@ public:
         if (is_null()) {
             return nullptr;
         }
-        return std::make_unique<T>(static_cast<T>(std::move(*this)));
+        return std::make_unique<T>(std::move(*this).template as<T>());
     }
 
     // Native support for converting to std::variant<Ts...>
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 76f0b1f..73e9ade 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -701,6 +701,10 @@ inline value_t value::as() const&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_variant<value_t> || _utils::is_tuple_like<value_t>) {
+        // These can be constructed from a json::value on their own, which a static_cast prefers over our conversion operators
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
@@ -726,6 +730,10 @@ inline value_t value::as() &&
         }
         return dst;
     }
+    else if constexpr (_utils::is_optional<value_t> || _utils::is_variant<value_t> || _utils::is_tuple_like<value_t>) {
+        // These can be constructed from a json::value on their own, which a static_cast prefers over our conversion operators
+        return this->operator value_t();
+    }
     else {
         return static_cast<value_t>(*this);
     }
-- 
2.43.0


From 0cedcfdad462e5d320769835e99d95ab3debd8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 12/17] fix: members named result were not serialised by
 MEO_TOJSON

---
 include/reflection/jsonization.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflection/jsonization.hpp b/include/reflection/jsonization.hpp
index ba0386b..c929b5a 100644
--- a/include/reflection/jsonization.hpp
+++ b/include/reflection/jsonization.hpp
@@ -428,11 +428,11 @@ namespace json::_private_macro
 #define MEO_TOJSON(...)                                                                                                    \
     json::value to_json() const                                                                                            \
     {                                                                                                                      \
-        json::object result;                                                                                               \
+        json::object _MEOJSON_VARNAME(result);                                                                             \
         json::_jsonization_helper::dumper()._to_json(                                                                      \
-            result,                                                                                                        \
+            _MEOJSON_VARNAME(result),                                                                                      \
             _MEOJSON_EXPAND(_MEOJSON_FOR_EACH(_MEOJSON_KEY_VALUE, __VA_ARGS__)) json::_jsonization_helper::va_arg_end {}); \
-        return result;                                                                                                     \
+        return _MEOJSON_VARNAME(result);                                                                                   \
     }
 
 #define MEO_CHECKJSON(...)                                                                                                 \
-- 
2.43.0


From 96f8ecf81c3fb8add2e479a816e8ea0a2a8e198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 13/17] fix: NEON zero test did not compile for 32-bit ARM

---
 include/parser/packed_bytes_arm.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/parser/packed_bytes_arm.hpp b/include/parser/packed_bytes_arm.hpp
index 7f218e9..376cb5d 100644
--- a/include/parser/packed_bytes_arm.hpp
+++ b/include/parser/packed_bytes_arm.hpp
@@ -39,8 +39,9 @@ struct packed_bytes_trait_neon
 #ifdef __packed_bytes_trait_arm64
         return vmaxvq_u8(x) == 0;
 #else
-        auto fold64 = vorr_u64(vget_high_u64(vreinterpretq_u8_u64(x), 0), vget_low_u64(vreinterpretq_u8_u64(x), 1));
-        auto fold32 = vget_lane_u32(vreinterpret_u64_u32(fold64), 0) | vget_lane_u32(vreinterpret_u64_u32(fold64), 1);
+        auto x64 = vreinterpretq_u64_u8(x);
+        auto fold64 = vreinterpret_u32_u64(vorr_u64(vget_high_u64(x64), vget_low_u64(x64)));
+        auto fold32 = vget_lane_u32(fold64, 0) | vget_lane_u32(fold64, 1);
         return fold32 == 0;
 #endif
     }
-- 
2.43.0


From aca68bf2af7d1fd735d1897201d86128be5a6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 14/17] fix: floating-point numbers depended on the locale

The default build wrote them with the C locale's decimal point and refused to
read fractions where that is not '.'; the precision-keeping build used the
global C++ locale's punctuation and grouping.
---
 include/common/utils.hpp      | 12 ++++++----
 include/common/value_impl.hpp | 41 ++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index d188bd9..7ded1e5 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -6,6 +6,7 @@
 #include <cstddef>
 #include <iomanip>
 #include <limits>
+#include <locale>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -500,16 +501,19 @@ inline std::string_view null_string()
 template <typename any_t>
 inline std::string to_basic_string(any_t&& arg)
 {
-#ifdef MEOJSON_KEEP_FLOATING_PRECISION
     using real_type = std::remove_reference_t<any_t>;
     if constexpr (std::is_floating_point_v<real_type>) {
         std::ostringstream oss;
+        // A JSON number is written the same way whatever the locale
+        oss.imbue(std::locale::classic());
+#ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
+#else
+        oss << std::fixed << arg; // as std::to_string
+#endif
         return oss.str();
     }
-    else
-#endif
-    {
+    else {
         return std::to_string(std::forward<any_t>(arg));
     }
 }
diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index 73e9ade..dd27e9a 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -2,6 +2,7 @@
 
 #include <cerrno>
 #include <cmath>
+#include <cstdio>
 #include <cstdlib>
 
 #include "value.hpp"
@@ -32,27 +33,47 @@ inline value_t parse_integer(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline bool try_parse_floating(const std::string& str, value_t& result) noexcept
+inline value_t string_to_floating(const char* str, char** end) noexcept
 {
     static_assert(std::is_floating_point_v<value_t>, "value_t must be floating point");
-    const char* first = str.c_str();
-    char* last = nullptr;
-
-    const int saved_errno = std::exchange(errno, 0);
     if constexpr (std::is_same_v<value_t, float>) {
-        result = std::strtof(first, &last);
+        return std::strtof(str, end);
     }
     else if constexpr (std::is_same_v<value_t, double>) {
-        result = std::strtod(first, &last);
+        return std::strtod(str, end);
     }
     else {
-        result = std::strtold(first, &last);
+        return std::strtold(str, end);
+    }
+}
+
+template <typename value_t>
+inline bool try_parse_floating(const std::string& str, value_t& result)
+{
+    const char* first = str.c_str();
+    char* last = nullptr;
+
+    const int saved_errno = std::exchange(errno, 0);
+    result = string_to_floating<value_t>(first, &last);
+    bool whole = last == first + str.size();
+
+    if (!whole && *last == '.') {
+        // The locale has a decimal point of its own, which the conversion expects instead
+        char half[16] = {};
+        std::snprintf(half, sizeof(half), "%.1f", 0.5);
+        const std::string_view written = half;
+        std::string localized = str;
+        localized.replace(last - first, 1, written.substr(1, written.size() - 2));
+
+        errno = 0;
+        result = string_to_floating<value_t>(localized.c_str(), &last);
+        whole = last == localized.c_str() + localized.size();
     }
     // ERANGE is also reported for subnormal results, which are fine
     const bool out_of_range = errno == ERANGE && (result == 0 || std::isinf(result));
     errno = saved_errno;
 
-    return !str.empty() && last == first + str.size() && !out_of_range;
+    return !str.empty() && whole && !out_of_range;
 }
 
 template <typename value_t>
@@ -67,7 +88,7 @@ inline value_t parse_floating(const std::string& str, const char* target_type)
 }
 
 template <typename value_t>
-inline bool can_parse_floating(const std::string& str) noexcept
+inline bool can_parse_floating(const std::string& str)
 {
     value_t result {};
     return try_parse_floating(str, result);
-- 
2.43.0


From 3e4bce752b341058e7fe793c5545de20f3c4cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 15/17] fix: a failed allocation left a value whose type and
 content disagree

---
 include/common/value_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/value_impl.hpp b/include/common/value_impl.hpp
index dd27e9a..b0fa781 100644
--- a/include/common/value_impl.hpp
+++ b/include/common/value_impl.hpp
@@ -664,8 +664,8 @@ inline const object& value::as_object() const
 inline array& value::as_array()
 {
     if (empty() && !is_array()) {
-        _type = value_type::array;
         _raw_data = std::make_unique<array>();
+        _type = value_type::array;
     }
 
     if (is_array()) {
@@ -678,8 +678,8 @@ inline array& value::as_array()
 inline object& value::as_object()
 {
     if (empty() && !is_object()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     if (is_object()) {
@@ -1027,8 +1027,8 @@ inline value& value::operator[](size_t pos)
 inline value& value::operator[](const std::string& key)
 {
     if (empty() && !is_object()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[key];
@@ -1037,8 +1037,8 @@ inline value& value::operator[](const std::string& key)
 inline value& value::operator[](std::string&& key)
 {
     if (empty() && !is_object()) {
-        _type = value_type::object;
         _raw_data = std::make_unique<object>();
+        _type = value_type::object;
     }
 
     return as_object()[std::move(key)];
-- 
2.43.0


From 9e4705d210496610ead511129c1737fe578e107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 16/17] fix: floating-point numbers were truncated when memory
 ran out

---
 include/common/utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common/utils.hpp b/include/common/utils.hpp
index 7ded1e5..21b1b3a 100644
--- a/include/common/utils.hpp
+++ b/include/common/utils.hpp
@@ -506,6 +506,8 @@ inline std::string to_basic_string(any_t&& arg)
         std::ostringstream oss;
         // A JSON number is written the same way whatever the locale
         oss.imbue(std::locale::classic());
+        // Otherwise the text is truncated silently when the stream runs out of memory
+        oss.exceptions(std::ios_base::badbit);
 #ifdef MEOJSON_KEEP_FLOATING_PRECISION
         oss << std::setprecision(std::numeric_limits<real_type>::max_digits10) << arg;
 #else
-- 
2.43.0


From 5f129b5275525f2df1bd7d22e0831aee868f7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:53 +0000
Subject: [PATCH 17/17] fix: merging an object with a part of itself no longer
 reads freed members

---
 include/common/object_impl.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/common/object_impl.hpp b/include/common/object_impl.hpp
index f906f77..538bf04 100644
--- a/include/common/object_impl.hpp
+++ b/include/common/object_impl.hpp
@@ -6,18 +6,23 @@ namespace json
 {
 namespace _object_impl_detail
 {
-inline void merge_object(object::raw_object& dst, const object& src)
+inline void merge_object_move(object::raw_object& dst, object& src)
 {
-    for (const auto& [key, val] : src) {
-        dst.insert_or_assign(key, val);
+    // src may be a part of a member that is replaced, so keep the replaced values until all of src is merged
+    std::vector<value> replaced;
+    replaced.reserve(src.size());
+    for (auto& [key, val] : src) {
+        if (value& target = dst[key]; &target != &val) {
+            replaced.emplace_back(std::exchange(target, std::move(val)));
+        }
     }
 }
 
-inline void merge_object_move(object::raw_object& dst, object& src)
+inline void merge_object(object::raw_object& dst, const object& src)
 {
-    for (auto& [key, val] : src) {
-        dst.insert_or_assign(key, std::move(val));
-    }
+    // src may be a part of dst, or the other way around
+    object copy = src;
+    merge_object_move(dst, copy);
 }
 } // namespace _object_impl_detail
 
-- 
2.43.0

