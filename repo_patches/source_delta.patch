From 0c1f2e51ec44123f968f37b02fa59a41ed70dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 01/24] fix: Don't dereference absent error collector when a
 set element is duplicated

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..3d92132 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -729,7 +729,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From 5d8444ea27bccb718c3d51c9e3a007f087e071af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/24] fix: Initialize elements of sets before deserializing
 them from JSON

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3d92132..1ebeee0 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -699,7 +699,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        typename Type::value_type itemObj{};
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -727,7 +727,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        typename Type::value_type itemObj{};
         pull(itemObj, item, errors);
         if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
-- 
2.43.0


From 65a199030b3c497540bca3eb93bc207ebb82e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 03/24] fix: Preserve embedded NUL characters when
 deserializing strings from JSON

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 1ebeee0..cdc0c3a 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -604,7 +604,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -1142,7 +1142,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return std::string(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 2668bfea83868b39b2e0902aa85a564e2c97e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 04/24] fix: Restore array index in error context after
 deserializing nested arrays

---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index cdc0c3a..64661b8 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -665,6 +665,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -676,9 +677,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -692,6 +693,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -704,9 +706,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -720,6 +722,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const std::size_t previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -734,9 +737,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From e5fa0c9c9780cd1b05fc1e6063eb2e79f3c9df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 05/24] fix: Copy map keys into JSON document and preserve
 their full length

The JSON document only referenced the keys of the serialized map so it
became invalid when the map was destroyed. Additionally, keys containing
NUL characters were truncated.
---
 lib/json/reflector.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 64661b8..898c9af 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -247,7 +247,10 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator);
+        RAPIDJSON_NAMESPACE::Value memberValue;
+        push(item.second, memberValue, allocator);
+        object.AddMember(memberName, memberValue, allocator);
     }
 }
 
@@ -259,7 +262,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 {
     value.SetObject();
     for (const auto &item : reflectable) {
-        const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
+        RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator);
         const auto existingMember = value.FindMember(memberName);
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
@@ -757,7 +760,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -776,13 +779,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(
+                typename Type::value_type(typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(
+                typename Type::value_type(typename Type::key_type(i->name.GetString(), i->name.GetStringLength()), typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
-- 
2.43.0


From 3d219d89993792d5f21edc7c5707f26e5abe001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 06/24] fix: Clear previous contents of maps before
 deserializing them from JSON

---
 lib/json/reflector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 898c9af..3d0e597 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -758,6 +758,9 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    // clear previous contents of the map
+    reflectable.clear();
+
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[typename Type::key_type(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
@@ -776,6 +779,9 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    // clear previous contents of the map
+    reflectable.clear();
+
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-- 
2.43.0


From 9528955ec6dca14d2f1596399b4967ad647cc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 07/24] fix: Allow treating invalid variants as fatal errors
 when deserializing JSON

---
 lib/json/errorhandling.h | 22 ++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..0701a99 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,24 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports an invalid variant object. An error of that kind occurs when the index or data member of an object representing an std::variant is missing.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports an invalid variant index. An error of that kind occurs when the index of an object representing an std::variant is not a number or out of range.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3d0e597..5e6ace3 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -927,8 +927,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -953,16 +952,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From 00011daf6b6f979ab1861756194aa434e1d4e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 08/24] fix: Refuse out-of-range numbers when deserializing
 JSON instead of wrapping or invoking undefined behavior

---
 lib/json/reflector.h | 58 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 5e6ace3..c4e89b0 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -528,6 +529,30 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+namespace Detail {
+
+/*!
+ * \brief Returns whether \a number can be converted to the arithmetic type \tparam Type (possibly truncating the fractional part).
+ */
+template <typename Type, Traits::EnableIfAny<std::is_integral<Type>> * = nullptr> inline bool isWithinRange(double number)
+{
+    using Limits = std::numeric_limits<Type>;
+    constexpr auto upperBound = static_cast<double>(Limits::max() / 2 + 1) * 2.0; // not using max() directly as it might not be representable
+    const auto truncated = std::trunc(number);
+    return truncated >= static_cast<double>(Limits::min()) && truncated < upperBound;
+}
+
+/*!
+ * \brief Returns whether \a number can be converted to the floating point type \tparam Type.
+ */
+template <typename Type, Traits::EnableIfAny<std::is_floating_point<Type>> * = nullptr> inline bool isWithinRange(double number)
+{
+    using Limits = std::numeric_limits<Type>;
+    return !std::isfinite(number) || (number >= static_cast<double>(Limits::lowest()) && number <= static_cast<double>(Limits::max()));
+}
+
+} // namespace Detail
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
  */
@@ -543,7 +568,18 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+        return;
+    }
+    const auto number = value.GetDouble();
+    if (!Detail::isWithinRange<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -553,11 +589,15 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
+    int i = reflectable;
     pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (i < std::numeric_limits<Type>::min() || i > std::numeric_limits<Type>::max()) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
     }
+    reflectable = static_cast<Type>(i);
 }
 
 /*!
@@ -591,7 +631,15 @@ inline void pull(
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    using UnderlyingLimits = std::numeric_limits<typename std::underlying_type<Type>::type>;
+    const auto number = value.Get<ExpectedType>();
+    if (number < static_cast<ExpectedType>(UnderlyingLimits::min()) || number > static_cast<ExpectedType>(UnderlyingLimits::max())) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From 92099d5cd5f8b2620667c3be3e42bdfb55dadec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 09/24] fix: Report the correct expected JSON type for
 multimaps, tuples and pairs

---
 lib/json/errorhandling.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index 0701a99..36672ac 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,6 +6,8 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
+#include "../traits.h"
+
 #include <c++utilities/misc/traits.h>
 
 #include <rapidjson/rapidjson.h>
@@ -14,6 +16,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -63,9 +67,8 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
 }
 
 template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
+    Traits::EnableIf<Traits::Any<Traits::IsIteratable<Type>, Traits::IsSpecializationOf<Type, std::pair>, Traits::IsSpecializationOf<Type, std::tuple>>,
+        Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Array;
@@ -73,9 +76,8 @@ constexpr JsonType jsonType()
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        Traits::All<Traits::Any<Traits::IsIteratable<Type>, Traits::IsSpecializationOf<Type, std::pair>, Traits::IsSpecializationOf<Type, std::tuple>>,
+            Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 81edbd26cd4ae1dc2e6968bdb1854c8f0460f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 10/24] fix: Keep supporting all value types when copying map
 keys into JSON documents

---
 lib/json/reflector.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index c4e89b0..91514be 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -128,6 +128,13 @@ template <typename Type, Traits::DisableIf<IsJsonSerializable<Type>> * = nullptr
 void push(
     const Type &reflectable, const char *name, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
 
+/*!
+ * \brief Pushes the specified \a reflectable as a member with the specified \a name to the specified object.
+ */
+template <typename Type>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &name, RAPIDJSON_NAMESPACE::Value::Object &value,
+    RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
 /*!
  * \brief Pushes the \a reflectable which has a custom type to the specified object.
  * \remarks The definition of this function must be provided by the code generator or Boost.Hana.
@@ -249,9 +256,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
         RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator);
-        RAPIDJSON_NAMESPACE::Value memberValue;
-        push(item.second, memberValue, allocator);
-        object.AddMember(memberName, memberValue, allocator);
+        push(item.second, memberName, object, allocator);
     }
 }
 
@@ -413,6 +418,18 @@ void push(
     value.AddMember(RAPIDJSON_NAMESPACE::StringRef(name), genericValue, allocator);
 }
 
+/*!
+ * \brief Pushes the specified \a reflectable as a member with the specified \a name to the specified object.
+ */
+template <typename Type>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &name, RAPIDJSON_NAMESPACE::Value::Object &value,
+    RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
+{
+    RAPIDJSON_NAMESPACE::Value memberValue;
+    push(reflectable, memberValue, allocator);
+    value.AddMember(name, memberValue, allocator);
+}
+
 // define functions to "pull" values from a RapidJSON array or object
 
 /*!
-- 
2.43.0


From c0499a86b2d4297a8948b17345713fcf3110443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 11/24] fix: Accept any number fitting the target type when
 deserializing a number from the JSON root

---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 91514be..19d9fa7 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1194,14 +1194,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    auto res = Type();
+    pull<Type>(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From 977ae660e2d560ea609a5843f5fe91f21664fe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 12/24] fix: Allow calling toJson() for strings

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 19d9fa7..ad9fcdb 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1162,7 +1162,7 @@ template <typename Type,
         Traits::IsString<Type>, IsArray<Type>> * = nullptr>
 RAPIDJSON_NAMESPACE::StringBuffer toJson(const Type &reflectable)
 {
-    auto document(toJsonDocument(reflectable));
+    auto document(toJsonDocument<Type>(reflectable));
     return serializeJsonDocToString(document);
 }
 
-- 
2.43.0


From 69954c69b2477262a876dd17a6e2d10020a29906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 13/24] fix: Don't truncate strings at embedded NUL characters
 in toJsonDocument()

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index ad9fcdb..7c198a1 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1118,7 +1118,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
     return document;
 }
 
@@ -1140,7 +1140,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From 82d53b4076ab1924c10a63a0619e1eead26a1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 14/24] fix: Produce null when serializing null strings via
 toJsonDocument()

push() produces null for these already; toJsonDocument() crashed or passed
null to memcpy instead.
---
 lib/json/reflector.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 7c198a1..2d723e0 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1128,8 +1128,10 @@ RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
 template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * = nullptr>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 {
-    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kNullType);
+    if (reflectable) {
+        document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    }
     return document;
 }
 
@@ -1139,8 +1141,10 @@ RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
 template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>> * = nullptr>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
-    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
+    RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kNullType);
+    if (reflectable.data()) {
+        document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
+    }
     return document;
 }
 
-- 
2.43.0


From 0df6c4a2f61eb9bb4d852a1d7128bb41bc106de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 15/24] fix: Value-initialize the object fromJson() returns

Members which are absent in the JSON document were left uninitialized for
aggregates, e.g. arrays of numbers.
---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 2d723e0..08dfd98 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1186,7 +1186,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    Type res;
+    auto res = Type();
     pull<Type>(res, doc.GetObject(), errors);
     return res;
 }
@@ -1234,7 +1234,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    Type res;
+    auto res = Type();
     pull<Type>(res, doc.GetArray(), errors);
     return res;
 }
-- 
2.43.0


From fa3c0df571f11018b51a4918992736d6bf97191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 16/24] fix: Report type mismatches only once for chrono types
 and keep the target's value

---
 lib/json/reflector-chronoutilities.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..6347623 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -43,6 +43,9 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
     } catch (const CppUtilities::ConversionException &) {
@@ -58,6 +61,9 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
 {
     std::string str;
     pull(str, value, errors);
+    if (!value.IsString()) {
+        return;
+    }
     try {
         reflectable = CppUtilities::TimeSpan::fromString(str.data());
     } catch (const CppUtilities::ConversionException &) {
-- 
2.43.0


From 4e77d453b14cba82d279008033fcf20510e3c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 17/24] fix: allow using fromBinary() on versioned types

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From 5cae38aa56f34459e82a20be58a9f24efc3a1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 18/24] fix: clear sets and maps before reading them from
 binary

---
 lib/binary/reflector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..27d762b 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -184,6 +184,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
         read(value);
@@ -197,6 +198,7 @@ template <typename Type,
 void BinaryDeserializer::read(Type &iteratable)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
         read(value);
-- 
2.43.0


From 775b467642b856e25fd7a53260386ac2745f9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 19/24] fix: don't return indeterminate members from
 fromBinary() if the data is of an older version

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index a0b68e8..1d3d585 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -45,7 +45,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
-    Type object;
+    auto object = Type();
     static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
-- 
2.43.0


From 7e8dfa73ed25bb3e0f2aa58165354dfa437db97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 20/24] fix: don't leave members of set elements indeterminate
 if the data doesn't contain them

---
 lib/binary/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 27d762b..7ede225 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -200,7 +200,7 @@ void BinaryDeserializer::read(Type &iteratable)
     const auto size = readVariableLengthUIntBE();
     iteratable.clear();
     for (size_t i = 0; i != size; ++i) {
-        typename Type::value_type value;
+        auto value = typename Type::value_type();
         read(value);
         iteratable.emplace(std::move(value));
     }
-- 
2.43.0


From c57ac255f6546e9b987878a617ece02f79d8efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 21/24] fix: do not process members of indirect bases multiple
 times in generated code

---
 generator/serializationcodegenerator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..4a93569 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -127,7 +127,19 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
     vector<const RelevantClass *> relevantBaseClasses;
     for (const RelevantClass &otherClass : relevantBases) {
         if (relevantClass.record != otherClass.record && relevantClass.record->isDerivedFrom(otherClass.record)) {
-            relevantBaseClasses.push_back(&otherClass);
+            // skip bases of another relevant base because the code generated for that base already takes care of them
+            bool covered = false;
+            for (const RelevantClass &intermediateClass : relevantBases) {
+                if (relevantClass.record != intermediateClass.record && intermediateClass.record != otherClass.record
+                    && relevantClass.record->isDerivedFrom(intermediateClass.record)
+                    && intermediateClass.record->isDerivedFrom(otherClass.record)) {
+                    covered = true;
+                    break;
+                }
+            }
+            if (!covered) {
+                relevantBaseClasses.push_back(&otherClass);
+            }
         }
     }
     return relevantBaseClasses;
-- 
2.43.0


From cf2b86dae1fcae319b4729406cdd0e9aad43652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 22/24] fix: do not reuse the application path of the first
 code factory for all others

---
 generator/codefactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codefactory.cpp b/generator/codefactory.cpp
index 46f7bf9..6a7c82f 100644
--- a/generator/codefactory.cpp
+++ b/generator/codefactory.cpp
@@ -52,7 +52,7 @@ CodeFactory::~CodeFactory()
  */
 std::vector<string> CodeFactory::makeClangArgs() const
 {
-    static const initializer_list<std::string_view> flags
+    const initializer_list<std::string_view> flags
         = { m_applicationPath, "-x", "c++", "-Wno-pragma-once-outside-header", "-std=c++14", "-fsyntax-only", "-D" PROJECT_VARNAME_UPPER };
     vector<string> clangArgs;
     clangArgs.reserve(flags.size() + m_clangOptions.size() + m_sourceFiles.size());
-- 
2.43.0


From 402d6feca9f2ccb58448b3e4855ab6e583aa14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:35 +0000
Subject: [PATCH 23/24] fix: do not use the output stream after its destruction
 when reporting IO errors

---
 generator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..7926e18 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -58,8 +58,8 @@ int main(int argc, char *argv[])
 
     // setup output stream
     ostream *os = nullptr;
+    ofstream outputFile;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
-- 
2.43.0


From 0f0f2c0dface7b6d07c7d43a4b4dd85dd013998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 24/24] fix: report errors when writing buffered code at the
 end

---
 generator/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator/main.cpp b/generator/main.cpp
index 7926e18..6546f60 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -127,6 +127,13 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // write buffered code as well; an error would otherwise go unnoticed
+        os->flush();
+        if (!*os) {
+            cerr << Phrases::Error << "An IO error occurred when writing to the output stream." << Phrases::EndFlush;
+            return -4;
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0

