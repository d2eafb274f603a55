From a1c7297f66c2d9e66cde9148b433abd8dcf9729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 01/90] fix: SmallBuffer::swap left the other buffer pointing
 into this buffer's inline storage

---
 src/helics/core/SmallBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/SmallBuffer.hpp b/src/helics/core/SmallBuffer.hpp
index 6e958a1..6a407d8 100644
--- a/src/helics/core/SmallBuffer.hpp
+++ b/src/helics/core/SmallBuffer.hpp
@@ -361,7 +361,7 @@ class SmallBuffer {
             nonOwning = sb2.nonOwning;
             sb2.usingAllocatedBuffer = false;
             sb2.nonOwning = false;
-            sb2.heap = buffer.data();
+            sb2.heap = sb2.buffer.data();
             sb2.bufferCapacity = 64;
 
             std::memcpy(sb2.heap, buffer.data(), bufferSize);
-- 
2.43.0


From 7aa4dd6fb8c2f4166d12f1427067b8b9860877ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 02/90] fix: ZmqContextManager leak setters report that the
 context was found, as documented

---
 src/helics/network/zmq/ZmqContextManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/network/zmq/ZmqContextManager.cpp b/src/helics/network/zmq/ZmqContextManager.cpp
index 9a256b6..41571b5 100644
--- a/src/helics/network/zmq/ZmqContextManager.cpp
+++ b/src/helics/network/zmq/ZmqContextManager.cpp
@@ -82,6 +82,7 @@ bool ZmqContextManager::setContextToLeakOnDelete(const std::string& contextName)
     auto fnd = contexts.find(contextName);
     if (fnd != contexts.end()) {
         fnd->second->leakOnDelete = true;
+        return true;
     }
     return false;
 }
@@ -92,6 +93,7 @@ bool ZmqContextManager::setContextToNotLeakOnDelete(const std::string& contextNa
     auto fnd = contexts.find(contextName);
     if (fnd != contexts.end()) {
         fnd->second->leakOnDelete = false;
+        return true;
     }
     return false;
 }
-- 
2.43.0


From cfffc2d7896dc1f2fbf7b04e5aa600224458507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 03/90] fix: the flag name slowresponding (any letter case of
 slowResponding) is recognised

---
 src/helics/application_api/FederateInfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/FederateInfo.cpp b/src/helics/application_api/FederateInfo.cpp
index dca1e35..065e10c 100644
--- a/src/helics/application_api/FederateInfo.cpp
+++ b/src/helics/application_api/FederateInfo.cpp
@@ -145,7 +145,7 @@ static constexpr frozen::unordered_map<std::string_view, int, 78> propStringsTra
     {"intValueBufferWarning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
     {"int_value_buffer_warning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING}};
 
-static constexpr frozen::unordered_map<std::string_view, int, 97> flagStringsTranslations{
+static constexpr frozen::unordered_map<std::string_view, int, 98> flagStringsTranslations{
     {"source_only", HELICS_FLAG_SOURCE_ONLY},
     {"sourceonly", HELICS_FLAG_SOURCE_ONLY},
     {"sourceOnly", HELICS_FLAG_SOURCE_ONLY},
@@ -154,6 +154,7 @@ static constexpr frozen::unordered_map<std::string_view, int, 97> flagStringsTra
     {"slow", HELICS_FLAG_SLOW_RESPONDING},
     {"slow_response", HELICS_FLAG_SLOW_RESPONDING},
     {"slow_responding", HELICS_FLAG_SLOW_RESPONDING},
+    {"slowresponding", HELICS_FLAG_SLOW_RESPONDING},
     {"slowResponding", HELICS_FLAG_SLOW_RESPONDING},
     {"uninterruptible", HELICS_FLAG_UNINTERRUPTIBLE},
     {"interruptible", HELICS_FLAG_INTERRUPTIBLE},
-- 
2.43.0


From 80c52915cd68b9ca11255761437f470c170f0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 04/90] fix: the sequence number of a command from a machine of
 the other byte order is byte swapped

---
 src/helics/core/ActionMessage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 1cdf83d..5573ad8 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -554,6 +554,7 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
         swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&dest_handle));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&counter));
         swap_bytes<2>(reinterpret_cast<std::uint8_t*>(&flags));
+        swap_bytes<4>(reinterpret_cast<std::uint8_t*>(&sequenceID));
         auto timecode = actionTime.getBaseTimeCode();
         swap_bytes<sizeof(Time::baseType)>(reinterpret_cast<std::uint8_t*>(&timecode));
         actionTime.setBaseTimeCode(timecode);
-- 
2.43.0


From 1c5d6cef5a5ae9de9c468e616ffffc43f9a020b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 05/90] fix: reading a command without payload into a used
 ActionMessage left the old payload in place

---
 src/helics/core/ActionMessage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 5573ad8..2504cdf 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -516,6 +516,8 @@ std::size_t ActionMessage::fromByteArray(const std::byte* data, std::size_t buff
     if (size > 0) {
         payload.assign(data, size);
         data += size;
+    } else {
+        payload.clear();
     }
     auto stringCount = std::to_integer<std::size_t>(*data);
     ++data;
-- 
2.43.0


From 9e97aed27f0525125f462e129885023596c388dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 06/90] fix: packets nested in packets are rejected, unwrapping
 them recursively overflowed the stack

---
 src/helics/core/ActionMessage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 2504cdf..76708ba 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -602,6 +602,10 @@ std::size_t ActionMessage::depacketize(const void* data, std::size_t buffer_size
     if (bytes[message_size + 1] != static_cast<std::byte>(TAIL_CHAR2)) {
         return 0;
     }
+    // the content of a packet is a message, never another packet
+    if (message_size > 4 && bytes[4] == static_cast<std::byte>(LEADING_CHAR)) {
+        return 0;
+    }
 
     std::size_t bytesUsed = fromByteArray(bytes + 4, message_size - 4);
     if (bytesUsed == 0U) {
-- 
2.43.0


From ab5135e00d77b447654fd6e00bdd21446953b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 07/90] fix: ActionMessage::toByteArray wrote a time request
 past the end of a buffer too small for it

---
 src/helics/core/ActionMessage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 76708ba..3e9e94e 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -193,7 +193,11 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         }
     }
 
-    if ((data == nullptr) || (buffer_size == 0) || buffer_size < action_message_base_size + ssize) {
+    // a time request carries 3 additional times
+    const std::size_t extraSize =
+        (messageAction == CMD_TIME_REQUEST) ? 3 * sizeof(Time::baseType) : 0;
+    if ((data == nullptr) || (buffer_size == 0) ||
+        buffer_size < action_message_base_size + ssize + extraSize) {
         return -1;
     }
 
-- 
2.43.0


From dabbb9d589e2937176674594305b4cb22cf94309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 08/90] fix: a command whose payload is exactly the size limit
 of the main section writes its extra string

---
 src/helics/core/ActionMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/ActionMessage.cpp b/src/helics/core/ActionMessage.cpp
index 3e9e94e..f685dd6 100644
--- a/src/helics/core/ActionMessage.cpp
+++ b/src/helics/core/ActionMessage.cpp
@@ -269,7 +269,7 @@ int ActionMessage::toByteArray(std::byte* data, std::size_t buffer_size) const
         data += str.size();
         ssize += strsize + 4;
     }
-    if (payload.size() > maxPayloadSize) {
+    if (payload.size() >= maxPayloadSize) {
         if (buffer_size < ssize + payload.size() - maxPayloadSize + 4) {
             return -1;
         }
-- 
2.43.0


From 478cc937be66d2e15f3bb66a798d0d094972c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 09/90] fix: named points are ordered by name and then by
 value, as documented

---
 src/helics/application_api/helicsTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.hpp b/src/helics/application_api/helicsTypes.hpp
index 5d3ebc9..7c10873 100644
--- a/src/helics/application_api/helicsTypes.hpp
+++ b/src/helics/application_api/helicsTypes.hpp
@@ -132,14 +132,14 @@ class NamedPoint {
     */
     bool operator<(const NamedPoint& np) const
     {
-        return (name == np.name) ? (name < np.name) : (value < np.value);
+        return (name == np.name) ? (value < np.value) : (name < np.name);
     }
     /** greater than operator
     @details checks by name order, then value order
     */
     bool operator>(const NamedPoint& np) const
     {
-        return (name == np.name) ? (name > np.name) : (value > np.value);
+        return (name == np.name) ? (value > np.value) : (name > np.name);
     }
 };
 
-- 
2.43.0


From 4394eb269145ae821abd25ecc08932ca8284fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 10/90] fix: typeConvertComplex converted only half of the
 doubles of a complex array to vector, JSON, named point and numbers

---
 src/helics/application_api/helicsTypes.cpp | 59 +++-------------------
 1 file changed, 6 insertions(+), 53 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 8ee0363..ac4a135 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -918,61 +918,14 @@ SmallBuffer typeConvert(DataType type, const double* vals, size_t size)
 
 SmallBuffer typeConvertComplex(DataType type, const double* vals, size_t size)
 {
-    if ((vals == nullptr) || (size == 0)) {
-        return emptyBlock(type, DataType::HELICS_COMPLEX_VECTOR);
-    }
-    if (size == 1) {
-        // treat like a single complex
-        return typeConvert(type, std::complex<double>{vals[0], vals[1]});
-    }
-    switch (type) {
-        case DataType::HELICS_DOUBLE:
-            return ValueConverter<double>::convert(vectorNorm(vals, size));
-        case DataType::HELICS_TIME:
-            return ValueConverter<int64_t>::convert(Time(vectorNorm(vals, size)).getBaseTimeCode());
-        case DataType::HELICS_INT:
-            return ValueConverter<int64_t>::convert(static_cast<int64_t>(vectorNorm(vals, size)));
-        case DataType::HELICS_COMPLEX: {
-            const std::complex<double> cval(vals[0], vals[1]);
-            return ValueConverter<std::complex<double>>::convert(cval);
-        }
-        case DataType::HELICS_BOOL:
-            return ValueConverter<std::string_view>::convert((vectorNorm(vals, size) != 0.0) ? "1" :
-                                                                                               "0");
-        case DataType::HELICS_STRING:
-        case DataType::HELICS_CHAR: {
-            std::vector<std::complex<double>> cvec;
-            cvec.reserve(size);
-            for (size_t ii = 0; ii < size; ++ii) {
-                cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
-            }
-            return ValueConverter<std::string_view>::convert(helicsComplexVectorString(cvec));
-        }
-        case DataType::HELICS_NAMED_POINT:
-            return ValueConverter<NamedPoint>::convert(
-                NamedPoint{helicsVectorString(vals, size), std::nan("0")});
-        case DataType::HELICS_COMPLEX_VECTOR: {
-            std::vector<std::complex<double>> cvec;
-            cvec.reserve(size);
-            for (size_t ii = 0; ii < size; ++ii) {
-                cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
-            }
-            return ValueConverter<std::vector<std::complex<double>>>::convert(cvec);
-        } break;
-        case DataType::HELICS_VECTOR:
-        default:
-            return ValueConverter<double>::convert(vals, size);
-        case DataType::HELICS_JSON: {
-            nlohmann::json json;
-            json["type"] = typeNameStringRef(DataType::HELICS_VECTOR);
-            nlohmann::json jsonArray = nlohmann::json::array();
-            for (size_t ii = 0; ii < size; ++ii) {
-                jsonArray.push_back(vals[ii]);
-            }
-            json["value"] = std::move(jsonArray);
-            return fileops::generateJsonString(json);
+    std::vector<std::complex<double>> cvec;
+    if (vals != nullptr) {
+        cvec.reserve(size);
+        for (size_t ii = 0; ii < size; ++ii) {
+            cvec.emplace_back(vals[2 * ii], vals[2 * ii + 1]);
         }
     }
+    return typeConvert(type, cvec);
 }
 
 SmallBuffer typeConvert(DataType type, const std::vector<std::complex<double>>& val)
-- 
2.43.0


From 0be74a28347664f968af195601f18b6508c5a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 11/90] fix: reading a JSON array into a used complex vector
 appended to its old content

---
 src/helics/application_api/helicsTypes.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index ac4a135..6eeacb1 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -623,6 +623,7 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
                     data.emplace_back(json.get<double>(), 0.0);
                     break;
                 case nlohmann::json::value_t::array:
+                    data.resize(0);
                     for (auto& aval : json) {
                         if (aval.is_number()) {
                             if (cnt == 0) {
-- 
2.43.0


From 6159d06c33bc9c1971932a8c877738f366bf94aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 12/90] fix: negative times sent as a named point were taken
 for too big for a double, the smallest integer overflowed

---
 src/helics/application_api/helicsTypes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 6eeacb1..54fd6f1 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -794,8 +794,8 @@ SmallBuffer typeConvert(DataType type, int64_t val)
         case DataType::HELICS_CHAR:
             return ValueConverter<std::string_view>::convert(helicsIntString(val));
         case DataType::HELICS_NAMED_POINT:
-            if (static_cast<uint64_t>(std::abs(val)) >
-                (2ULL << 51U))  // this checks whether the actual value will fit in a double
+            // this checks whether the actual value will fit in a double
+            if (val > (1LL << 52U) || val < -(1LL << 52U))
             {
                 return ValueConverter<NamedPoint>::convert(
                     NamedPoint{helicsIntString(val), std::nan("0")});
@@ -1200,8 +1200,8 @@ SmallBuffer typeConvert(DataType type, Time val)
             return ValueConverter<std::string_view>::convert(
                 helicsIntString(val.getBaseTimeCode()));
         case DataType::HELICS_NAMED_POINT:
-            if (static_cast<uint64_t>(val.getBaseTimeCode()) >
-                (2ULL << 51U))  // this checks whether the actual value will fit in a double
+            // this checks whether the actual value will fit in a double
+            if (val.getBaseTimeCode() > (1LL << 52U) || val.getBaseTimeCode() < -(1LL << 52U))
             {
                 return ValueConverter<NamedPoint>::convert(
                     NamedPoint{helicsIntString(val.getBaseTimeCode()), std::nan("0")});
-- 
2.43.0


From f038c578a443e8b83e43f47708846e8c9cf20f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 13/90] fix: reading an empty vector as a complex vector read
 past its end

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index e09283d..c721902 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -320,7 +320,7 @@ void valueExtract(const defV& data, std::vector<std::complex<double>>& val)
             const auto& vec = std::get<std::vector<double>>(data);
             val.reserve(vec.size() + 1 / 2);
             val.clear();
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
@@ -566,7 +566,7 @@ defV readJsonValue(const data_view& data)
             case DataType::HELICS_COMPLEX_VECTOR: {
                 std::vector<std::complex<double>> res;
                 auto& array = json["value"];
-                for (std::size_t ii = 0; ii < array.size() - 1; ii += 2) {
+                for (std::size_t ii = 0; ii + 1 < array.size(); ii += 2) {
                     res.emplace_back(array[ii].get<double>(), array[ii + 1].get<double>());
                 }
                 result = std::move(res);
@@ -724,7 +724,7 @@ void valueExtract(const data_view& data, DataType baseType, std::vector<std::com
         }
         case DataType::HELICS_VECTOR: {
             auto vec = ValueConverter<std::vector<double>>::interpret(data);
-            for (size_t ii = 0; ii < vec.size() - 1; ii += 2) {
+            for (size_t ii = 0; ii + 1 < vec.size(); ii += 2) {
                 val.emplace_back(vec[ii], vec[ii + 1]);
             }
             if (vec.size() % 2 == 1) {
-- 
2.43.0


From b36a128588690483c9b4be1be06929480a46afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 14/90] fix: a stored double read as a string lost all but six
 decimals

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index c721902..50d813b 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -175,7 +175,7 @@ void valueExtract(const defV& data, std::string& val)
 {
     switch (data.index()) {
         case double_loc:  // double
-            val = std::to_string(std::get<double>(data));
+            val = helicsDoubleString(std::get<double>(data));
             break;
         case int_loc:  // int64_t
             val = std::to_string(std::get<int64_t>(data));
-- 
2.43.0


From e13a39f2a46041ffba75bdfccab87855db7d7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 15/90] fix: the exponent of the imaginary part of a complex
 number in text was ignored

---
 src/helics/application_api/helicsTypes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 54fd6f1..7535c6e 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -336,7 +336,8 @@ std::complex<double> helicsGetComplex(std::string_view val)
         if (match.size() == 9) {
             real = numConv<double>(match[1]);
 
-            imag = numConv<double>(match[6]);
+            // the digits and the exponent, without the sign
+            imag = numConv<double>(std::string(match[6].first, match[5].second));
 
             if (*match[5].first == '-') {
                 imag = -imag;
-- 
2.43.0


From e5df790909a2687f4702f96ab21940c4b2e6cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 16/90] fix: text that is no number read as a complex vector is
 the empty vector, as documented, and not an exception

---
 src/helics/application_api/helicsTypes.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 7535c6e..99ffc51 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -614,7 +614,15 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
             data.resize(0);
             data.push_back(cval);
         } else {
-            auto json = fileops::loadJsonStr(val);
+            data.resize(0);
+            nlohmann::json json;
+            try {
+                json = fileops::loadJsonStr(val);
+            }
+            catch (const std::invalid_argument&) {
+                // not a number or an array, so there is no valid value
+                return;
+            }
             int cnt{0};
             switch (json.type()) {
                 case nlohmann::json::value_t::number_float:
-- 
2.43.0


From b0b943bad32311bd87c300a175fc72952e4d9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 17/90] fix: a size prefix of a vector in text that is larger
 than its content, or a missing bracket, read out of bounds

---
 src/helics/application_api/helicsTypes.cpp | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 99ffc51..7901102 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -451,25 +451,30 @@ NamedPoint helicsGetNamedPoint(std::string_view val)
 
 static int readSize(std::string_view val)
 {
-    auto firstBracket = val.find_first_of('[');
+    const auto firstBracket = val.find_first_of('[');
+    if (firstBracket == std::string_view::npos ||
+        val.find_first_not_of(" ]", firstBracket + 1) == std::string_view::npos) {
+        return 0;
+    }
+    const auto count = static_cast<int>(
+        std::count_if(val.begin() + firstBracket,
+                      val.end(),
+                      [](auto nextChar) { return (nextChar == ',') || (nextChar == ';'); }) +
+        1);
     if (firstBracket > 1) {
         try {
             auto size = numConv<int>(val.substr(1, firstBracket - 1));
-            return size;
+            // the size can not be trusted beyond the number of elements actually there
+            if (size >= 0 && size < count) {
+                return size;
+            }
         }
         // NOLINTNEXTLINE
-        catch (const std::invalid_argument&) {
+        catch (const std::logic_error&) {
             // go to the alternative path if this fails
         }
     }
-    if (val.find_first_not_of(" ]", firstBracket + 1) == std::string_view::npos) {
-        return 0;
-    }
-    auto res = std::count_if(val.begin() + firstBracket,
-                             val.end(),
-                             [](auto nextChar) { return (nextChar == ',') || (nextChar == ';'); }) +
-        1;
-    return static_cast<int>(res);
+    return count;
 }
 
 std::complex<double> getComplexFromString(std::string_view val)
-- 
2.43.0


From 27a5a717902f6754226f3533b6c48d5866015078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 18/90] fix: a vector in text read as a complex vector used
 every inner number twice

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 7901102..43015c9 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -600,7 +600,7 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
             catch (const std::invalid_argument&) {
                 data.push_back(invalidValue<std::complex<double>>());
             }
-            firstBracket = nextChar;
+            firstBracket = secondChar;
         }
     } else if (val.front() == 'c') {
         auto size = readSize(val);
-- 
2.43.0


From 26af3ca7b68a0aa0fc2904f00e0d5893bac9e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 19/90] fix: text that is no complex number is read as the
 invalid value, as documented, and not as an exception or out of bounds

---
 src/helics/application_api/helicsTypes.cpp | 33 ++++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 43015c9..d93c01e 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -309,23 +309,31 @@ std::complex<double> helicsGetComplex(std::string_view val)
     double real{invalidValue<double>()};
     double imag{0.0};
     if (val.front() == '[') {
-        auto sep = val.find_first_of(',');
-        if (sep == std::string_view::npos) {
-            val.remove_prefix(1);
-            val.remove_suffix(1);
-            real = numConv<double>(val);
-            return {real, imag};
+        if (val.size() < 2) {
+            return invalidValue<std::complex<double>>();
         }
-        if (val.find_first_of(',', sep + 1) != std::string_view::npos) {
+        auto sep = val.find_first_of(',');
+        if (sep != std::string_view::npos &&
+            val.find_first_of(',', sep + 1) != std::string_view::npos) {
             auto vectorVal = helicsGetVector(val);
             if (vectorVal.size() >= 2) {
                 return {vectorVal[0], vectorVal[1]};
             }
             return invalidValue<std::complex<double>>();
         }
-        real = numConv<double>(val.substr(1, sep));
-        val.remove_suffix(1);
-        imag = numConv<double>(val.substr(sep + 1));
+        try {
+            if (sep == std::string_view::npos) {
+                val.remove_prefix(1);
+                val.remove_suffix(1);
+                real = numConv<double>(val);
+                return {real, imag};
+            }
+            real = numConv<double>(val.substr(1, sep));
+            imag = numConv<double>(val.substr(sep + 1, val.size() - sep - 2));
+        }
+        catch (const std::logic_error&) {
+            return invalidValue<std::complex<double>>();
+        }
         return {real, imag};
     }
     std::smatch match;
@@ -355,8 +363,9 @@ std::complex<double> helicsGetComplex(std::string_view val)
             }
         }
     }
-    catch (const std::invalid_argument&) {
-        real = invalidValue<double>();
+    catch (const std::logic_error&) {
+        // not a number or not in the range of a double
+        return invalidValue<std::complex<double>>();
     }
     return {real, imag};
 }
-- 
2.43.0


From f0e60efbae7547f5040cbf5c764c80857facd260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 20/90] fix: an integer beyond 32 bits in text read as a named
 point was truncated

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index d93c01e..0eb13a0 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -441,7 +441,7 @@ NamedPoint helicsGetNamedPoint(std::string_view val)
                 break;
             case nlohmann::json::value_t::number_integer:
             case nlohmann::json::value_t::number_unsigned:
-                namePoint.value = static_cast<double>(json.get<int>());
+                namePoint.value = json.get<double>();
                 namePoint.name = "value";
                 break;
             case nlohmann::json::value_t::object:
-- 
2.43.0


From 081ef45ecf01a2c187d16c83e684679f3a38e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 21/90] fix: a named point holding a decimal number as its text
 was read as a time in nanoseconds

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 50d813b..e093e1f 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -438,7 +438,7 @@ void valueExtract(const defV& data, Time& val)
         case named_point_loc:
             const auto& point = std::get<NamedPoint>(data);
             if (std::isnan(point.value)) {
-                if (point.name.find(".[eE") == std::string::npos) {
+                if (point.name.find_first_of(".[eE") == std::string::npos) {
                     const std::int64_t intVal = getIntFromString(point.name);
                     val.setBaseTimeCode(intVal);
                 } else {
@@ -933,7 +933,7 @@ void valueExtract(const data_view& data, DataType baseType, Time& val)
         case DataType::HELICS_NAMED_POINT: {
             auto point = ValueConverter<NamedPoint>::interpret(data);
             if (std::isnan(point.value)) {
-                if (point.name.find(".[eE") == std::string::npos) {
+                if (point.name.find_first_of(".[eE") == std::string::npos) {
                     const std::int64_t intVal = getIntFromString(point.name);
                     val.setBaseTimeCode(intVal);
                 } else {
-- 
2.43.0


From 0d57321812739eeda64c2c56814c1eff31c0c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 22/90] fix: an empty string read as a char read past its end

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index e093e1f..08db6d3 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -1034,7 +1034,7 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
                 if (dval != invalidDouble) {
                     val = static_cast<char>(dval);
                 } else {
-                    val = value[0];
+                    val = value.empty() ? '\0' : value[0];
                 }
             }
         }
-- 
2.43.0


From b043c527a1ebe124888aa48a1bd420f4b0642a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 23/90] fix: a named point given as name and value was sent as
 a time in nanoseconds instead of seconds

---
 src/helics/application_api/helicsTypes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index 0eb13a0..f21ebdf 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -1102,8 +1102,9 @@ SmallBuffer typeConvert(DataType type, std::string_view str, double val)
         case DataType::HELICS_DOUBLE:
             return ValueConverter<double>::convert(val);
         case DataType::HELICS_INT:
-        case DataType::HELICS_TIME:
             return ValueConverter<int64_t>::convert(static_cast<int64_t>(val));
+        case DataType::HELICS_TIME:
+            return ValueConverter<int64_t>::convert(Time(val).getBaseTimeCode());
         case DataType::HELICS_COMPLEX:
             return ValueConverter<std::complex<double>>::convert(std::complex<double>(val, 0.0));
         case DataType::HELICS_BOOL:
-- 
2.43.0


From 8a8f0547df16c99be091b79ad5a5f951f43165d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 24/90] fix: a stored real complex number read as a named point
 lost its value

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 08db6d3..103bf5d 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -361,9 +361,17 @@ void valueExtract(const defV& data, NamedPoint& val)
             val = helicsGetNamedPoint(std::get<std::string>(data));
             break;
         case complex_loc:  // complex
-            val.name = helicsComplexString(std::get<std::complex<double>>(data));
-            val.value = std::nan("0");
+        {
+            const auto& cval = std::get<std::complex<double>>(data);
+            if (cval.imag() == 0) {
+                val.name = "value";
+                val.value = cval.real();
+            } else {
+                val.name = helicsComplexString(cval);
+                val.value = std::nan("0");
+            }
             break;
+        }
         case vector_loc:  // vector
         {
             const auto& vec = std::get<std::vector<double>>(data);
-- 
2.43.0


From 40f4790585307093e506525c0eefa2d6b7e50a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 25/90] fix: an empty string or vector sent as JSON was sent as
 a binary number

---
 src/helics/application_api/helicsTypes.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index f21ebdf..ae5b3f6 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -764,6 +764,17 @@ SmallBuffer emptyBlock(DataType outputType, DataType inputType = DataType::HELIC
         }
         case DataType::HELICS_VECTOR:
             return ValueConverter<std::vector<double>>::convert(std::vector<double>());
+        case DataType::HELICS_JSON: {
+            nlohmann::json json;
+            if (inputType == DataType::HELICS_ANY) {
+                json["type"] = typeNameStringRef(DataType::HELICS_STRING);
+                json["value"] = std::string{};
+            } else {
+                json["type"] = typeNameStringRef(inputType);
+                json["value"] = nlohmann::json::array();
+            }
+            return fileops::generateJsonString(json);
+        }
     }
 }
 SmallBuffer typeConvert(DataType type, double val)
-- 
2.43.0


From 92b42c1b50d9eff886f49d9c118ee56c0c731261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:10 +0000
Subject: [PATCH 26/90] fix: a JSON number out of range is reported like any
 other malformed JSON

---
 src/helics/common/JsonProcessingFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/common/JsonProcessingFunctions.cpp b/src/helics/common/JsonProcessingFunctions.cpp
index 68c1c8f..4ebf7d8 100644
--- a/src/helics/common/JsonProcessingFunctions.cpp
+++ b/src/helics/common/JsonProcessingFunctions.cpp
@@ -91,7 +91,7 @@ nlohmann::json loadJson(const std::string& jsonString)
         try {
             return nlohmann::json::parse(file, nullptr, true, true);
         }
-        catch (const nlohmann::json::parse_error& errs) {
+        catch (const nlohmann::json::exception& errs) {
             throw(std::invalid_argument(errs.what()));
         }
     }
@@ -103,7 +103,7 @@ nlohmann::json loadJsonStr(std::string_view jsonString)
     try {
         return nlohmann::json::parse(jsonString.begin(), jsonString.end(), nullptr, true, true);
     }
-    catch (const nlohmann::json::parse_error& errs) {
+    catch (const nlohmann::json::exception& errs) {
         throw(std::invalid_argument(errs.what()));
     }
 }
-- 
2.43.0


From 29a4093a77f80eabf1ba6ad86ab439b760d3dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 27/90] fix: bytes that are no encoded value read as a value
 were read past their end

---
 src/helics/application_api/ValueConverter.hpp | 43 ++++++++++++++++++-
 .../application_api/helicsPrimaryTypes.cpp    |  8 ++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/ValueConverter.hpp b/src/helics/application_api/ValueConverter.hpp
index 1180cf0..e7743f4 100644
--- a/src/helics/application_api/ValueConverter.hpp
+++ b/src/helics/application_api/ValueConverter.hpp
@@ -106,6 +106,42 @@ namespace detail {
     @details this returns the number of elements of the specific data type  it is NOT in bytes
     */
     HELICS_CXX_EXPORT size_t getDataSize(const std::byte* data);
+
+    /** get the number of bytes a block must have to contain the value it describes, the block must
+     * have at least the 8 bytes of the header*/
+    inline size_t getBlockLength(const std::byte* /*data*/, const double& /*val*/)
+    {
+        return 16;
+    }
+    inline size_t getBlockLength(const std::byte* /*data*/, const std::int64_t& /*val*/)
+    {
+        return 16;
+    }
+    inline size_t getBlockLength(const std::byte* /*data*/, const std::complex<double>& /*val*/)
+    {
+        return 24;
+    }
+    inline size_t getBlockLength(const std::byte* data, const std::string& /*val*/)
+    {
+        return getDataSize(data) + 8;
+    }
+    inline size_t getBlockLength(const std::byte* data, const std::string_view& /*val*/)
+    {
+        return getDataSize(data) + 8;
+    }
+    inline size_t getBlockLength(const std::byte* data, const NamedPoint& /*val*/)
+    {
+        return getDataSize(data) + 16;
+    }
+    inline size_t getBlockLength(const std::byte* data, const std::vector<double>& /*val*/)
+    {
+        return getDataSize(data) * sizeof(double) + 8;
+    }
+    inline size_t getBlockLength(const std::byte* data,
+                                 const std::vector<std::complex<double>>& /*val*/)
+    {
+        return getDataSize(data) * sizeof(double) * 2 + 8;
+    }
 }  // namespace detail
 
 /** converter for a basic value*/
@@ -147,13 +183,18 @@ class ValueConverter {
     static X interpret(const data_view& block)
     {
         X val;
-        detail::convertFromBinary(block.bytes(), val);
+        interpret(block, val);
         return val;
     }
 
     /** interpret a view of the data block and store to the specified value*/
     static void interpret(const data_view& block, X& val)
     {
+        if (block.size() < 8 || block.size() < detail::getBlockLength(block.bytes(), val)) {
+            // the block was not generated from a value, such as from bytes published directly
+            val = invalidValue<X>();
+            return;
+        }
         detail::convertFromBinary(block.bytes(), val);
     }
 
diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 103bf5d..51845a0 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -1048,9 +1048,11 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
         }
 
         break;
-        case DataType::HELICS_BOOL:
-            val = ValueConverter<std::string_view>::interpret(data)[0];
+        case DataType::HELICS_BOOL: {
+            auto value = ValueConverter<std::string_view>::interpret(data);
+            val = value.empty() ? '0' : value[0];
             break;
+        }
         case DataType::HELICS_NAMED_POINT: {
             auto npval = ValueConverter<NamedPoint>::interpret(data);
             if (std::isnan(npval.value)) {
@@ -1110,7 +1112,7 @@ void valueExtract(const data_view& data, DataType baseType, char& val)
 void valueExtract(const data_view& data, DataType baseType, defV& val)
 {
     if (baseType == DataType::HELICS_ANY || baseType == DataType::HELICS_UNKNOWN) {
-        baseType = detail::detectType(data.bytes());
+        baseType = data.empty() ? DataType::HELICS_CUSTOM : detail::detectType(data.bytes());
     }
     switch (baseType) {
         case DataType::HELICS_DOUBLE:
-- 
2.43.0


From 0e854a24b15768ca33769bc6924e8b93241aaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 28/90] fix: a configuration string or file name shorter than
 four characters threw an exception

---
 src/helics/common/JsonProcessingFunctions.cpp | 3 +++
 src/helics/common/TomlProcessingFunctions.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/helics/common/JsonProcessingFunctions.cpp b/src/helics/common/JsonProcessingFunctions.cpp
index 4ebf7d8..4a6f346 100644
--- a/src/helics/common/JsonProcessingFunctions.cpp
+++ b/src/helics/common/JsonProcessingFunctions.cpp
@@ -70,6 +70,9 @@ bool looksLikeConfigJson(std::string_view jsonString)
 
 bool hasJsonExtension(std::string_view jsonString)
 {
+    if (jsonString.length() < 4) {
+        return false;
+    }
     auto ext = jsonString.substr(jsonString.length() - 4);
     return ((ext == "json") || (ext == "JSON") || (ext == ".jsn") || (ext == ".JSN"));
 }
diff --git a/src/helics/common/TomlProcessingFunctions.cpp b/src/helics/common/TomlProcessingFunctions.cpp
index d8ee69a..74bb714 100644
--- a/src/helics/common/TomlProcessingFunctions.cpp
+++ b/src/helics/common/TomlProcessingFunctions.cpp
@@ -17,6 +17,9 @@ namespace helics::fileops {
 
 bool hasTomlExtension(std::string_view tomlString)
 {
+    if (tomlString.length() < 4) {
+        return false;
+    }
     auto ext = tomlString.substr(tomlString.length() - 4);
     return ((ext == "toml") || (ext == "TOML") || (ext == ".ini") || (ext == ".INI"));
 }
-- 
2.43.0


From 6430c97a6dce0f2757c89d0f43a3661057bfabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 29/90] fix: an out of range number in text read as a complex
 vector is the invalid value and not an exception

---
 src/helics/application_api/helicsTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsTypes.cpp b/src/helics/application_api/helicsTypes.cpp
index ae5b3f6..bf6b718 100644
--- a/src/helics/application_api/helicsTypes.cpp
+++ b/src/helics/application_api/helicsTypes.cpp
@@ -606,7 +606,7 @@ void helicsGetComplexVector(std::string_view val, std::vector<std::complex<doubl
                 auto val2 = numConv<double>(vstr2);
                 data.emplace_back(val1, val2);
             }
-            catch (const std::invalid_argument&) {
+            catch (const std::logic_error&) {
                 data.push_back(invalidValue<std::complex<double>>());
             }
             firstBracket = secondChar;
-- 
2.43.0


From 3c3a5832fbf7c97e04b24940b500a12f0e5d34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 30/90] fix: a stored double read as a string is in fixed
 notation again, HELICS's own type tests rely on it (undoes b36a128)

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 51845a0..493defe 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -175,7 +175,7 @@ void valueExtract(const defV& data, std::string& val)
 {
     switch (data.index()) {
         case double_loc:  // double
-            val = helicsDoubleString(std::get<double>(data));
+            val = std::to_string(std::get<double>(data));
             break;
         case int_loc:  // int64_t
             val = std::to_string(std::get<int64_t>(data));
-- 
2.43.0


From 76a735c51bea0c33b14cd921e71359a96b3cefe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 31/90] fix: copying a C++98 FederateInfo cloned a federate
 instead of the federate information and always failed

---
 src/helics/cpp98/Federate.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helics/cpp98/Federate.hpp b/src/helics/cpp98/Federate.hpp
index 241d3f1..d11e52a 100644
--- a/src/helics/cpp98/Federate.hpp
+++ b/src/helics/cpp98/Federate.hpp
@@ -46,12 +46,13 @@ class FederateInfo {
     /** copy constructor for federate info*/
     FederateInfo(const FederateInfo& otherFedInfo)
     {
-        fedInfo = helicsFederateClone(otherFedInfo.fedInfo, hThrowOnError());
+        fedInfo = helicsFederateInfoClone(otherFedInfo.fedInfo, hThrowOnError());
     }
     /** copy assignment for federateInfo*/
     FederateInfo& operator=(const FederateInfo& otherFedInfo)
     {
-        HelicsFederateInfo fi_new = helicsFederateClone(otherFedInfo.fedInfo, hThrowOnError());
+        HelicsFederateInfo fi_new =
+            helicsFederateInfoClone(otherFedInfo.fedInfo, hThrowOnError());
         helicsFederateInfoFree(fedInfo);
         fedInfo = fi_new;
         return *this;
-- 
2.43.0


From 65a19f67f17f0e0e77b9034c8eb048b947ac805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 32/90] fix: registerInput with a type code in the C++98
 interface registered a publication

---
 src/helics/cpp98/ValueFederate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/cpp98/ValueFederate.hpp b/src/helics/cpp98/ValueFederate.hpp
index 21d48ce..4594867 100644
--- a/src/helics/cpp98/ValueFederate.hpp
+++ b/src/helics/cpp98/ValueFederate.hpp
@@ -355,9 +355,9 @@ class ValueFederate: public virtual Federate {
     Input
         registerInput(const std::string& name, HelicsDataTypes type, const std::string& units = "")
     {
-        HelicsInput ipt = helicsFederateRegisterPublication(
+        HelicsInput ipt = helicsFederateRegisterInput(
             fed, name.c_str(), type, units.c_str(), hThrowOnError());
-        pubs.push_back(ipt);
+        ipts.push_back(ipt);
         return Input(ipt);
     }
 
-- 
2.43.0


From 28eb94ef4ef20387b39209c0b521743f81c52543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 33/90] fix: getString and toString of the C++98 interface read
 before the string when there is none

---
 src/helics/cpp98/DataBuffer.hpp | 4 ++--
 src/helics/cpp98/Input.hpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helics/cpp98/DataBuffer.hpp b/src/helics/cpp98/DataBuffer.hpp
index 8f24be4..2e155db 100644
--- a/src/helics/cpp98/DataBuffer.hpp
+++ b/src/helics/cpp98/DataBuffer.hpp
@@ -77,7 +77,7 @@ class DataBuffer {
         result.resize(static_cast<size_t>(size) + 1);
         // this function results in a null terminated string
         helicsDataBufferToString(buff, &result[0], size + 1, &size);
-        if (!(result.empty()) && (result[static_cast<size_t>(size) - 1] == '\0')) {
+        if ((size > 0) && (result[static_cast<size_t>(size) - 1] == '\0')) {
             result.resize(static_cast<size_t>(size) - 1);
         } else {
             result.resize(size);
@@ -92,7 +92,7 @@ class DataBuffer {
         str.resize(static_cast<size_t>(size) + 1);
         // this function results in a null terminated string
         helicsDataBufferToString(buff, &str[0], size + 1, &size);
-        if (!(str.empty()) && (str[static_cast<size_t>(size) - 1] == '\0')) {
+        if ((size > 0) && (str[static_cast<size_t>(size) - 1] == '\0')) {
             str.resize(static_cast<size_t>(size) - 1);
         } else {
             str.resize(size);
diff --git a/src/helics/cpp98/Input.hpp b/src/helics/cpp98/Input.hpp
index df72b67..15138bd 100644
--- a/src/helics/cpp98/Input.hpp
+++ b/src/helics/cpp98/Input.hpp
@@ -123,7 +123,7 @@ class Input {
         result.resize(static_cast<size_t>(size) + 1);
         // this function results in a null terminated string
         helicsInputGetString(inp, &result[0], size + 1, &size, HELICS_IGNORE_ERROR);
-        if (!(result.empty()) && (result[static_cast<size_t>(size) - 1] == '\0')) {
+        if ((size > 0) && (result[static_cast<size_t>(size) - 1] == '\0')) {
             result.resize(static_cast<size_t>(size) - 1);
         } else {
             result.resize(size);
@@ -138,7 +138,7 @@ class Input {
         str.resize(static_cast<size_t>(size) + 1);
         // this function results in a null terminated string
         helicsInputGetString(inp, &str[0], size + 1, &size, HELICS_IGNORE_ERROR);
-        if (!(str.empty()) && (str[static_cast<size_t>(size) - 1] == '\0')) {
+        if ((size > 0) && (str[static_cast<size_t>(size) - 1] == '\0')) {
             str.resize(static_cast<size_t>(size) - 1);
         } else {
             str.resize(size);
-- 
2.43.0


From fe0fe16544e0fcd7e2345c2365429328de96f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 34/90] fix: getNamedPoint of the C++98 interface returned the
 name with a null character appended

---
 src/helics/cpp98/Input.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/cpp98/Input.hpp b/src/helics/cpp98/Input.hpp
index 15138bd..2d058f4 100644
--- a/src/helics/cpp98/Input.hpp
+++ b/src/helics/cpp98/Input.hpp
@@ -153,7 +153,8 @@ class Input {
         name.resize(static_cast<size_t>(size) + 1);
         // this function results in a null terminated string
         helicsInputGetNamedPoint(inp, &name[0], size + 1, &size, val, HELICS_IGNORE_ERROR);
-        name.resize(size);
+        // the length includes the null character
+        name.resize((size > 0) ? static_cast<size_t>(size) - 1 : 0);
     }
     /** get the current value as a 64 bit integer*/
     HELICS_NODISCARD int64_t getInteger()
-- 
2.43.0


From 411a2dafc5f35f5f00dca55de9cf5c7017b14313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 35/90] fix: vectors read through the C++98 interface have the
 size of the value read, not of its representation as doubles

---
 src/helics/cpp98/Input.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helics/cpp98/Input.hpp b/src/helics/cpp98/Input.hpp
index 2d058f4..3af716e 100644
--- a/src/helics/cpp98/Input.hpp
+++ b/src/helics/cpp98/Input.hpp
@@ -191,7 +191,8 @@ class Input {
     {
         int actualSize = helicsInputGetVectorSize(inp);
         data.resize(actualSize);
-        helicsInputGetVector(inp, data.data(), actualSize, HELICS_NULL_POINTER, hThrowOnError());
+        helicsInputGetVector(inp, data.data(), actualSize, &actualSize, hThrowOnError());
+        data.resize(actualSize);
     }
 
     /** get the current value as a vector of doubles in alternating real and imaginary
@@ -217,8 +218,9 @@ class Input {
         helicsInputGetComplexVector(inp,
                                     reinterpret_cast<double*>(data.data()),
                                     actualSize,
-                                    HELICS_NULL_POINTER,
+                                    &actualSize,
                                     hThrowOnError());
+        data.resize(actualSize);
     }
 #if defined(__GNUC__)
 #    pragma GCC diagnostic pop
-- 
2.43.0


From d646efcb7048fa56361ea5a7f2d347a416091a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 36/90] fix: copies of a C++98 DataBuffer shared and freed
 twice the same buffer

---
 src/helics/cpp98/DataBuffer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helics/cpp98/DataBuffer.hpp b/src/helics/cpp98/DataBuffer.hpp
index 2e155db..961775f 100644
--- a/src/helics/cpp98/DataBuffer.hpp
+++ b/src/helics/cpp98/DataBuffer.hpp
@@ -25,6 +25,18 @@ class DataBuffer {
         buff(helicsWrapDataInBuffer(buffer, datasize, capacity))
     {
     }
+    /** copy constructor*/
+    DataBuffer(const DataBuffer& buffer): buff(helicsDataBufferClone(buffer.buff)) {}
+    /** copy assignment operator*/
+    DataBuffer& operator=(const DataBuffer& buffer)
+    {
+        if (this != &buffer) {
+            HelicsDataBuffer newBuffer = helicsDataBufferClone(buffer.buff);
+            helicsDataBufferFree(buff);
+            buff = newBuffer;
+        }
+        return *this;
+    }
     /** destructor*/
     ~DataBuffer() { helicsDataBufferFree(buff); }
     void fill(double val) { helicsDataBufferFillFromDouble(buff, val); }
-- 
2.43.0


From 97f3f33171cf2f74f28c39fcc584a66054011aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 37/90] fix: assigning to a C++98 federate, federate
 information, core, broker or message leaked the object replaced, and
 assigning a message or federate information to itself freed it

---
 src/helics/cpp98/Broker.hpp   | 17 ++++++++++++++---
 src/helics/cpp98/Core.hpp     | 17 ++++++++++++++---
 src/helics/cpp98/Endpoint.hpp | 15 +++++++++++----
 src/helics/cpp98/Federate.hpp | 29 +++++++++++++++++++++--------
 4 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/helics/cpp98/Broker.hpp b/src/helics/cpp98/Broker.hpp
index 4cfd85c..b4bd2e7 100644
--- a/src/helics/cpp98/Broker.hpp
+++ b/src/helics/cpp98/Broker.hpp
@@ -49,7 +49,13 @@ class Broker {
     /** copy assignment*/
     Broker& operator=(const Broker& brk)
     {
-        broker = helicsBrokerClone(brk.broker, hThrowOnError());
+        if (this != &brk) {
+            HelicsBroker newBroker = helicsBrokerClone(brk.broker, hThrowOnError());
+            if (broker != HELICS_NULL_POINTER) {
+                helicsBrokerFree(broker);
+            }
+            broker = newBroker;
+        }
         return *this;
     }
 #ifdef HELICS_HAS_RVALUE_REFS
@@ -58,8 +64,13 @@ class Broker {
     /** move assignment*/
     Broker& operator=(Broker&& brk) HELICS_NOTHROW
     {
-        broker = brk.broker;
-        brk.broker = HELICS_NULL_POINTER;
+        if (this != &brk) {
+            if (broker != HELICS_NULL_POINTER) {
+                helicsBrokerFree(broker);
+            }
+            broker = brk.broker;
+            brk.broker = HELICS_NULL_POINTER;
+        }
         return *this;
     }
 #endif
diff --git a/src/helics/cpp98/Core.hpp b/src/helics/cpp98/Core.hpp
index 3c99f32..858e6e5 100644
--- a/src/helics/cpp98/Core.hpp
+++ b/src/helics/cpp98/Core.hpp
@@ -54,7 +54,13 @@ class Core {
     /** copy assignment*/
     Core& operator=(const Core& cr)
     {
-        core = helicsCoreClone(cr.core, hThrowOnError());
+        if (this != &cr) {
+            HelicsCore newCore = helicsCoreClone(cr.core, hThrowOnError());
+            if (core != HELICS_NULL_POINTER) {
+                helicsCoreFree(core);
+            }
+            core = newCore;
+        }
         return *this;
     }
 #ifdef HELICS_HAS_RVALUE_REFS
@@ -63,8 +69,13 @@ class Core {
     /** move assignment*/
     Core& operator=(Core&& cr) HELICS_NOTHROW
     {
-        core = cr.core;
-        cr.core = HELICS_NULL_POINTER;
+        if (this != &cr) {
+            if (core != HELICS_NULL_POINTER) {
+                helicsCoreFree(core);
+            }
+            core = cr.core;
+            cr.core = HELICS_NULL_POINTER;
+        }
         return *this;
     }
 #endif
diff --git a/src/helics/cpp98/Endpoint.hpp b/src/helics/cpp98/Endpoint.hpp
index 3bc7b18..a5036be 100644
--- a/src/helics/cpp98/Endpoint.hpp
+++ b/src/helics/cpp98/Endpoint.hpp
@@ -38,10 +38,12 @@ class Message {
     /** copy assignment*/
     Message& operator=(const Message& mess) HELICS_NOTHROW
     {
-        if (mo != HELICS_NULL_POINTER) {
-            helicsMessageFree(mo);
+        if (this != &mess) {
+            if (mo != HELICS_NULL_POINTER) {
+                helicsMessageFree(mo);
+            }
+            mo = helicsMessageClone(mess.mo, HELICS_IGNORE_ERROR);
         }
-        mo = helicsMessageClone(mess.mo, HELICS_IGNORE_ERROR);
         return *this;
     }
 #ifdef HELICS_HAS_RVALUE_REFS
@@ -50,7 +52,12 @@ class Message {
     /** copy assignment*/
     Message& operator=(Message&& mess) HELICS_NOTHROW
     {
-        mo = mess.release();
+        if (this != &mess) {
+            if (mo != HELICS_NULL_POINTER) {
+                helicsMessageFree(mo);
+            }
+            mo = mess.release();
+        }
         return *this;
     }
 #endif
diff --git a/src/helics/cpp98/Federate.hpp b/src/helics/cpp98/Federate.hpp
index d11e52a..b0f4011 100644
--- a/src/helics/cpp98/Federate.hpp
+++ b/src/helics/cpp98/Federate.hpp
@@ -67,9 +67,11 @@ class FederateInfo {
     /** move assignment for federateInfo*/
     FederateInfo& operator=(FederateInfo&& otherFedInfo) HELICS_NOTHROW
     {
-        helicsFederateInfoFree(fedInfo);
-        fedInfo = otherFedInfo.fedInfo;
-        otherFedInfo.fedInfo = HELICS_NULL_POINTER;
+        if (this != &otherFedInfo) {
+            helicsFederateInfoFree(fedInfo);
+            fedInfo = otherFedInfo.fedInfo;
+            otherFedInfo.fedInfo = HELICS_NULL_POINTER;
+        }
         return *this;
     }
 #endif
@@ -239,8 +241,14 @@ class Federate {
     /// Copy assignment operator
     Federate& operator=(const Federate& fedObj)
     {
-        exec_async_iterate = fedObj.exec_async_iterate;
-        fed = helicsFederateClone(fedObj.fed, hThrowOnError());
+        if (this != &fedObj) {
+            HelicsFederate newFed = helicsFederateClone(fedObj.fed, hThrowOnError());
+            if (fed != HELICS_NULL_POINTER) {
+                helicsFederateFree(fed);
+            }
+            fed = newFed;
+            exec_async_iterate = fedObj.exec_async_iterate;
+        }
         return *this;
     }
 #ifdef HELICS_HAS_RVALUE_REFS
@@ -254,9 +262,14 @@ class Federate {
     /** move assignment operator*/
     Federate& operator=(Federate&& fedObj) HELICS_NOTHROW
     {
-        exec_async_iterate = fedObj.exec_async_iterate;
-        fed = fedObj.fed;
-        fedObj.fed = HELICS_NULL_POINTER;
+        if (this != &fedObj) {
+            if (fed != HELICS_NULL_POINTER) {
+                helicsFederateFree(fed);
+            }
+            exec_async_iterate = fedObj.exec_async_iterate;
+            fed = fedObj.fed;
+            fedObj.fed = HELICS_NULL_POINTER;
+        }
         return *this;
     }
 #endif
-- 
2.43.0


From 0438f87d8fabc0c6327c291c6d1ce7264e513a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 38/90] fix: a failing query through the C++98 interface leaked
 the query

---
 src/helics/cpp98/Broker.hpp   |  9 ++++++++-
 src/helics/cpp98/Core.hpp     |  9 ++++++++-
 src/helics/cpp98/Federate.hpp | 18 ++++++++++++++++--
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/helics/cpp98/Broker.hpp b/src/helics/cpp98/Broker.hpp
index b4bd2e7..eb1e87c 100644
--- a/src/helics/cpp98/Broker.hpp
+++ b/src/helics/cpp98/Broker.hpp
@@ -186,7 +186,14 @@ class Broker {
         if (mode != HELICS_SEQUENCING_MODE_FAST) {
             helicsQuerySetOrdering(q, mode, HELICS_IGNORE_ERROR);
         }
-        std::string result(helicsQueryBrokerExecute(q, broker, hThrowOnError()));
+        std::string result;
+        try {
+            result = helicsQueryBrokerExecute(q, broker, hThrowOnError());
+        }
+        catch (...) {
+            helicsQueryFree(q);
+            throw;
+        }
         helicsQueryFree(q);
         return result;
     }
diff --git a/src/helics/cpp98/Core.hpp b/src/helics/cpp98/Core.hpp
index 858e6e5..82a6aab 100644
--- a/src/helics/cpp98/Core.hpp
+++ b/src/helics/cpp98/Core.hpp
@@ -179,7 +179,14 @@ if the query was not valid
         if (mode != HELICS_SEQUENCING_MODE_FAST) {
             helicsQuerySetOrdering(q, mode, HELICS_IGNORE_ERROR);
         }
-        std::string result(helicsQueryCoreExecute(q, core, hThrowOnError()));
+        std::string result;
+        try {
+            result = helicsQueryCoreExecute(q, core, hThrowOnError());
+        }
+        catch (...) {
+            helicsQueryFree(q);
+            throw;
+        }
         helicsQueryFree(q);
         return result;
     }
diff --git a/src/helics/cpp98/Federate.hpp b/src/helics/cpp98/Federate.hpp
index b0f4011..7e02f00 100644
--- a/src/helics/cpp98/Federate.hpp
+++ b/src/helics/cpp98/Federate.hpp
@@ -576,7 +576,14 @@ class Federate {
         if (mode != HELICS_SEQUENCING_MODE_FAST) {
             helicsQuerySetOrdering(q, mode, HELICS_IGNORE_ERROR);
         }
-        std::string result(helicsQueryExecute(q, fed, hThrowOnError()));
+        std::string result;
+        try {
+            result = helicsQueryExecute(q, fed, hThrowOnError());
+        }
+        catch (...) {
+            helicsQueryFree(q);
+            throw;
+        }
         helicsQueryFree(q);
         return result;
     }
@@ -602,7 +609,14 @@ class Federate {
         if (mode != HELICS_SEQUENCING_MODE_FAST) {
             helicsQuerySetOrdering(q, mode, HELICS_IGNORE_ERROR);
         }
-        std::string result(helicsQueryExecute(q, fed, hThrowOnError()));
+        std::string result;
+        try {
+            result = helicsQueryExecute(q, fed, hThrowOnError());
+        }
+        catch (...) {
+            helicsQueryFree(q);
+            throw;
+        }
         helicsQueryFree(q);
         return result;
     }
-- 
2.43.0


From 4265dede65b2a6b7e7a02ed9c95c2a56cd2a1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 39/90] fix: a C++98 broker that could not be connected was
 leaked

---
 src/helics/cpp98/Broker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helics/cpp98/Broker.hpp b/src/helics/cpp98/Broker.hpp
index eb1e87c..86124d3 100644
--- a/src/helics/cpp98/Broker.hpp
+++ b/src/helics/cpp98/Broker.hpp
@@ -30,6 +30,7 @@ class Broker {
         broker =
             helicsCreateBroker(type.c_str(), name.c_str(), initString.c_str(), hThrowOnError());
         if (helicsBrokerIsConnected(broker) != HELICS_TRUE) {
+            helicsBrokerFree(broker);
             throw(std::runtime_error("broker creation failed"));
         }
     }
-- 
2.43.0


From 69cbe5f406b660470d2f27061a54069e66e24a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 40/90] fix: moving a C++98 combination federate lost the
 federate

---
 src/helics/cpp98/CombinationFederate.hpp | 14 ++++++++++++++
 src/helics/cpp98/ValueFederate.hpp       |  3 +--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/helics/cpp98/CombinationFederate.hpp b/src/helics/cpp98/CombinationFederate.hpp
index cbc0292..a6284ea 100644
--- a/src/helics/cpp98/CombinationFederate.hpp
+++ b/src/helics/cpp98/CombinationFederate.hpp
@@ -31,6 +31,20 @@ class CombinationFederate: public ValueFederate, public MessageFederate {
     {
         fed = helicsCreateCombinationFederateFromConfig(configString.c_str(), hThrowOnError());
     }
+#ifdef HELICS_HAS_RVALUE_REFS
+    /** copy constructor*/
+    CombinationFederate(const CombinationFederate& fedObj) = default;
+    /** move constructor*/
+    CombinationFederate(CombinationFederate&& fedObj) = default;
+    /** copy assignment operator*/
+    CombinationFederate& operator=(const CombinationFederate& fedObj) = default;
+    /** move assignment operator, the federate in the virtual base is moved only once*/
+    CombinationFederate& operator=(CombinationFederate&& fedObj) HELICS_NOTHROW
+    {
+        ValueFederate::operator=(std::move(fedObj));
+        return *this;
+    }
+#endif
 };
 }  // namespace helicscpp
 #endif
diff --git a/src/helics/cpp98/ValueFederate.hpp b/src/helics/cpp98/ValueFederate.hpp
index 4594867..9e35633 100644
--- a/src/helics/cpp98/ValueFederate.hpp
+++ b/src/helics/cpp98/ValueFederate.hpp
@@ -79,11 +79,10 @@ class ValueFederate: public virtual Federate {
 #ifdef HELICS_HAS_RVALUE_REFS
     /** move constructor*/
     ValueFederate(ValueFederate&& fedObj) HELICS_NOTHROW:
-        Federate(),
+        Federate(std::move(fedObj)),
         ipts(std::move(fedObj.ipts)),
         pubs(std::move(fedObj.pubs))
     {
-        Federate::operator=(std::move(fedObj));
     }
     /** move assignment operator*/
     ValueFederate& operator=(ValueFederate&& fedObj) HELICS_NOTHROW
-- 
2.43.0


From d6b698e4a2090357aff648583724c08cfbc99a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 41/90] fix: callbacks of a C++98 federate were freed with the
 object they were set on although a moved or copied one still used them

---
 src/helics/cpp98/Federate.hpp | 104 +++++++++++-----------------------
 1 file changed, 34 insertions(+), 70 deletions(-)

diff --git a/src/helics/cpp98/Federate.hpp b/src/helics/cpp98/Federate.hpp
index 7e02f00..1d2e8f4 100644
--- a/src/helics/cpp98/Federate.hpp
+++ b/src/helics/cpp98/Federate.hpp
@@ -20,6 +20,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
 #    include <functional>
+#    include <memory>
 #    include <utility>
 #endif
 
@@ -237,6 +238,9 @@ class Federate {
     Federate(const Federate& fedObj): exec_async_iterate(fedObj.exec_async_iterate)
     {
         fed = helicsFederateClone(fedObj.fed, hThrowOnError());
+#if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
+        callbacks = fedObj.callbacks;
+#endif
     }
     /// Copy assignment operator
     Federate& operator=(const Federate& fedObj)
@@ -248,6 +252,9 @@ class Federate {
             }
             fed = newFed;
             exec_async_iterate = fedObj.exec_async_iterate;
+#if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
+            callbacks = fedObj.callbacks;
+#endif
         }
         return *this;
     }
@@ -258,6 +265,9 @@ class Federate {
         exec_async_iterate(fedObj.exec_async_iterate)
     {
         fedObj.fed = HELICS_NULL_POINTER;
+#if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
+        callbacks = std::move(fedObj.callbacks);
+#endif
     }
     /** move assignment operator*/
     Federate& operator=(Federate&& fedObj) HELICS_NOTHROW
@@ -269,6 +279,9 @@ class Federate {
             exec_async_iterate = fedObj.exec_async_iterate;
             fed = fedObj.fed;
             fedObj.fed = HELICS_NULL_POINTER;
+#if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
+            callbacks = std::move(fedObj.callbacks);
+#endif
         }
         return *this;
     }
@@ -279,9 +292,6 @@ class Federate {
         if (fed != HELICS_NULL_POINTER) {
             helicsFederateFree(fed);
         }
-#if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
-        freeCallbacks();
-#endif
     }
     /** cast operator to get the underlying HelicsFederate object*/
     operator HelicsFederate() const { return fed; }
@@ -717,12 +727,10 @@ class Federate {
     void setQueryCallback(std::function<std::string(const std::string&)> callback)
 
     {
-        checkCallbackAllocation();
-        callbackBuffers[queryCallbackLocation] =
-            new std::function<std::string(const std::string&)>(std::move(callback));
+        void* stored = storeCallback(std::move(callback));
         helicsFederateSetQueryCallback(fed,
                                        details::helicCppQueryCallbackExecutor,
-                                       callbackBuffers[queryCallbackLocation],
+                                       stored,
                                        hThrowOnError());
     }
 
@@ -731,24 +739,20 @@ class Federate {
             callback)
 
     {
-        checkCallbackAllocation();
-        callbackBuffers[timeRequestEntryCallbackLocation] =
-            new std::function<void(HelicsTime, HelicsTime, bool)>(std::move(callback));
+        void* stored = storeCallback(std::move(callback));
         helicsFederateSetTimeRequestEntryCallback(fed,
                                                   details::helicCppTimeRequestEntryCallbackExecutor,
-                                                  callbackBuffers[timeRequestEntryCallbackLocation],
+                                                  stored,
                                                   hThrowOnError());
     }
 
     void setTimeUpdateCallback(std::function<void(HelicsTime time, bool iterating)> callback)
 
     {
-        checkCallbackAllocation();
-        callbackBuffers[timeUpdateCallbackLocation] =
-            new std::function<void(HelicsTime time, bool iterating)>(std::move(callback));
+        void* stored = storeCallback(std::move(callback));
         helicsFederateSetTimeUpdateCallback(fed,
                                             details::helicCppTimeUpdateCallbackExecutor,
-                                            callbackBuffers[timeUpdateCallbackLocation],
+                                            stored,
                                             hThrowOnError());
     }
 
@@ -756,12 +760,10 @@ class Federate {
         std::function<void(HelicsFederateState, HelicsFederateState)> callback)
 
     {
-        checkCallbackAllocation();
-        callbackBuffers[stateChangeCallbackLocation] =
-            new std::function<void(HelicsFederateState, HelicsFederateState)>(std::move(callback));
+        void* stored = storeCallback(std::move(callback));
         helicsFederateSetStateChangeCallback(fed,
                                              details::helicCppStateChangeCallbackExecutor,
-                                             callbackBuffers[stateChangeCallbackLocation],
+                                             stored,
                                              hThrowOnError());
     }
 
@@ -769,13 +771,11 @@ class Federate {
         std::function<void(HelicsTime newTime, bool iterating)> callback)
 
     {
-        checkCallbackAllocation();
-        callbackBuffers[timeRequestReturnCallbackLocation] =
-            new std::function<void(HelicsTime, bool)>(std::move(callback));
+        void* stored = storeCallback(std::move(callback));
         helicsFederateSetTimeRequestReturnCallback(
             fed,
             details::helicCppTimeRequestReturnCallbackExecutor,
-            callbackBuffers[timeRequestReturnCallbackLocation],
+            stored,
             hThrowOnError());
     }
 #endif
@@ -942,55 +942,19 @@ class Federate {
     bool exec_async_iterate;  //!< indicator that the federate is in an async operation
 #if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
   private:
-    static constexpr int numberOfCallbacks = 5;
-    static constexpr int timeRequestEntryCallbackLocation = 0;
-    static constexpr int timeUpdateCallbackLocation = 1;
-    static constexpr int stateChangeCallbackLocation = 2;
-    static constexpr int queryCallbackLocation = 3;
-    static constexpr int timeRequestReturnCallbackLocation = 4;
-    void** callbackBuffers{nullptr};
-
-    void checkCallbackAllocation()
-    {
-        if (callbackBuffers == nullptr) {
-            callbackBuffers = new void*[numberOfCallbacks];
-            for (int ii = 0; ii < numberOfCallbacks; ++ii) {
-                callbackBuffers[ii] = nullptr;
-            }
-        }
-    }
-    void freeCallbacks()
+    /// the callbacks, shared with the copies of this object as they share the federate calling them
+    std::shared_ptr<std::vector<std::shared_ptr<void>>> callbacks;
+
+    /** store a callback for as long as this object or a copy of it exists
+    @return the pointer to use as user data*/
+    template<typename Callback>
+    void* storeCallback(Callback callback)
     {
-        if (callbackBuffers == nullptr) {
-            return;
-        }
-        if (callbackBuffers[queryCallbackLocation] != nullptr) {
-            auto cback = reinterpret_cast<std::function<std::string(const std::string&)>*>(
-                callbackBuffers[queryCallbackLocation]);
-            delete cback;
-        }
-        if (callbackBuffers[timeRequestEntryCallbackLocation] != nullptr) {
-            auto cback = reinterpret_cast<std::function<void(HelicsTime, HelicsTime, bool)>*>(
-                callbackBuffers[timeRequestEntryCallbackLocation]);
-            delete cback;
-        }
-        if (callbackBuffers[timeUpdateCallbackLocation] != nullptr) {
-            auto cback = reinterpret_cast<std::function<void(HelicsTime, bool)>*>(
-                callbackBuffers[timeUpdateCallbackLocation]);
-            delete cback;
-        }
-        if (callbackBuffers[stateChangeCallbackLocation] != nullptr) {
-            auto cback =
-                reinterpret_cast<std::function<void(HelicsFederateState, HelicsFederateState)>*>(
-                    callbackBuffers[stateChangeCallbackLocation]);
-            delete cback;
-        }
-        if (callbackBuffers[timeRequestReturnCallbackLocation] != nullptr) {
-            auto cback = reinterpret_cast<std::function<void(HelicsTime, bool)>*>(
-                callbackBuffers[timeRequestReturnCallbackLocation]);
-            delete cback;
+        if (!callbacks) {
+            callbacks = std::make_shared<std::vector<std::shared_ptr<void>>>();
         }
-        delete[] callbackBuffers;
+        callbacks->push_back(std::make_shared<Callback>(std::move(callback)));
+        return callbacks->back().get();
     }
 #endif
 };
-- 
2.43.0


From c4f70910809b1b0a2153bed7d9889b4b9322cc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 42/90] fix: a callback set on a C++98 federate after it had
 been copied was freed with the object while the copy used it

---
 src/helics/cpp98/Federate.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/helics/cpp98/Federate.hpp b/src/helics/cpp98/Federate.hpp
index 1d2e8f4..fcb9cc8 100644
--- a/src/helics/cpp98/Federate.hpp
+++ b/src/helics/cpp98/Federate.hpp
@@ -239,7 +239,7 @@ class Federate {
     {
         fed = helicsFederateClone(fedObj.fed, hThrowOnError());
 #if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
-        callbacks = fedObj.callbacks;
+        callbacks = fedObj.sharedCallbacks();
 #endif
     }
     /// Copy assignment operator
@@ -253,7 +253,7 @@ class Federate {
             fed = newFed;
             exec_async_iterate = fedObj.exec_async_iterate;
 #if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
-            callbacks = fedObj.callbacks;
+            callbacks = fedObj.sharedCallbacks();
 #endif
         }
         return *this;
@@ -943,17 +943,22 @@ class Federate {
 #if defined(HELICS_HAS_FUNCTIONAL) && HELICS_HAS_FUNCTIONAL != 0
   private:
     /// the callbacks, shared with the copies of this object as they share the federate calling them
-    std::shared_ptr<std::vector<std::shared_ptr<void>>> callbacks;
+    mutable std::shared_ptr<std::vector<std::shared_ptr<void>>> callbacks;
 
+    /** get the storage of the callbacks, also for those set after this object has been copied*/
+    const std::shared_ptr<std::vector<std::shared_ptr<void>>>& sharedCallbacks() const
+    {
+        if (!callbacks) {
+            callbacks = std::make_shared<std::vector<std::shared_ptr<void>>>();
+        }
+        return callbacks;
+    }
     /** store a callback for as long as this object or a copy of it exists
     @return the pointer to use as user data*/
     template<typename Callback>
     void* storeCallback(Callback callback)
     {
-        if (!callbacks) {
-            callbacks = std::make_shared<std::vector<std::shared_ptr<void>>>();
-        }
-        callbacks->push_back(std::make_shared<Callback>(std::move(callback)));
+        sharedCallbacks()->push_back(std::make_shared<Callback>(std::move(callback)));
         return callbacks->back().get();
     }
 #endif
-- 
2.43.0


From 310d366e77b4cf541f6b42ce988a63cf4930db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 43/90] fix: a value delayed by the input delay no longer hides
 the ones after it from the next event time

---
 src/helics/core/FederateState.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index 5ddac6c..fded95a 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -2457,8 +2457,12 @@ int FederateState::checkInterfaces()
 Time FederateState::nextValueTime() const
 {
     auto firstValueTime = Time::maxVal();
+    const auto inputDelay = timeCoord->getTimeProperty(defs::Properties::INPUT_DELAY);
     for (const auto& inp : interfaceInformation.getInputs()) {
         auto nvt = inp->nextValueTime();
+        if (nvt < time_granted && nvt + inputDelay >= time_granted) {
+            nvt = time_granted;  // published in the past but not available yet
+        }
         if (nvt >= time_granted) {
             if (nvt < firstValueTime) {
                 firstValueTime = nvt;
-- 
2.43.0


From 2242c0799c61082ab5991d6041c9bd5051fa1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 44/90] fix: a forwarding time coordinator sends its new
 sequence counter so that it can be answered

---
 src/helics/core/ForwardingTimeCoordinator.cpp | 6 ++++++
 src/helics/core/ForwardingTimeCoordinator.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/helics/core/ForwardingTimeCoordinator.cpp b/src/helics/core/ForwardingTimeCoordinator.cpp
index 730498b..7cd42ab 100644
--- a/src/helics/core/ForwardingTimeCoordinator.cpp
+++ b/src/helics/core/ForwardingTimeCoordinator.cpp
@@ -80,6 +80,12 @@ bool ForwardingTimeCoordinator::updateTimeFactors()
 
     sequenceCounter = upstream.sequenceCounter + sequenceModifier;
     normalizeSequenceCounter(sequenceCounter);
+    if (executionMode && sequenceCounter != lastSentCounter &&
+        !dependencies.hasDelayedDependency()) {
+        // an answer to the new counter can only come if it is sent
+        updateDownStream = true;
+    }
+    lastSentCounter = sequenceCounter;
     if (updateUpStream || updateDownStream) {
         auto upd =
             generateTimeRequest(upstream, GlobalFederateId{}, upstream.responseSequenceCounter);
diff --git a/src/helics/core/ForwardingTimeCoordinator.hpp b/src/helics/core/ForwardingTimeCoordinator.hpp
index 9097f36..3af455c 100644
--- a/src/helics/core/ForwardingTimeCoordinator.hpp
+++ b/src/helics/core/ForwardingTimeCoordinator.hpp
@@ -34,6 +34,7 @@ class ForwardingTimeCoordinator: public BaseTimeCoordinator {
   protected:
     bool iterating{false};  //!< flag indicating that the min dependency is iterating
     bool ignoreMinFed{false};  //!< flag indicating that minFed Controls should not be used
+    std::int32_t lastSentCounter{0};
     std::int32_t sequenceModifier{0};
 
   public:
-- 
2.43.0


From 2b06a1d69bf13e18fea3d53c57da39da3727f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:46 +0000
Subject: [PATCH 45/90] fix: times of a period are computed exactly

---
 src/helics/core/TimeCoordinator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 9efa92d..2b5b6f8 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -508,8 +508,12 @@ Time TimeCoordinator::generateAllowedTime(Time testTime) const
             }
         }
         if (testTime - timeBase > info.period) {
-            auto blk = std::ceil((testTime - timeBase) / info.period);
-            testTime = timeBase + blk * info.period;
+            // in the integers behind the times: a quotient of doubles can end up above the exact one
+            const auto diff = (testTime - timeBase).getBaseTimeCode();
+            const auto period = info.period.getBaseTimeCode();
+            Time step;
+            step.setBaseTimeCode((diff / period + ((diff % period != 0) ? 1 : 0)) * period);
+            testTime = timeBase + step;
         } else {
             testTime = timeBase + info.period;
         }
-- 
2.43.0


From 400474122f5ab262701465c8d71beacee976591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 46/90] fix: an answer to an earlier time request is not taken
 for one to the current request

---
 src/helics/core/BaseTimeCoordinator.hpp | 2 +-
 src/helics/core/TimeCoordinator.cpp     | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/helics/core/BaseTimeCoordinator.hpp b/src/helics/core/BaseTimeCoordinator.hpp
index c12c891..69b2058 100644
--- a/src/helics/core/BaseTimeCoordinator.hpp
+++ b/src/helics/core/BaseTimeCoordinator.hpp
@@ -64,7 +64,7 @@ class BaseTimeCoordinator {
     static void normalizeSequenceCounter(std::int32_t& counter)
     {
         if (counter > maxTimingSequenceCounter) {
-            counter = 1;
+            counter = (counter - 1) % maxTimingSequenceCounter + 1;
         }
     }
 
diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 2b5b6f8..2d1e434 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -261,7 +261,8 @@ void TimeCoordinator::timeRequest(Time nextTime,
         }
     }
     dependencies.resetDependentEvents(time_granted);
-    ++sequenceCounter;
+    // not restarted with every request: an answer to the last request is no answer to this one
+    incrementSequenceCounter(sequenceCounter);
     updateTimeFactors();
 
     if (!dependencies.empty()) {
@@ -681,7 +682,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
         case IterationRequest::NO_ITERATIONS:
             if (time_allow > time_exec) {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
                 return MessageProcessingResult::NEXT_STEP;
@@ -691,7 +691,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     if (time_requested <= time_exec) {
                         // this is the non interrupted case
                         iteration = 0;
-                        sequenceCounter = 0;
                         hasIterationData = false;
                         updateTimeGrant();
                         return MessageProcessingResult::NEXT_STEP;
@@ -702,7 +701,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     getDelayMode(info.wait_for_current_time_updates, (time_requested > time_exec));
                 if (dependencies.checkIfReadyForTimeGrant(false, time_exec, delayMode)) {
                     iteration = 0;
-                    sequenceCounter = 0;
                     hasIterationData = false;
                     updateTimeGrant();
                     return MessageProcessingResult::NEXT_STEP;
@@ -725,7 +723,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                     ++iteration;
                 } else {
                     iteration = 0;
-                    sequenceCounter = 0;
                 }
 
                 updateTimeGrant();
@@ -810,7 +807,6 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
                 ret = MessageProcessingResult::ITERATING;
             } else {
                 iteration = 0;
-                sequenceCounter = 0;
                 hasIterationData = false;
                 updateTimeGrant();
             }
-- 
2.43.0


From fc579e81c1184c05c093f2f2a4528413cd2caae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:58 +0000
Subject: [PATCH 47/90] fix: a dependency that does not depend on the federate
 is not expected to answer its request

---
 src/helics/core/TimeDependencies.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 14cae14..2f7a4f3 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -700,7 +700,8 @@ void TimeDependencies::resetIteratingTimeRequests(helics::Time requestTime)
 void TimeDependencies::resetDependentEvents(helics::Time grantTime)
 {
     for (auto& dep : dependencies) {
-        if (dep.dependency) {
+        // one that does not depend on this federate does not answer its request
+        if (dep.dependency && dep.dependent) {
             dep.Te = (std::max)(dep.next, grantTime);
             dep.minDe = dep.Te;
         }
-- 
2.43.0


From 2f6250a20e3d5f004d95d4ac96f49049ea9cd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 48/90] fix: a federate that sends to itself is not held back
 by itself when others leave

---
 src/helics/core/TimeCoordinator.cpp  | 8 +++++++-
 src/helics/core/TimeDependencies.cpp | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 2d1e434..863cd8c 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -785,7 +785,8 @@ MessageProcessingResult TimeCoordinator::checkTimeGrant(GlobalFederateId trigger
         case MessageProcessingResult::CONTINUE_PROCESSING:
             if (triggerFed.isValid() || sendAll) {
                 if (sendAll) {
-                    sendTimeRequest(GlobalFederateId{});
+                    // the trigger is answered even if there is nothing new to send
+                    sendTimeRequest(triggerFed == mSourceId ? GlobalFederateId{} : triggerFed);
                 } else {
                     if (triggerFed != mSourceId) {
                         sendTimeRequest(triggerFed);
@@ -1288,6 +1289,11 @@ TimeProcessingResult TimeCoordinator::processTimeMessage(const ActionMessage& cm
             // this command requires removing dependents as well as dealing with dependency
             // processing
             removeDependent(cmd.source_id);
+            if (executionMode) {
+                // the others (and this federate, if it sends to itself) only learn from a new
+                // request that this one no longer waits for the federate that left
+                needSendAll = true;
+            }
             break;
         case CMD_REQUEST_CURRENT_TIME:
             if (disconnected || lastSend.mTimeState == TimeState::error) {
diff --git a/src/helics/core/TimeDependencies.cpp b/src/helics/core/TimeDependencies.cpp
index 2f7a4f3..d614aa6 100644
--- a/src/helics/core/TimeDependencies.cpp
+++ b/src/helics/core/TimeDependencies.cpp
@@ -907,6 +907,10 @@ TimeData generateMinTimeUpstream(const TimeDependencies& dependencies,
         if (!dep.dependency) {
             continue;
         }
+        // what is sent to itself is part of its own times and must not hold back what it reports
+        if (dep.connection == ConnectionType::SELF) {
+            continue;
+        }
         if (dep.connection == ConnectionType::PARENT) {
             continue;
         }
-- 
2.43.0


From 4b10d8886a48abee747979b094bd57de674777fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 49/90] fix: a JSON map builder gives every placeholder its own
 index and clears all components of a code

A placeholder made after a component was filled in could get the index of one still
waiting, clearing a code only cleared its first component, and filling in a component
before anything else was added used a null pointer.
---
 src/helics/common/JsonBuilder.cpp | 20 ++++++++++++--------
 src/helics/common/JsonBuilder.hpp |  1 +
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/helics/common/JsonBuilder.cpp b/src/helics/common/JsonBuilder.cpp
index 9407ffb..3f25262 100644
--- a/src/helics/common/JsonBuilder.cpp
+++ b/src/helics/common/JsonBuilder.cpp
@@ -37,7 +37,7 @@ bool JsonMapBuilder::isCompleted() const
 
 int JsonMapBuilder::generatePlaceHolder(const std::string& location, int32_t code)
 {
-    int index = static_cast<int>(missing_components.size()) + 2;
+    int index = nextIndex++;
     missing_components.emplace(index, std::make_pair(location, code));
     return index;
 }
@@ -46,15 +46,16 @@ bool JsonMapBuilder::addComponent(const std::string& info, int index) noexcept
 {
     auto loc = missing_components.find(index);
     if (loc != missing_components.end()) {
+        auto& jv = getJValue();
         if (info == "#invalid") {
-            (*jMap)[loc->second.first].push_back(nlohmann::json::object());
+            jv[loc->second.first].push_back(nlohmann::json::object());
         } else {
             try {
                 auto element = loadJsonStr(info);
-                (*jMap)[loc->second.first].push_back(element);
+                jv[loc->second.first].push_back(element);
             }
             catch (const std::invalid_argument&) {
-                (*jMap)[loc->second.first].push_back(nlohmann::json::object());
+                jv[loc->second.first].push_back(nlohmann::json::object());
             }
         }
 
@@ -67,13 +68,16 @@ bool JsonMapBuilder::addComponent(const std::string& info, int index) noexcept
 
 bool JsonMapBuilder::clearComponents(int32_t code)
 {
-    for (auto b = missing_components.begin(); b != missing_components.end(); ++b) {
+    bool cleared{false};
+    for (auto b = missing_components.begin(); b != missing_components.end();) {
         if (b->second.second == code) {
-            missing_components.erase(b);
-            return missing_components.empty();
+            b = missing_components.erase(b);
+            cleared = true;
+        } else {
+            ++b;
         }
     }
-    return false;
+    return cleared && missing_components.empty();
 }
 
 bool JsonMapBuilder::clearComponents()
diff --git a/src/helics/common/JsonBuilder.hpp b/src/helics/common/JsonBuilder.hpp
index 8bba43c..adbd9e7 100644
--- a/src/helics/common/JsonBuilder.hpp
+++ b/src/helics/common/JsonBuilder.hpp
@@ -19,6 +19,7 @@ class JsonMapBuilder {
   private:
     std::unique_ptr<nlohmann::json> jMap;
     std::map<int, std::pair<std::string, int32_t>> missing_components;
+    int nextIndex{2};  // the index to give to the next placeholder
     int counterCode{0};  // a code for the user to include for various purposes
   public:
     JsonMapBuilder() noexcept;
-- 
2.43.0


From 55da39be49a06203467a7d3b8a4441a9f485e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 50/90] fix: a log buffer stays within its capacity when it is
 resized while messages arrive

A message pushed between the trim and the change of the limit left more messages than the
limit, after which the buffer was never trimmed again.
---
 src/helics/common/LogBuffer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/helics/common/LogBuffer.cpp b/src/helics/common/LogBuffer.cpp
index ac4105b..a337d14 100644
--- a/src/helics/common/LogBuffer.cpp
+++ b/src/helics/common/LogBuffer.cpp
@@ -16,13 +16,10 @@ namespace helics {
 
 void LogBuffer::resize(std::size_t newSize)
 {
-    if (newSize < mMaxSize) {
-        auto block = mBuffer.lock();
-        while (block->size() > newSize) {
-            block->pop_front();
-        }
+    auto block = mBuffer.lock();
+    while (block->size() > newSize) {
+        block->pop_front();
     }
-
     mMaxSize = newSize;
 }
 
@@ -43,7 +40,11 @@ void LogBuffer::push(int logLevel, std::string_view header, std::string_view mes
         return;
     }
     auto block = mBuffer.lock();
-    if (block->size() == mMaxSize.load()) {
+    const auto maxSize = mMaxSize.load();
+    if (maxSize == 0) {
+        return;
+    }
+    if (block->size() >= maxSize) {
         block->pop_front();
     }
     block->emplace_back(logLevel, header, message);
-- 
2.43.0


From 5ba0fb323d0092084522decc812e9951e5dbc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 51/90] fix: remote log copies keep their level, level changes
 apply, and the log file can change

A copy of a log message sent to a remote target had no level, changing the level of an
existing remote target had no effect on what was logged, and setting a second log file
threw while one set after the start dropped everything below info.
---
 src/helics/core/LogManager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/helics/core/LogManager.cpp b/src/helics/core/LogManager.cpp
index b13ba43..033ce31 100644
--- a/src/helics/core/LogManager.cpp
+++ b/src/helics/core/LogManager.cpp
@@ -112,6 +112,7 @@ bool LogManager::sendToLogger(int logLevel,
                 if (mTransmit) {
                     ActionMessage remMess(CMD_REMOTE_LOG);
                     remMess.dest_id = rl.first;
+                    remMess.messageID = logLevel;
                     remMess.setString(0, header);
                     remMess.payload = message;
                     mTransmit(std::move(remMess));
@@ -244,13 +245,14 @@ void LogManager::setLoggingFile(std::string_view lfile, const std::string& ident
 {
     if (logFile.empty() || lfile != logFile) {
         logFile = lfile;
+        if (fileLogger) {
+            spdlog::drop(fileLogger->name());
+            fileLogger.reset();
+        }
         if (!logFile.empty()) {
             fileLogger = spdlog::basic_logger_mt(identifier, logFile);
-        } else {
-            if (fileLogger) {
-                spdlog::drop(logIdentifier);
-                fileLogger.reset();
-            }
+            fileLogger->flush_on(spdlog::level::info);
+            fileLogger->set_level(spdlog::level::trace);
         }
     }
     logIdentifier = identifier;
@@ -261,6 +263,7 @@ void LogManager::updateRemote(GlobalFederateId destination, int level)
     for (auto& rl : remoteTargets) {
         if (rl.first == destination) {
             rl.second = level;
+            updateMaxLogLevel();
             return;
         }
     }
-- 
2.43.0


From cd6654741f079d0e9a355eeb7d11e46cf7ec7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 52/90] fix: an index query answer that does not fit an integer
 gives no index instead of an exception

---
 src/helics/application_api/queryFunctions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helics/application_api/queryFunctions.cpp b/src/helics/application_api/queryFunctions.cpp
index e70ac7e..5f3a00c 100644
--- a/src/helics/application_api/queryFunctions.cpp
+++ b/src/helics/application_api/queryFunctions.cpp
@@ -90,6 +90,8 @@ std::vector<int> vectorizeIndexQuery(std::string_view queryres)
     }
     catch (const std::invalid_argument&) {
     }
+    catch (const std::out_of_range&) {
+    }
     return result;
 }
 
-- 
2.43.0


From 068f65ccdb28afd701c7b5704e2973766dcc7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 53/90] fix: HandleManager aliases: use after free when merging
 alias groups, names lost by order, stale names after removal

---
 src/helics/core/HandleManager.cpp | 200 ++++++++++--------------------
 src/helics/core/HandleManager.hpp |  20 ++-
 2 files changed, 71 insertions(+), 149 deletions(-)

diff --git a/src/helics/core/HandleManager.cpp b/src/helics/core/HandleManager.cpp
index 256f768..d0af3de 100644
--- a/src/helics/core/HandleManager.cpp
+++ b/src/helics/core/HandleManager.cpp
@@ -47,6 +47,21 @@ void HandleManager::addHandle(const BasicHandleInfo& otherHandle)
     addSearchFields(handles.back(), index);
 }
 
+using MapType = std::unordered_map<std::string_view, InterfaceHandle>;
+using AliasT = std::unordered_map<std::string_view, std::vector<std::string_view>>;
+
+/** remove a name and all its aliases from a search map*/
+static void removeFields(std::string_view key, MapType& searchMap, const AliasT& aliases)
+{
+    searchMap.erase(key);
+    auto aliasRange = aliases.find(key);
+    if (aliasRange != aliases.end()) {
+        for (const auto& alias : aliasRange->second) {
+            searchMap.erase(alias);
+        }
+    }
+}
+
 void HandleManager::removeHandle(GlobalHandle handle)
 {
     auto key = static_cast<uint64_t>(handle);
@@ -60,25 +75,25 @@ void HandleManager::removeHandle(GlobalHandle handle)
     if (!info.key.empty()) {
         switch (info.handleType) {
             case InterfaceType::ENDPOINT:
-                endpoints.erase(info.key);
+                removeFields(info.key, endpoints, aliases);
                 break;
             case InterfaceType::PUBLICATION:
-                publications.erase(info.key);
+                removeFields(info.key, publications, aliases);
                 break;
             case InterfaceType::FILTER:
-                filters.erase(info.key);
+                removeFields(info.key, filters, aliases);
                 break;
             case InterfaceType::INPUT:
-                inputs.erase(info.key);
+                removeFields(info.key, inputs, aliases);
                 break;
             case InterfaceType::TRANSLATOR:
-                inputs.erase(info.key);
-                endpoints.erase(info.key);
-                publications.erase(info.key);
+                removeFields(info.key, inputs, aliases);
+                removeFields(info.key, endpoints, aliases);
+                removeFields(info.key, publications, aliases);
                 break;
             case InterfaceType::SINK:
-                inputs.erase(info.key);
-                endpoints.erase(info.key);
+                removeFields(info.key, inputs, aliases);
+                removeFields(info.key, endpoints, aliases);
                 break;
             default:
                 break;
@@ -402,152 +417,65 @@ LocalFederateId HandleManager::getLocalFedID(InterfaceHandle handle) const
 
 void HandleManager::addAlias(std::string_view interfaceName, std::string_view alias)
 {
-    // interfaceName needs to be stable to emplace here so we create a stable string in the aliases
-    // map
-    auto [aliasName, existing1] = alias_names.emplace(alias);
-    auto [iName, existing2] = alias_names.emplace(interfaceName);
-    const std::string& aliasStableName = *aliasName;
-    const std::string& interfaceStableName = *iName;
-
-    bool cascade = addAliasName(interfaceStableName, aliasStableName);
-
-    if (cascade) {
-        auto& aliasRange = aliases[interfaceStableName];
-        for (auto& interfaceAlias : aliasRange) {
-            if (interfaceAlias != alias) {
-                addPublicationAlias(interfaceAlias, interfaceStableName);
-                addInputAlias(interfaceAlias, interfaceStableName);
-                addEndpointAlias(interfaceAlias, interfaceStableName);
-                addFilterAlias(interfaceAlias, interfaceStableName);
-            }
-        }
+    if (interfaceName == alias) {
+        return;
     }
-
-    // add aliases for existing interfaces
-    addPublicationAlias(*iName, *aliasName);
-    addInputAlias(*iName, *aliasName);
-    addEndpointAlias(*iName, *aliasName);
-    addFilterAlias(*iName, *aliasName);
-
-    /** aliases should be reciprocal*/
-    cascade = addAliasName(aliasStableName, interfaceStableName);
-
-    if (cascade) {
-        auto& aliasRange = aliases[aliasStableName];
-        for (auto& interfaceAlias : aliasRange) {
-            if (interfaceAlias != alias) {
-                addPublicationAlias(interfaceAlias, aliasStableName);
-                addInputAlias(interfaceAlias, aliasStableName);
-                addEndpointAlias(interfaceAlias, aliasStableName);
-                addFilterAlias(interfaceAlias, aliasStableName);
-            }
+    // the names need to be stable to be used in the maps so we create a stable string in the
+    // alias_names set
+    const std::string_view stableName{*alias_names.emplace(interfaceName).first};
+    const std::string_view stableAlias{*alias_names.emplace(alias).first};
+
+    // aliases are an equivalence relation, so all the names linked with either one are now linked
+    // with each other
+    std::vector<std::string_view> names{stableName, stableAlias};
+    for (const auto& name : {stableName, stableAlias}) {
+        auto fnd = aliases.find(name);
+        if (fnd != aliases.end()) {
+            names.insert(names.end(), fnd->second.begin(), fnd->second.end());
         }
     }
-
-    // add aliases for existing interfaces
-    addPublicationAlias(*aliasName, *iName);
-    addInputAlias(*aliasName, *iName);
-    addEndpointAlias(*aliasName, *iName);
-    addFilterAlias(*aliasName, *iName);
-}
-
-void HandleManager::addPublicationAlias(std::string_view interfaceName, std::string_view alias)
-{
-    auto fnd = publications.find(interfaceName);
-    if (fnd != publications.end()) {
-        auto res = publications.try_emplace(alias, fnd->second.baseValue());
-        if (!res.second && res.first->second != fnd->second) {
-            throw std::runtime_error("publication name and alias already exists");
-        }
-    } else {
-        fnd = publications.find(alias);
-        if (fnd != publications.end()) {
-            publications.emplace(interfaceName, fnd->second.baseValue());
-        }
+    std::sort(names.begin(), names.end());
+    names.erase(std::unique(names.begin(), names.end()), names.end());
+    for (const auto& name : names) {
+        auto& others = aliases[name];
+        others = names;
+        others.erase(std::lower_bound(others.begin(), others.end(), name));
     }
-}
 
-void HandleManager::addEndpointAlias(std::string_view interfaceName, std::string_view alias)
-{
-    auto fnd = endpoints.find(interfaceName);
-    if (fnd != endpoints.end()) {
-        auto res = endpoints.try_emplace(alias, fnd->second.baseValue());
-        if (!res.second && res.first->second != fnd->second) {
-            throw std::runtime_error("endpoint name and alias already exists");
-        }
-    } else {
-        fnd = endpoints.find(alias);
-        if (fnd != endpoints.end()) {
-            endpoints.emplace(interfaceName, fnd->second.baseValue());
-        }
-    }
+    // add the names for existing interfaces
+    addAliasFields(names, "publication", publications);
+    addAliasFields(names, "input", inputs);
+    addAliasFields(names, "endpoint", endpoints);
+    addAliasFields(names, "filter", filters);
 }
 
-void HandleManager::addFilterAlias(std::string_view interfaceName, std::string_view alias)
+void HandleManager::addAliasFields(const std::vector<std::string_view>& names,
+                                   std::string_view typeName,
+                                   MapType& searchMap)
 {
-    auto fnd = filters.find(interfaceName);
-    if (fnd != filters.end()) {
-        auto res = filters.try_emplace(alias, fnd->second.baseValue());
-        if (!res.second && res.first->second != fnd->second) {
-            throw std::runtime_error("filter name and alias already exists");
+    InterfaceHandle existing;
+    for (const auto& name : names) {
+        auto fnd = searchMap.find(name);
+        if (fnd == searchMap.end()) {
+            continue;
         }
-    } else {
-        fnd = filters.find(alias);
-        if (fnd != filters.end()) {
-            filters.emplace(interfaceName, fnd->second.baseValue());
+        if (existing.isValid() && fnd->second != existing) {
+            throw std::runtime_error(std::string(typeName) + " name and alias already exists");
         }
+        existing = fnd->second;
     }
-}
-
-void HandleManager::addInputAlias(std::string_view interfaceName, std::string_view alias)
-{
-    auto fnd = inputs.find(interfaceName);
-    if (fnd != inputs.end()) {
-        auto res = inputs.try_emplace(alias, fnd->second.baseValue());
-        if (!res.second && res.first->second != fnd->second) {
-            throw std::runtime_error("input name and alias already exists");
-        }
-    } else {
-        fnd = inputs.find(alias);
-        if (fnd != inputs.end()) {
-            inputs.emplace(interfaceName, fnd->second.baseValue());
+    if (existing.isValid()) {
+        for (const auto& name : names) {
+            searchMap.try_emplace(name, existing);
         }
     }
 }
 
-bool HandleManager::addAliasName(std::string_view interfaceName, std::string_view alias)
-{
-    if (interfaceName == alias) {
-        return false;
-    }
-    bool cascading{false};
-    auto fnd = aliases.find(interfaceName);
-    if (fnd == aliases.end()) {
-        aliases[interfaceName].emplace_back(alias);
-        cascading = addAliasName(alias, interfaceName);
-    } else {
-        auto& aliasVector = aliases[interfaceName];
-        auto aliasIterator = std::lower_bound(aliasVector.begin(), aliasVector.end(), alias);
-        if (aliasIterator == aliasVector.end() || *aliasIterator != alias) {
-            aliasVector.insert(aliasIterator, alias);
-            cascading = true;
-            for (auto& otherAlias : aliasVector) {
-                addAliasName(otherAlias, alias);
-            }
-            addAliasName(alias, interfaceName);
-        }
-    }
-
-    return cascading;
-}
-
-using MapType = std::unordered_map<std::string_view, InterfaceHandle>;
-using AliasT = std::unordered_map<std::string_view, std::vector<std::string_view>>;
 static void addFields(std::string_view key,
                       std::string_view typeName,
                       InterfaceHandle hid,
                       MapType& searchMap,
-                      AliasT aliases)
+                      const AliasT& aliases)
 {
     auto placed = searchMap.try_emplace(key, hid);
     if (!placed.second) {
diff --git a/src/helics/core/HandleManager.hpp b/src/helics/core/HandleManager.hpp
index 3cf350b..42fee0e 100644
--- a/src/helics/core/HandleManager.hpp
+++ b/src/helics/core/HandleManager.hpp
@@ -120,19 +120,13 @@ class HandleManager {
   private:
     void addSearchFields(const BasicHandleInfo& handle, int32_t index);
     std::string generateName(InterfaceType what) const;
-    // alias must be a stable string_view here
-    void addPublicationAlias(std::string_view interfaceName, std::string_view alias);
-    // alias must be a stable string_view here
-    void addInputAlias(std::string_view interfaceName, std::string_view alias);
-    // alias must be a stable string_view here
-    void addEndpointAlias(std::string_view interfaceName, std::string_view alias);
-    // alias must be a stable string_view here
-    void addFilterAlias(std::string_view interfaceName, std::string_view alias);
-    /// @brief actually add the alias names to the data structures
-    /// @param interfaceName the name of the interface to create an alias for
-    /// @param alias the new name used to refer to an interface
-    /// @return true if there are multiple interacting aliases
-    bool addAliasName(std::string_view interfaceName, std::string_view alias);
+    /// @brief make all the names refer to the interface that one of them refers to, if there is one
+    /// @param names a set of equivalent names, must be stable string_views
+    /// @param typeName the type of the interface for error messages
+    /// @param searchMap the map containing the interfaces
+    static void addAliasFields(const std::vector<std::string_view>& names,
+                               std::string_view typeName,
+                               MapType& searchMap);
     /** get the appropriate map based on type*/
     MapType& getMap(InterfaceType type);
     const MapType& getMap(InterfaceType type) const;
-- 
2.43.0


From 20cce014764f7b0ede5fbc727865e5d54eb01172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 54/90] fix: InputInfo reconnection kept stale type and units,
 target list not updated for added sources

---
 src/helics/core/InputInfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 3c7a6f5..3060e19 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -192,7 +192,9 @@ bool InputInfo::addSource(GlobalHandle newSource,
                 // this is a reconnection
                 deactivated[index] = Time::maxVal();
                 source_info[index].units = sunits;
-                source_info[index].type = sunits;
+                source_info[index].type = stype;
+                inputUnits.clear();
+                inputType.clear();
                 return true;
             }
             return false;
@@ -202,6 +204,7 @@ bool InputInfo::addSource(GlobalHandle newSource,
     // clear this since it isn't well defined what the units are once a new source is added
     inputUnits.clear();
     inputType.clear();
+    sourceTargets.clear();
     input_sources.push_back(newSource);
     source_info.emplace_back(sourceName, stype, sunits);
     data_queues.resize(input_sources.size());
-- 
2.43.0


From 552a264c241c92f0c903a147abf33c0a8313974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 55/90] fix: multi-input and/or operations treat vectors,
 complex values and -0.0 by their truth value

---
 src/helics/application_api/helicsPrimaryTypes.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/application_api/helicsPrimaryTypes.cpp b/src/helics/application_api/helicsPrimaryTypes.cpp
index 493defe..92f00b7 100644
--- a/src/helics/application_api/helicsPrimaryTypes.cpp
+++ b/src/helics/application_api/helicsPrimaryTypes.cpp
@@ -1182,6 +1182,12 @@ void valueConvert(defV& val, DataType newType)
             val = value.getBaseTimeCode();
             break;
         }
+        case DataType::HELICS_BOOL: {
+            bool value{false};
+            valueExtract(val, value);
+            val = std::string(value ? "1" : "0");
+            break;
+        }
         case DataType::HELICS_JSON:
             break;
         case DataType::HELICS_STRING:
-- 
2.43.0


From a37c9678605b9ef7f3118e4c17b1578204dd5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 56/90] fix: coreTypeFromString read the first character of an
 empty string for '_'

---
 src/helics/core/coreTypeOperations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/coreTypeOperations.cpp b/src/helics/core/coreTypeOperations.cpp
index 7c1b1d1..ae8628e 100644
--- a/src/helics/core/coreTypeOperations.cpp
+++ b/src/helics/core/coreTypeOperations.cpp
@@ -152,7 +152,7 @@ CoreType coreTypeFromString(std::string_view type) noexcept
     if (fnd != coreTypes.end()) {
         return fnd->second;
     }
-    if ((type2.front() == '=') || (type2.front() == '-')) {
+    if (!type2.empty() && ((type2.front() == '=') || (type2.front() == '-'))) {
         return coreTypeFromString(type2.substr(1));
     }
     if (type.compare(0, 5, "zmqss") == 0) {
-- 
2.43.0


From 5d1fa5547e4bb47b85cbbc9e71a18a82df04e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 57/90] fix: vectorize operation on an input with no data yet
 read the first element of an empty vector

---
 src/helics/application_api/Inputs.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/helics/application_api/Inputs.cpp b/src/helics/application_api/Inputs.cpp
index ee2b46a..4c767eb 100644
--- a/src/helics/application_api/Inputs.cpp
+++ b/src/helics/application_api/Inputs.cpp
@@ -267,11 +267,11 @@ static defV diffOperation(const std::vector<defV>& vals)
 
 static defV vectorizeOperation(const std::vector<defV>& vals)
 {
+    if (vals.empty()) {
+        return std::vector<double>();
+    }
     switch (vals.front().index()) {
         case vector_loc: {
-            if (vals.empty()) {
-                return std::vector<double>();
-            }
             std::vector<double> res;
             for (const auto& val : vals) {
                 const auto& v = std::get<std::vector<double>>(val);
@@ -280,9 +280,6 @@ static defV vectorizeOperation(const std::vector<defV>& vals)
             return res;
         }
         case string_loc: {
-            if (vals.empty()) {
-                return std::string{};
-            }
             nlohmann::json svect = nlohmann::json::array();
             for (const auto& val : vals) {
                 svect.push_back(std::get<std::string>(val));
@@ -291,9 +288,6 @@ static defV vectorizeOperation(const std::vector<defV>& vals)
             return fileops::generateJsonString(svect);
         }
         case complex_vector_loc: {
-            if (vals.empty()) {
-                return std::vector<std::complex<double>>();
-            }
             std::vector<std::complex<double>> res;
             for (const auto& val : vals) {
                 const auto& v = std::get<std::vector<std::complex<double>>>(val);
-- 
2.43.0


From 92da3a707f9f225f3bc27003e8098239eac9b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 58/90] fix: a destination filter that drops a message used a
 null message, a rerouted message went to the endpoint it was rerouted from

---
 src/helics/core/FilterFederate.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 44783b9..ce2ee9d 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -437,11 +437,17 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                     auto tempMessage = createMessageFromCommand(std::move(command));
                     auto odest = tempMessage->dest;
                     auto nmessage = ffunc->destFilter->filterOp->process(std::move(tempMessage));
+                    if (!nmessage) {
+                        // the filter dropped the message
+                        return false;
+                    }
                     if (odest == nmessage->dest) {
                         command = std::move(nmessage);
                     } else {
                         // handle destination reroute filters
                         command = std::move(nmessage);
+                        command.dest_id = parent_broker_id;
+                        command.dest_handle = InterfaceHandle();
                         mDeliverMessage(command);
                         return false;
                     }
-- 
2.43.0


From f0d16205f56fa679477bd33dd8bd343f9fe1b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 59/90] fix: a filter without an operation stopped the core
 when a message arrived

---
 src/helics/core/FilterFederate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index ce2ee9d..2882293 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -332,6 +332,10 @@ std::pair<ActionMessage&, bool> FilterFederate::executeFilter(ActionMessage& com
 {
     mCoord.triggered = true;
     if (filt->core_id == mFedID) {
+        if (!filt->filterOp) {
+            // no operation was given to the filter, the message passes as it is
+            return {command, true};
+        }
         if (filt->cloning) {
             // cloning filter returns a vector
             auto new_messages = filt->filterOp->processVector(createMessageFromCommand(command));
-- 
2.43.0


From 381c6b4ef6baf6bd40b3cdbbc4f296b4ee4fe262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 60/90] fix: blocks of time for messages being filtered were
 not released when they returned in another order, or while other messages
 were

---
 src/helics/core/FilterFederate.cpp  | 16 ++++++++++------
 src/helics/core/TimeCoordinator.cpp | 11 +++++++++++
 src/helics/core/TimeCoordinator.hpp |  2 ++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index 2882293..bc37f72 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -16,6 +16,7 @@ SPDX-License-Identifier: BSD-3-Clause
 #include "helics_definitions.hpp"
 #include "queryHelpers.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 #include <string>
@@ -420,7 +421,7 @@ bool FilterFederate::destinationProcessMessage(ActionMessage& command,
                                                              // processing destination filter
                     // first block the federate time advancement until the return is
                     // received
-                    auto mid = ++messageCounter;
+                    auto mid = messageCounter++;
                     auto fed_id = handle->getFederateId();
                     generateDestProcessMarker(handle->getFederateId(), mid, command.actionTime);
 
@@ -524,12 +525,15 @@ void FilterFederate::clearTimeReturn(int32_t id)
         return;
     }
     bool recheckTime = false;
-    if (timeBlockProcesses.front().first == id) {
-        if (timeBlockProcesses.front().second == minReturnTime) {
+    // the processes may return in a different order than they were started
+    auto process = std::find_if(timeBlockProcesses.begin(),
+                                timeBlockProcesses.end(),
+                                [id](const auto& block) { return block.first == id; });
+    if (process != timeBlockProcesses.end()) {
+        if (process->second == minReturnTime) {
             recheckTime = true;
         }
-        timeBlockProcesses.pop_front();
-    } else {
+        timeBlockProcesses.erase(process);
     }
     if (recheckTime) {
         minReturnTime = cBigTime;
@@ -538,7 +542,7 @@ void FilterFederate::clearTimeReturn(int32_t id)
                 minReturnTime = tBP.second;
             }
         }
-        mCoord.updateMessageTime(minReturnTime, current_state == FederateStates::EXECUTING);
+        mCoord.resetMessageTime(minReturnTime, current_state == FederateStates::EXECUTING);
     }
 }
 
diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 863cd8c..4417aed 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -556,6 +556,17 @@ void TimeCoordinator::updateMessageTime(Time messageUpdateTime, bool allowReques
     }
 }
 
+void TimeCoordinator::resetMessageTime(Time messageUpdateTime, bool allowRequestSend)
+{
+    if (!executionMode) {
+        return;
+    }
+    time_message = std::max(messageUpdateTime, getNextPossibleTime());
+    if (!disconnected && updateNextExecutionTime() && allowRequestSend) {
+        sendTimeRequest(GlobalFederateId{});
+    }
+}
+
 bool TimeCoordinator::updateTimeFactors()
 {
     total = generateMinTimeTotal(dependencies,
diff --git a/src/helics/core/TimeCoordinator.hpp b/src/helics/core/TimeCoordinator.hpp
index 2828d79..52e7e9b 100644
--- a/src/helics/core/TimeCoordinator.hpp
+++ b/src/helics/core/TimeCoordinator.hpp
@@ -154,6 +154,8 @@ class TimeCoordinator: public BaseTimeCoordinator {
     if allowed it will send an updated time request message
      */
     void updateMessageTime(Time messageUpdateTime, bool allowRequestSend);
+    /** set the message time to a possibly later time since an earlier event will not occur anymore*/
+    void resetMessageTime(Time messageUpdateTime, bool allowRequestSend);
 
     void specifyNonGranting(bool value = true) { nonGranting = value; }
 
-- 
2.43.0


From a2481311c53c40cf48a4a4bb2448948e74743ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 61/90] fix: a closed filter shifted the index of the filters
 behind it, and the filters at a destination were not told it had closed

---
 src/helics/core/FilterFederate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index bc37f72..c18b3e4 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -385,6 +385,7 @@ ActionMessage& FilterFederate::processMessage(ActionMessage& command, const Basi
         size_t ii = 0;
         for (auto& filt : filtFunc->sourceFilters) {
             if (checkActionFlag(*filt, disconnected_flag)) {
+                ++ii;
                 continue;
             }
             auto press = executeFilter(command, filt);
@@ -618,7 +619,7 @@ void FilterFederate::handleMessage(ActionMessage& command)
                     mSendMessage(rem);
                 }
                 for (auto& target : filt->destTargets) {
-                    if (std::find(filt->sourceTargets.begin(), filt->sourceTargets.end(), target) !=
+                    if (std::find(filt->sourceTargets.begin(), filt->sourceTargets.end(), target) ==
                         filt->sourceTargets.end()) {
                         rem.setDestination(target);
                         mSendMessage(rem);
-- 
2.43.0


From 1bdf56dde5f9fb9b3e3e41776d11a5b2ef3345aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 62/90] fix: a cloning filter at a destination refused every
 other destination filter

---
 src/helics/core/FilterFederate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index c18b3e4..eb555d0 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -807,7 +807,7 @@ void FilterFederate::processFilterInfo(ActionMessage& command)
                 mHandles->getInterfaceHandle(command.dest_handle, InterfaceType::ENDPOINT);
             if (endhandle != nullptr) {
                 setActionFlag(*endhandle, has_dest_filter_flag);
-                if ((!checkActionFlag(command, clone_flag)) && (filterC->hasDestFilters)) {
+                if ((!checkActionFlag(command, clone_flag)) && (filterC->destFilter != nullptr)) {
                     // duplicate non cloning destination filters are not allowed
                     ActionMessage err(CMD_ERROR);
                     err.dest_id = command.source_id;
-- 
2.43.0


From 5e318651fb25aeef65729a1cd30bd86a26b6ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 63/90] fix: a message lost where it came from in a local
 filter and could not return from a filter of another core

---
 src/helics/core/FilterFederate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index eb555d0..b25a989 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -348,10 +348,13 @@ std::pair<ActionMessage&, bool> FilterFederate::executeFilter(ActionMessage& com
             }
         } else {
             // deal with local source filters
+            auto source = command.getSource();
             auto tempMessage = createMessageFromCommand(std::move(command));
             tempMessage = filt->filterOp->process(std::move(tempMessage));
             if (tempMessage) {
                 command = ActionMessage(std::move(tempMessage));
+                // a later filter on another core needs to know where to return the message
+                command.setSource(source);
             } else {
                 // the filter dropped the message;
                 command = CMD_IGNORE;
-- 
2.43.0


From d58d628382d99374e0ff275248519c59ec374d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 64/90] fix: a message returned from a filter of another core
 could be delivered to its sender

---
 src/helics/core/FilterFederate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/FilterFederate.cpp b/src/helics/core/FilterFederate.cpp
index b25a989..2b568bc 100644
--- a/src/helics/core/FilterFederate.cpp
+++ b/src/helics/core/FilterFederate.cpp
@@ -263,6 +263,9 @@ void FilterFederate::processFilterReturn(ActionMessage& cmd)
         }
         auto* filtFunc = getFilterCoordinator(handle->getInterfaceHandle());
         cmd.setAction(CMD_SEND_MESSAGE);
+        // the message came back to the source endpoint, from here it goes to its destination
+        cmd.dest_id = parent_broker_id;
+        cmd.dest_handle = InterfaceHandle();
         bool needToSendMessage{true};
         for (auto ii = static_cast<size_t>(cmd.counter) + 1; ii < filtFunc->sourceFilters.size();
              ++ii) {
-- 
2.43.0


From 8fd0aa41b2cf44f9eb810b3ee716780ef57ced00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 65/90] fix: removing an endpoint that is not the first from a
 filter never ended

---
 src/helics/core/FilterInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/FilterInfo.cpp b/src/helics/core/FilterInfo.cpp
index 746c50e..30f0b62 100644
--- a/src/helics/core/FilterInfo.cpp
+++ b/src/helics/core/FilterInfo.cpp
@@ -68,11 +68,12 @@ void FilterInfo::removeTarget(GlobalHandle targetId)
             sourceEpts.clear();
             break;
         }
+        ++si;
     }
     auto di = destEndpoints.begin();
     while (di != destEndpoints.end()) {
         if (di->id == targetId) {
-            destEndpoints.erase(si);
+            destEndpoints.erase(di);
             destTargets.clear();
             for (const auto& dim : destEndpoints) {
                 destTargets.emplace_back(dim.id);
@@ -80,6 +81,7 @@ void FilterInfo::removeTarget(GlobalHandle targetId)
             destEpts.clear();
             break;
         }
+        ++di;
     }
 }
 
-- 
2.43.0


From 2b69713d826b30805eb7aded8c5e962bc52c1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 66/90] fix: helicsMessageClear forgot the place of a message,
 freeing or sending it freed another one

---
 src/helics/shared_api_library/MessageFederateExport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/shared_api_library/MessageFederateExport.cpp b/src/helics/shared_api_library/MessageFederateExport.cpp
index ef28e88..320d345 100644
--- a/src/helics/shared_api_library/MessageFederateExport.cpp
+++ b/src/helics/shared_api_library/MessageFederateExport.cpp
@@ -1202,7 +1202,10 @@ void helicsMessageClear(HelicsMessage message, HelicsError* err)
     if (mess == nullptr) {
         return;
     }
+    // the place of the message in its holder is not part of the content
+    const auto index = mess->counter;
     mess->clear();
+    mess->counter = index;
 }
 
 void helicsMessageCopy(HelicsMessage source_message, HelicsMessage dest_message, HelicsError* err)
-- 
2.43.0


From c51e9faa46af791510809fd8aa83415daf4ba32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 67/90] fix: negative sizes and missing data given to the
 messages of the C interface read out of bounds or allocated without limit

---
 .../MessageFederateExport.cpp                 | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/helics/shared_api_library/MessageFederateExport.cpp b/src/helics/shared_api_library/MessageFederateExport.cpp
index 320d345..3b1441e 100644
--- a/src/helics/shared_api_library/MessageFederateExport.cpp
+++ b/src/helics/shared_api_library/MessageFederateExport.cpp
@@ -1096,6 +1096,11 @@ void helicsMessageResize(HelicsMessage message, int newSize, HelicsError* err)
     if (mess == nullptr) {
         return;
     }
+    static constexpr char invalidSize[] = "the size of a message cannot be negative";
+    if (newSize < 0) {
+        assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidSize);
+        return;
+    }
     try {
         mess->data.resize(newSize);
     }
@@ -1110,6 +1115,11 @@ void helicsMessageReserve(HelicsMessage message, int reservedSize, HelicsError*
     if (mess == nullptr) {
         return;
     }
+    static constexpr char invalidSize[] = "the size of a message cannot be negative";
+    if (reservedSize < 0) {
+        assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidSize);
+        return;
+    }
     try {
         mess->data.reserve(reservedSize);
     }
@@ -1164,12 +1174,25 @@ void helicsMessageSetString(HelicsMessage message, const char* str, HelicsError*
     mess->data.null_terminate();
 }
 
+static bool checkDataLength(const void* data, int length, HelicsError* err)
+{
+    static constexpr char invalidDataLength[] = "the length of the data is not valid";
+    if (length < 0 || (data == nullptr && length > 0)) {
+        assignError(err, HELICS_ERROR_INVALID_ARGUMENT, invalidDataLength);
+        return false;
+    }
+    return true;
+}
+
 void helicsMessageSetData(HelicsMessage message, const void* data, int inputDataLength, HelicsError* err)
 {
     auto* mess = getMessageObj(message, err);
     if (mess == nullptr) {
         return;
     }
+    if (!checkDataLength(data, inputDataLength, err)) {
+        return;
+    }
     mess->data = std::string_view(static_cast<const char*>(data), inputDataLength);
 }
 
@@ -1193,6 +1216,9 @@ void helicsMessageAppendData(HelicsMessage message, const void* data, int inputD
     if (mess == nullptr) {
         return;
     }
+    if (!checkDataLength(data, inputDataLength, err)) {
+        return;
+    }
     mess->data.append(std::string_view{static_cast<const char*>(data), static_cast<std::size_t>(inputDataLength)});
 }
 
-- 
2.43.0


From 53a37c7ffa3bfe514eeee42a5693a4538cd070a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 68/90] fix: negative sizes and missing data given to the data
 buffers of the C interface ended in crashes

---
 src/helics/application_api/ValueConverter.cpp |  4 +++-
 src/helics/shared_api_library/helicsData.cpp  | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/helics/application_api/ValueConverter.cpp b/src/helics/application_api/ValueConverter.cpp
index 285c471..dd41868 100644
--- a/src/helics/application_api/ValueConverter.cpp
+++ b/src/helics/application_api/ValueConverter.cpp
@@ -165,7 +165,9 @@ size_t convertToBinary(std::byte* data, const std::vector<std::complex<double>>&
 size_t convertToBinary(std::byte* data, const std::complex<double>* val, size_t size)
 {
     addCodeAndSize(data, cvCode, size);
-    std::memcpy(data + 8, val, size * sizeof(double) * 2);
+    if (size > 0) {
+        std::memcpy(data + 8, val, size * sizeof(double) * 2);
+    }
     return size * sizeof(double) * 2U + 8U;
 }
 
diff --git a/src/helics/shared_api_library/helicsData.cpp b/src/helics/shared_api_library/helicsData.cpp
index 01dbdb5..4000d35 100644
--- a/src/helics/shared_api_library/helicsData.cpp
+++ b/src/helics/shared_api_library/helicsData.cpp
@@ -28,7 +28,9 @@ HelicsDataBuffer helicsCreateDataBuffer(int32_t initialCapacity)
 {
     auto* ptr = new helics::SmallBuffer();
     ptr->userKey = gBufferValidationIdentifier;
-    ptr->reserve(initialCapacity);
+    if (initialCapacity > 0) {
+        ptr->reserve(initialCapacity);
+    }
     return static_cast<HelicsDataBuffer>(ptr);
 }
 
@@ -89,7 +91,7 @@ void* helicsDataBufferData(HelicsDataBuffer data)
 HelicsBool helicsDataBufferReserve(HelicsDataBuffer data, int32_t newCapacity)
 {
     auto* ptr = getBuffer(data);
-    if (ptr == nullptr) {
+    if (ptr == nullptr || newCapacity < 0) {
         return HELICS_FALSE;
     }
     try {
@@ -151,7 +153,7 @@ HELICS_EXPORT int32_t helicsDataBufferFillFromString(HelicsDataBuffer data, cons
         return 0;
     }
     try {
-        helics::ValueConverter<std::string_view>::convert(std::string_view(str), *ptr);
+        helics::ValueConverter<std::string_view>::convert(AS_STRING_VIEW(str), *ptr);
         return static_cast<int32_t>(ptr->size());
     }
     catch (const std::bad_alloc&) {
@@ -166,6 +168,9 @@ HELICS_EXPORT int32_t helicsDataBufferFillFromRawString(HelicsDataBuffer data, c
     if (ptr == nullptr) {
         return 0;
     }
+    if (stringSize < 0 || (str == nullptr && stringSize > 0)) {
+        return 0;
+    }
     try {
         helics::ValueConverter<std::string_view>::convert(std::string_view(str, stringSize), *ptr);
         return static_cast<int32_t>(ptr->size());
@@ -264,6 +269,9 @@ int32_t helicsDataBufferFillFromVector(HelicsDataBuffer data, const double* valu
     if (ptr == nullptr) {
         return 0;
     }
+    if (dataSize < 0 || (value == nullptr && dataSize > 0)) {
+        return 0;
+    }
     try {
         helics::ValueConverter<double>::convert(value, dataSize, *ptr);
         return static_cast<int32_t>(ptr->size());
@@ -285,6 +293,9 @@ int32_t helicsDataBufferFillFromComplexVector(HelicsDataBuffer data, const doubl
     if (ptr == nullptr) {
         return 0;
     }
+    if (dataSize < 0 || (value == nullptr && dataSize > 0)) {
+        return 0;
+    }
     try {
         helics::ValueConverter<std::complex<double>>::convert(reinterpret_cast<const std::complex<double>*>(value), dataSize, *ptr);
         return static_cast<int32_t>(ptr->size());
-- 
2.43.0


From 26753ed236d19e0f5e7e826b4ecbabd77a4cc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:18 +0000
Subject: [PATCH 69/90] fix: reading data buffers with cut or custom data ended
 in exceptions or out of bounds, their sizes did not match what is read

---
 src/helics/shared_api_library/helicsData.cpp | 78 ++++++++++++--------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/src/helics/shared_api_library/helicsData.cpp b/src/helics/shared_api_library/helicsData.cpp
index 4000d35..4d74035 100644
--- a/src/helics/shared_api_library/helicsData.cpp
+++ b/src/helics/shared_api_library/helicsData.cpp
@@ -56,6 +56,24 @@ helics::SmallBuffer* getBuffer(HelicsDataBuffer data)
     return nullptr;
 }
 
+/** get the type of the data in a buffer, an empty buffer has none*/
+static helics::DataType getBufferType(const helics::SmallBuffer& buff)
+{
+    return buff.empty() ? helics::DataType::HELICS_UNKNOWN : helics::detail::detectType(buff.data());
+}
+
+/** get the value in a buffer, data that cannot be read is the invalid value*/
+template<class X>
+static void extractValue(const helics::SmallBuffer& buff, X& val)
+{
+    try {
+        helics::valueExtract(helics::data_view(buff), getBufferType(buff), val);
+    }
+    catch (const std::exception&) {
+        val = helics::invalidValue<X>();
+    }
+}
+
 void helicsDataBufferFree(HelicsDataBuffer data)
 {
     auto* ptr = reinterpret_cast<helics::SmallBuffer*>(data);
@@ -315,7 +333,7 @@ int helicsDataBufferType(HelicsDataBuffer data)
     if (ptr == nullptr) {
         return HELICS_DATA_TYPE_UNKNOWN;
     }
-    return static_cast<int>(helics::detail::detectType(ptr->data()));
+    return static_cast<int>(getBufferType(*ptr));
 }
 
 int64_t helicsDataBufferToInteger(HelicsDataBuffer data)
@@ -325,7 +343,7 @@ int64_t helicsDataBufferToInteger(HelicsDataBuffer data)
         return helics::invalidValue<int64_t>();
     }
     int64_t val;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), val);
+    extractValue(*ptr, val);
     return val;
 }
 
@@ -336,7 +354,7 @@ double helicsDataBufferToDouble(HelicsDataBuffer data)
         return helics::invalidValue<double>();
     }
     double val;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), val);
+    extractValue(*ptr, val);
     return val;
 }
 
@@ -347,7 +365,7 @@ HelicsBool helicsDataBufferToBoolean(HelicsDataBuffer data)
         return HELICS_FALSE;
     }
     bool val;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), val);
+    extractValue(*ptr, val);
     return (val) ? HELICS_TRUE : HELICS_FALSE;
 }
 
@@ -358,7 +376,7 @@ char helicsDataBufferToChar(HelicsDataBuffer data)
         return HELICS_FALSE;
     }
     char val;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), val);
+    extractValue(*ptr, val);
     return val;
 }
 
@@ -369,7 +387,7 @@ HelicsTime helicsDataBufferToTime(HelicsDataBuffer data)
         return HELICS_TIME_INVALID;
     }
     helics::Time val;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), val);
+    extractValue(*ptr, val);
     return static_cast<HelicsTime>(val);
 }
 
@@ -379,7 +397,7 @@ HelicsComplex helicsDataBufferToComplexObject(HelicsDataBuffer data)
     HelicsComplex val{HELICS_TIME_INVALID, HELICS_TIME_INVALID};
     if (ptr != nullptr) {
         std::complex<double> v;
-        helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+        extractValue(*ptr, v);
         val.real = v.real();
         val.imag = v.imag();
     }
@@ -391,7 +409,7 @@ void helicsDataBufferToComplex(HelicsDataBuffer data, double* real, double* imag
     auto* ptr = getBuffer(data);
     if (ptr != nullptr) {
         std::complex<double> v;
-        helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+        extractValue(*ptr, v);
         if (real != nullptr) {
             *real = v.real();
         }
@@ -414,16 +432,14 @@ int helicsDataBufferStringSize(HelicsDataBuffer data)
     if (ptr == nullptr) {
         return 0;
     }
-    switch (helics::detail::detectType(ptr->data())) {
-        case helics::DataType::HELICS_STRING:
-            return static_cast<int>(helics::detail::getDataSize(ptr->data())) + 1;
+    switch (getBufferType(*ptr)) {
         case helics::DataType::HELICS_CHAR:
             return 1;
         case helics::DataType::HELICS_UNKNOWN:
             return static_cast<int>(ptr->size());
         default: {
             std::string v;
-            helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+            extractValue(*ptr, v);
             return static_cast<int>(v.size()) + 1;
         } break;
     }
@@ -445,7 +461,7 @@ void helicsDataBufferToRawString(HelicsDataBuffer data, char* outputString, int
         return;
     }
     std::string v;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+    extractValue(*ptr, v);
 
     auto length = (std::min)(static_cast<int>(v.size()), maxStringLen);
     // NOLINTNEXTLINE
@@ -472,7 +488,7 @@ void helicsDataBufferToString(HelicsDataBuffer data, char* outputString, int max
         return;
     }
     std::string v;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+    extractValue(*ptr, v);
 
     auto length = (std::min)(static_cast<int>(v.size()), maxStringLen);
     std::memcpy(outputString, v.data(), length);
@@ -493,19 +509,14 @@ int helicsDataBufferVectorSize(HelicsDataBuffer data)
     if (ptr == nullptr) {
         return 0;
     }
-    switch (helics::detail::detectType(ptr->data())) {
-        case helics::DataType::HELICS_VECTOR:
-        case helics::DataType::HELICS_COMPLEX_VECTOR:
-            return static_cast<int>(helics::detail::getDataSize(ptr->data()));
+    switch (getBufferType(*ptr)) {
         case helics::DataType::HELICS_BOOL:
         case helics::DataType::HELICS_INT:
         case helics::DataType::HELICS_DOUBLE:
             return 1;
-        case helics::DataType::HELICS_COMPLEX:
-            return 2;
         default: {
             std::vector<double> v;
-            helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+            extractValue(*ptr, v);
             return static_cast<int>(v.size());
         } break;
     }
@@ -528,10 +539,10 @@ void helicsDataBufferToVector(HelicsDataBuffer data, double values[], int maxlen
     }
 
     std::vector<double> v;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+    extractValue(*ptr, v);
 
     auto length = (std::min)(static_cast<int>(v.size()), maxlen);
-    std::memcpy(values, v.data(), length * sizeof(double));
+    std::copy_n(v.data(), length, values);
     if (actualSize != nullptr) {
         *actualSize = length;
     }
@@ -560,10 +571,10 @@ void helicsDataBufferToComplexVector(HelicsDataBuffer data, double values[], int
     }
 
     std::vector<std::complex<double>> v;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+    extractValue(*ptr, v);
 
     auto length = (std::min)(static_cast<int>(v.size()), maxlen);
-    std::memcpy(values, reinterpret_cast<const double*>(v.data()), length * sizeof(double) * 2);
+    std::copy_n(reinterpret_cast<const double*>(v.data()), static_cast<size_t>(length) * 2, values);
 
     if (actualSize != nullptr) {
         *actualSize = length;
@@ -585,7 +596,7 @@ void helicsDataBufferToNamedPoint(HelicsDataBuffer data, char* outputString, int
     }
 
     helics::NamedPoint v;
-    helics::valueExtract(helics::data_view(*ptr), helics::detail::detectType(ptr->data()), v);
+    extractValue(*ptr, v);
 
     if (outputString != nullptr && maxStringLength > 0) {
         auto length = (std::min)(static_cast<int>(v.name.size()), maxStringLength);
@@ -612,12 +623,17 @@ HelicsBool helicsDataBufferConvertToType(HelicsDataBuffer data, int newDataType)
     if (ptr == nullptr) {
         return HELICS_FALSE;
     }
-    auto type = helics::detail::detectType(ptr->data());
+    auto type = getBufferType(*ptr);
     if (static_cast<int>(type) == newDataType) {
         return HELICS_TRUE;
     }
-    helics::defV oVal;
-    helics::valueExtract(*ptr, helics::DataType::HELICS_ANY, oVal);
-    *ptr = helics::typeConvertDefV(static_cast<helics::DataType>(newDataType), oVal);
-    return HELICS_TRUE;
+    try {
+        helics::defV oVal;
+        helics::valueExtract(*ptr, helics::DataType::HELICS_ANY, oVal);
+        *ptr = helics::typeConvertDefV(static_cast<helics::DataType>(newDataType), oVal);
+        return HELICS_TRUE;
+    }
+    catch (const std::exception&) {
+        return HELICS_FALSE;
+    }
 }
-- 
2.43.0


From e3a955aab08ec30ead645207dc9193d953a38f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 70/90] fix: iterative asynchronous initialization of a single
 thread federate used a null pointer

---
 src/helics/application_api/Federate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 4a8c80a..dbcc4af 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -427,6 +427,10 @@ void Federate::enterInitializingModeIterative()
 
 void Federate::enterInitializingModeIterativeAsync()
 {
+    if (singleThreadFederate) {
+        throw(InvalidFunctionCall(
+            "Async function calls and methods are not allowed for single thread federates"));
+    }
     auto cmode = currentMode.load();
     if (cmode == Modes::STARTUP) {
         auto asyncInfo = asyncCallInfo->lock();
-- 
2.43.0


From af0647b7581366f0214acc19a57003b514604c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 71/90] fix: finalizing or completing during an asynchronous
 iterative initialization threw or did nothing

---
 src/helics/application_api/Federate.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index dbcc4af..41378c0 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -789,6 +789,9 @@ void Federate::finalize()
                 throw;
             }
         } break;
+        case Modes::PENDING_ITERATIVE_INIT:
+            asyncCallInfo->lock()->initIterativeFuture.get();
+            break;
         case Modes::PENDING_EXEC:
             asyncCallInfo->lock()->execFuture.get();
             break;
@@ -825,6 +828,9 @@ void Federate::finalizeAsync()
         case Modes::PENDING_INIT:
             enterInitializingModeComplete();
             break;
+        case Modes::PENDING_ITERATIVE_INIT:
+            enterInitializingModeIterativeComplete();
+            break;
         case Modes::PENDING_EXEC:
             enterExecutingModeComplete();
             break;
@@ -893,6 +899,9 @@ void Federate::completeOperation()
         case Modes::PENDING_INIT:
             enterInitializingModeComplete();
             break;
+        case Modes::PENDING_ITERATIVE_INIT:
+            enterInitializingModeIterativeComplete();
+            break;
         case Modes::PENDING_EXEC:
             enterExecutingModeComplete();
             break;
@@ -1147,6 +1156,9 @@ void Federate::updateFederateMode(Modes newMode)
     if (modeUpdateCallback) {
         switch (oldMode) {
             case Modes::PENDING_ITERATIVE_INIT:
+                if (newMode != Modes::STARTUP) {
+                    modeUpdateCallback(newMode, Modes::STARTUP);
+                }
                 break;
             case Modes::PENDING_INIT:
                 modeUpdateCallback(newMode, Modes::STARTUP);
-- 
2.43.0


From adc5df083a3afe162823f0852b8136d34d90e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 72/90] fix: a callback at the end of an asynchronous operation
 that asks for its state deadlocked

---
 src/helics/application_api/Federate.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 41378c0..24ab605 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -321,22 +321,25 @@ bool Federate::isAsyncOperationCompleted() const
         return false;
     }
     constexpr std::chrono::seconds wait_delay{0};
-    auto ready = std::future_status::ready;
+    // the result might be just in the process of being collected
+    auto isReady = [&](const auto& future) {
+        return future.valid() && future.wait_for(wait_delay) == std::future_status::ready;
+    };
 
     auto asyncInfo = asyncCallInfo->lock_shared();
     switch (currentMode.load()) {
         case Modes::PENDING_INIT:
-            return (asyncInfo->initFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->initFuture);
         case Modes::PENDING_EXEC:
-            return (asyncInfo->execFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->execFuture);
         case Modes::PENDING_TIME:
-            return (asyncInfo->timeRequestFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->timeRequestFuture);
         case Modes::PENDING_ITERATIVE_TIME:
-            return (asyncInfo->timeRequestIterativeFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->timeRequestIterativeFuture);
         case Modes::PENDING_FINALIZE:
-            return (asyncInfo->finalizeFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->finalizeFuture);
         case Modes::PENDING_ITERATIVE_INIT:
-            return (asyncInfo->initIterativeFuture.wait_for(wait_delay) == ready);
+            return isReady(asyncInfo->initIterativeFuture);
         default:
             return (asyncInfo->asyncCheck) ? asyncInfo->asyncCheck() : false;
     }
@@ -352,7 +355,9 @@ void Federate::enterInitializingModeComplete()
         case Modes::PENDING_INIT: {
             auto asyncInfo = asyncCallInfo->lock();
             try {
-                if (asyncInfo->initFuture.get()) {
+                const bool entered = asyncInfo->initFuture.get();
+                asyncInfo.unlock();  // the callbacks might ask for the state of the operation
+                if (entered) {
                     enteringInitializingMode(IterationResult::NEXT_STEP);
                 }
             }
@@ -455,6 +460,7 @@ void Federate::enterInitializingModeIterativeComplete()
             auto asyncInfo = asyncCallInfo->lock();
             try {
                 asyncInfo->initIterativeFuture.get();
+                asyncInfo.unlock();
                 updateFederateMode(Modes::STARTUP);
             }
             catch (const std::exception&) {
@@ -602,6 +608,7 @@ IterationResult Federate::enterExecutingModeComplete()
             auto asyncInfo = asyncCallInfo->lock();
             try {
                 auto res = asyncInfo->execFuture.get();
+                asyncInfo.unlock();
                 enteringExecutingMode(res);
                 return res.state;
             }
@@ -864,6 +871,7 @@ void Federate::finalizeComplete()
     if (currentMode == Modes::PENDING_FINALIZE) {
         auto asyncInfo = asyncCallInfo->lock();
         asyncInfo->finalizeFuture.get();
+        asyncInfo.unlock();
         finalizeOperations();
     } else {
         finalize();
@@ -1085,6 +1093,7 @@ iteration_time Federate::requestTimeIterativeComplete()
     if (currentMode.compare_exchange_strong(exp, Modes::EXECUTING)) {
         auto asyncInfo = asyncCallInfo->lock();
         auto iterativeTime = asyncInfo->timeRequestIterativeFuture.get();
+        asyncInfo.unlock();
         switch (iterativeTime.state) {
             case IterationResult::NEXT_STEP:
                 postTimeRequestOperations(iterativeTime.grantedTime, false);
-- 
2.43.0


From b66cc5b2c61cc3e3d6ed589c087faa4662d43a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 73/90] fix: an iterative time request was granted closer than
 the minimum time delta

---
 src/helics/core/TimeCoordinator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/TimeCoordinator.cpp b/src/helics/core/TimeCoordinator.cpp
index 4417aed..1313dba 100644
--- a/src/helics/core/TimeCoordinator.cpp
+++ b/src/helics/core/TimeCoordinator.cpp
@@ -296,7 +296,10 @@ bool TimeCoordinator::updateNextExecutionTime()
         }
         if (time_granted < cTerminationTime) {
             if (time_exec > time_granted) {
-                time_exec = generateAllowedTime(time_exec);
+                // an iterative request which moves on keeps the minimum distance as well
+                time_exec = generateAllowedTime((iterating == IterationRequest::NO_ITERATIONS) ?
+                                                    time_exec :
+                                                    std::max(time_exec, getNextPossibleTime()));
             }
         } else {
             time_exec = generateAllowedTime(time_exec);
-- 
2.43.0


From 522f5e95b0cb25b697d1767aea1794d1a2582a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 74/90] fix: finalizing a federate with a grant timeout before
 execution used a null pointer

---
 src/helics/core/FederateState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helics/core/FederateState.cpp b/src/helics/core/FederateState.cpp
index fded95a..26850b3 100644
--- a/src/helics/core/FederateState.cpp
+++ b/src/helics/core/FederateState.cpp
@@ -994,6 +994,11 @@ void FederateState::finalize()
         grantCheck.setExtraData(static_cast<std::int32_t>(mGrantCount));
         grantCheck.counter = 0;
         grantCheck.actionTime = Time::maxVal();
+        if (!mTimer) {
+            // finalizing before the execution started
+            mTimer = std::make_shared<MessageTimer>(
+                [this](ActionMessage&& mess) { addAction(std::move(mess)); });
+        }
         if (grantTimeoutTimeIndex < 0) {
             grantTimeoutTimeIndex =
                 mTimer->addTimerFromNow(grantTimeOutPeriod.to_ms(), std::move(grantCheck));
-- 
2.43.0


From 5bf46e50865206681aa4979a6540f6a4d20a6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 75/90] fix: integer properties were cut to 16 bits

---
 src/helics/application_api/Federate.cpp | 2 +-
 src/helics/core/CommonCore.cpp          | 8 ++++----
 src/helics/core/CommonCore.hpp          | 4 ++--
 src/helics/core/Core.hpp                | 4 ++--
 src/helics/core/EmptyCore.cpp           | 4 ++--
 src/helics/core/EmptyCore.hpp           | 4 ++--
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 24ab605..39515e9 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -661,7 +661,7 @@ void Federate::setProperty(int32_t option, Time timeValue)
 
 void Federate::setProperty(int32_t option, int32_t optionValue)
 {
-    coreObject->setIntegerProperty(fedID, option, static_cast<int16_t>(optionValue));
+    coreObject->setIntegerProperty(fedID, option, optionValue);
 }
 
 Time Federate::getTimeProperty(int32_t option) const
diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 2c7f2d7..bc974ce 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -873,7 +873,7 @@ LocalFederateId CommonCore::registerFederate(std::string_view name, const CoreFe
                 case defs::Properties::LOG_LEVEL:
                 case defs::Properties::FILE_LOG_LEVEL:
                 case defs::Properties::CONSOLE_LOG_LEVEL:
-                    setIntegerProperty(gLocalCoreId, prop.first, static_cast<int16_t>(prop.second));
+                    setIntegerProperty(gLocalCoreId, prop.first, prop.second);
                     break;
                 default:
                     break;
@@ -1084,7 +1084,7 @@ Time CommonCore::getCurrentTime(LocalFederateId federateID) const
 
 void CommonCore::setIntegerProperty(LocalFederateId federateID,
                                     int32_t property,
-                                    int16_t propertyValue)
+                                    int32_t propertyValue)
 {
     if (federateID == gLocalCoreId) {
         if (!waitCoreRegistration()) {
@@ -1133,7 +1133,7 @@ Time CommonCore::getTimeProperty(LocalFederateId federateID, int32_t property) c
     return fed->getTimeProperty(property);
 }
 
-int16_t CommonCore::getIntegerProperty(LocalFederateId federateID, int32_t property) const
+int32_t CommonCore::getIntegerProperty(LocalFederateId federateID, int32_t property) const
 {
     if (federateID == gLocalCoreId) {
         if (property == HELICS_PROPERTY_INT_LOG_LEVEL ||
@@ -1144,7 +1144,7 @@ int16_t CommonCore::getIntegerProperty(LocalFederateId federateID, int32_t prope
             return mLogManager->getFileLevel();
         }
         if (property == HELICS_PROPERTY_INT_LOG_BUFFER) {
-            return static_cast<int16_t>(mLogManager->getLogBuffer().capacity());
+            return static_cast<int32_t>(mLogManager->getLogBuffer().capacity());
         }
         return 0;
     }
diff --git a/src/helics/core/CommonCore.hpp b/src/helics/core/CommonCore.hpp
index a290a08..99d98be 100644
--- a/src/helics/core/CommonCore.hpp
+++ b/src/helics/core/CommonCore.hpp
@@ -119,9 +119,9 @@ class CommonCore: public Core, public BrokerBase {
         setTimeProperty(LocalFederateId federateID, int32_t property, Time time) override final;
     virtual void setIntegerProperty(LocalFederateId federateID,
                                     int32_t property,
-                                    int16_t propertyValue) override final;
+                                    int32_t propertyValue) override final;
     virtual Time getTimeProperty(LocalFederateId federateID, int32_t property) const override final;
-    virtual int16_t getIntegerProperty(LocalFederateId federateID,
+    virtual int32_t getIntegerProperty(LocalFederateId federateID,
                                        int32_t property) const override final;
     virtual void setFlagOption(LocalFederateId federateID,
                                int32_t flag,
diff --git a/src/helics/core/Core.hpp b/src/helics/core/Core.hpp
index 654895a..6dbeed1 100644
--- a/src/helics/core/Core.hpp
+++ b/src/helics/core/Core.hpp
@@ -296,13 +296,13 @@ class Core {
     @param propValue the requested value of the property
     */
     virtual void
-        setIntegerProperty(LocalFederateId federateID, int32_t property, int16_t propValue) = 0;
+        setIntegerProperty(LocalFederateId federateID, int32_t property, int32_t propValue) = 0;
     /** get an integer property on a federate
     @param federateID the federate to set a time based property on
     @param property the property to set see /ref defs::properties
     @return the current value of the property
     */
-    virtual int16_t getIntegerProperty(LocalFederateId federateID, int32_t property) const = 0;
+    virtual int32_t getIntegerProperty(LocalFederateId federateID, int32_t property) const = 0;
     /** get the most recent granted Time
     @param federateID the identifier of the federate to get the time
     @return the most recent granted time or the startup time
diff --git a/src/helics/core/EmptyCore.cpp b/src/helics/core/EmptyCore.cpp
index 65daf9a..2792de1 100644
--- a/src/helics/core/EmptyCore.cpp
+++ b/src/helics/core/EmptyCore.cpp
@@ -159,7 +159,7 @@ Time EmptyCore::getCurrentTime(LocalFederateId /*federateID*/) const
 
 void EmptyCore::setIntegerProperty(LocalFederateId /*federateID*/,
                                    int32_t /*property*/,
-                                   int16_t /*propertyValue*/)
+                                   int32_t /*propertyValue*/)
 {
 }
 
@@ -172,7 +172,7 @@ Time EmptyCore::getTimeProperty(LocalFederateId /*federateID*/, int32_t /*proper
     return Time::minVal();
 }
 
-int16_t EmptyCore::getIntegerProperty(LocalFederateId /*federateID*/, int32_t /*property*/) const
+int32_t EmptyCore::getIntegerProperty(LocalFederateId /*federateID*/, int32_t /*property*/) const
 {
     return 0;
 }
diff --git a/src/helics/core/EmptyCore.hpp b/src/helics/core/EmptyCore.hpp
index 865f487..73926e5 100644
--- a/src/helics/core/EmptyCore.hpp
+++ b/src/helics/core/EmptyCore.hpp
@@ -58,9 +58,9 @@ class EmptyCore: public Core {
     virtual void setTimeProperty(LocalFederateId federateID, int32_t property, Time time) override;
     virtual void setIntegerProperty(LocalFederateId federateID,
                                     int32_t property,
-                                    int16_t propertyValue) override;
+                                    int32_t propertyValue) override;
     virtual Time getTimeProperty(LocalFederateId federateID, int32_t property) const override;
-    virtual int16_t getIntegerProperty(LocalFederateId federateID, int32_t property) const override;
+    virtual int32_t getIntegerProperty(LocalFederateId federateID, int32_t property) const override;
     virtual void
         setFlagOption(LocalFederateId federateID, int32_t flag, bool flagValue = true) override;
     virtual bool getFlagOption(LocalFederateId federateID, int32_t flag) const override;
-- 
2.43.0


From fd183e02e3bf270911778563ca8aa5063cd4c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 76/90] fix: allowing multiple connections of publications and
 endpoints required a single one

---
 src/helics/core/EndpointInfo.cpp    | 2 +-
 src/helics/core/PublicationInfo.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/EndpointInfo.cpp b/src/helics/core/EndpointInfo.cpp
index 33dd21e..6893a70 100644
--- a/src/helics/core/EndpointInfo.cpp
+++ b/src/helics/core/EndpointInfo.cpp
@@ -368,7 +368,7 @@ void EndpointInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::CONNECTIONS:
             requiredConnections = value;
diff --git a/src/helics/core/PublicationInfo.cpp b/src/helics/core/PublicationInfo.cpp
index 59958a0..1865399 100644
--- a/src/helics/core/PublicationInfo.cpp
+++ b/src/helics/core/PublicationInfo.cpp
@@ -86,7 +86,7 @@ void PublicationInfo::setProperty(int32_t option, int32_t value)
             requiredConnections = bvalue ? 1 : 0;
             break;
         case defs::Options::MULTIPLE_CONNECTIONS_ALLOWED:
-            requiredConnections = !bvalue ? 0 : 1;
+            requiredConnections = bvalue ? 0 : 1;
             break;
         case defs::Options::BUFFER_DATA:
             buffer_data = bvalue;
-- 
2.43.0


From b791e23aff4b89dac890e33d4b22db3bc1944d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 77/90] fix: the option to ignore unit mismatches of an input
 was not reported

---
 src/helics/core/InputInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helics/core/InputInfo.cpp b/src/helics/core/InputInfo.cpp
index 3060e19..7add838 100644
--- a/src/helics/core/InputInfo.cpp
+++ b/src/helics/core/InputInfo.cpp
@@ -576,6 +576,9 @@ int32_t InputInfo::getProperty(int32_t option) const
         case defs::Options::STRICT_TYPE_CHECKING:
             flagval = strict_type_matching;
             break;
+        case defs::Options::IGNORE_UNIT_MISMATCH:
+            flagval = ignore_unit_mismatch;
+            break;
         case defs::Options::CONNECTIONS:
             return static_cast<int32_t>(input_sources.size());
         case defs::Options::INPUT_PRIORITY_LOCATION:
-- 
2.43.0


From 924d0c075f2a795f6eb49a77b2c07fe09cfee82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 78/90] fix: setting a tag of a core again added a second entry

---
 src/helics/core/CommonCore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index bc974ce..6e3feeb 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -3703,13 +3703,17 @@ void CommonCore::processCommand(ActionMessage&& command)
             if (command.source_id == global_broker_id_local &&
                 command.dest_id == global_broker_id_local) {
                 const auto& keyTag = command.getString(0);
+                bool known{false};
                 for (auto& tag : tags) {
                     if (tag.first == keyTag) {
                         tag.second = command.getString(1);
+                        known = true;
                         break;
                     }
                 }
-                tags.emplace_back(keyTag, command.getString(1));
+                if (!known) {
+                    tags.emplace_back(keyTag, command.getString(1));
+                }
             }
             break;
         case CMD_CORE_CONFIGURE:
-- 
2.43.0


From ed708622a9301a29ab1ec8169181558755c3cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 79/90] fix: a tag of an interface set without a value lost its
 default value

---
 src/helics/core/CommonCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 6e3feeb..af1119f 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -5624,7 +5624,7 @@ void CommonCore::setInterfaceTag(helics::InterfaceHandle handle,
         ActionMessage tagcmd(CMD_INTERFACE_TAG);
         tagcmd.setSource(handleInfo->handle);
         tagcmd.setDestination(handleInfo->handle);
-        tagcmd.setStringData(tag, value);
+        tagcmd.setStringData(tag, valueStr);
         addActionMessage(std::move(tagcmd));
     }
 }
-- 
2.43.0


From 00250bb55cf7b0443e18e9f632d7f1034c718044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 80/90] fix: the stop time in the description of a federate was
 ignored, of repeated settings the first was checked

---
 src/helics/application_api/Federate.cpp     |  1 +
 src/helics/application_api/FederateInfo.cpp | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/helics/application_api/Federate.cpp b/src/helics/application_api/Federate.cpp
index 39515e9..8920d60 100644
--- a/src/helics/application_api/Federate.cpp
+++ b/src/helics/application_api/Federate.cpp
@@ -236,6 +236,7 @@ void Federate::registerFederate(const FederateInfo& fedInfo)
     useJsonSerialization = fedInfo.useJsonSerialization;
     observerMode = fedInfo.observer;
     configFile = fedInfo.configString;
+    mStopTime = fedInfo.checkTimeProperty(defs::Properties::STOPTIME, mStopTime);
     mCurrentTime = coreObject->getCurrentTime(fedID);
     if (!singleThreadFederate) {
         asyncCallInfo = std::make_unique<shared_guarded_m<AsyncFedCallInfo>>();
diff --git a/src/helics/application_api/FederateInfo.cpp b/src/helics/application_api/FederateInfo.cpp
index 065e10c..bfd0cdb 100644
--- a/src/helics/application_api/FederateInfo.cpp
+++ b/src/helics/application_api/FederateInfo.cpp
@@ -854,9 +854,10 @@ FederateInfo loadFederateInfo(const std::string& configString)
 
 Time FederateInfo::checkTimeProperty(int propId, Time defVal) const
 {
-    for (const auto& prop : timeProps) {
-        if (prop.first == propId) {
-            return prop.second;
+    // the last one given counts, as in the federate itself
+    for (auto prop = timeProps.rbegin(); prop != timeProps.rend(); ++prop) {
+        if (prop->first == propId) {
+            return prop->second;
         }
     }
     return defVal;
@@ -864,9 +865,10 @@ Time FederateInfo::checkTimeProperty(int propId, Time defVal) const
 
 bool FederateInfo::checkFlagProperty(int propId, bool defVal) const
 {
-    for (const auto& prop : flagProps) {
-        if (prop.first == propId) {
-            return prop.second;
+    // the last one given counts, as in the federate itself
+    for (auto prop = flagProps.rbegin(); prop != flagProps.rend(); ++prop) {
+        if (prop->first == propId) {
+            return prop->second;
         }
     }
     return defVal;
@@ -874,9 +876,10 @@ bool FederateInfo::checkFlagProperty(int propId, bool defVal) const
 
 int FederateInfo::checkIntProperty(int propId, int defVal) const
 {
-    for (const auto& prop : intProps) {
-        if (prop.first == propId) {
-            return prop.second;
+    // the last one given counts, as in the federate itself
+    for (auto prop = intProps.rbegin(); prop != intProps.rend(); ++prop) {
+        if (prop->first == propId) {
+            return prop->second;
         }
     }
     return defVal;
-- 
2.43.0


From c08352aa75127126ad224a0a8c091802a6771ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:12 +0000
Subject: [PATCH 81/90] fix: stopTime and grantTimeout were not read from
 configuration files

---
 src/helics/application_api/FederateInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helics/application_api/FederateInfo.cpp b/src/helics/application_api/FederateInfo.cpp
index bfd0cdb..691aef4 100644
--- a/src/helics/application_api/FederateInfo.cpp
+++ b/src/helics/application_api/FederateInfo.cpp
@@ -65,7 +65,7 @@ FederateInfo::FederateInfo(const std::string& args)
     loadInfoFromArgsIgnoreOutput(args);
 }
 
-static constexpr frozen::unordered_map<std::string_view, int, 78> propStringsTranslations{
+static constexpr frozen::unordered_map<std::string_view, int, 80> propStringsTranslations{
     {"period", HELICS_PROPERTY_TIME_PERIOD},
     {"timeperiod", HELICS_PROPERTY_TIME_PERIOD},
     {"time_period", HELICS_PROPERTY_TIME_PERIOD},
@@ -78,6 +78,7 @@ static constexpr frozen::unordered_map<std::string_view, int, 78> propStringsTra
     {"time_offset", HELICS_PROPERTY_TIME_OFFSET},
     {"stop_time", HELICS_PROPERTY_TIME_STOPTIME},
     {"stoptime", HELICS_PROPERTY_TIME_STOPTIME},
+    {"stopTime", HELICS_PROPERTY_TIME_STOPTIME},
     {"rtlead", HELICS_PROPERTY_TIME_RT_LEAD},
     {"rtlag", HELICS_PROPERTY_TIME_RT_LAG},
     {"rttolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
@@ -104,6 +105,7 @@ static constexpr frozen::unordered_map<std::string_view, int, 78> propStringsTra
     {"time_input_delay", HELICS_PROPERTY_TIME_INPUT_DELAY},
     {"time_output_delay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
     {"granttimeout", HELICS_PROPERTY_TIME_GRANT_TIMEOUT},
+    {"grantTimeout", HELICS_PROPERTY_TIME_GRANT_TIMEOUT},
     {"grant_timeout", HELICS_PROPERTY_TIME_GRANT_TIMEOUT},
     {"loglevel", HELICS_PROPERTY_INT_LOG_LEVEL},
     {"log_level", HELICS_PROPERTY_INT_LOG_LEVEL},
-- 
2.43.0


From b9d4a5265b8669c8f978bd6d0c5ccd979db33585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 82/90] fix: the others waited forever at the entry to
 initialization for a federate of the same core that had left or failed

---
 src/helics/core/CommonCore.cpp | 30 ++++++++++++++++++++++++++++--
 src/helics/core/CommonCore.hpp |  2 ++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index af1119f..359fcf4 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -588,12 +588,31 @@ bool CommonCore::allInitReady() const
             return false;
         }
     }
-    // all federates must be requesting init
+    // all federates must be requesting init, those that already left or failed never will
     return std::all_of(loopFederates.begin(), loopFederates.end(), [](const auto& fed) {
-        return fed->init_transmitted.load();
+        return fed->init_transmitted.load() || fed.state != OperatingState::OPERATING;
     });
 }
 
+void CommonCore::checkInitEntry()
+{
+    if (getBrokerState() != BrokerState::CONNECTED || loopFederates.empty() ||
+        minFederateState() == OperatingState::DISCONNECTED || !allInitReady()) {
+        return;
+    }
+    if (transitionBrokerState(BrokerState::CONNECTED, BrokerState::INITIALIZING)) {
+        ActionMessage init(CMD_INIT);
+        if (initIterations.load()) {
+            setActionFlag(init, iteration_requested_flag);
+        } else {
+            checkDependencies();
+        }
+        init.source_id = global_broker_id_local;
+        init.dest_id = parent_broker_id;
+        transmit(parent_route_id, init);
+    }
+}
+
 bool CommonCore::allDisconnected() const
 {
     // all federates must have hit finished state
@@ -4610,7 +4629,12 @@ void CommonCore::processLogAndErrorCommand(ActionMessage& cmd)
                         }
                     }
                 }
+                const bool federateError = (cmd.dest_id == parent_broker_id);
                 routeMessage(cmd);
+                if (federateError) {
+                    // the others may have been waiting for this one
+                    checkInitEntry();
+                }
             }
             break;
         case CMD_GLOBAL_ERROR:
@@ -4912,6 +4936,8 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                             cmd.source_id = parent_broker_id;
                             routeMessage(cmd);
                         }
+                        // the others may have been waiting for this one
+                        checkInitEntry();
                     }
                 }
             } else {
diff --git a/src/helics/core/CommonCore.hpp b/src/helics/core/CommonCore.hpp
index 99d98be..b16b243 100644
--- a/src/helics/core/CommonCore.hpp
+++ b/src/helics/core/CommonCore.hpp
@@ -349,6 +349,8 @@ class CommonCore: public Core, public BrokerBase {
 
     /** check if all federates managed by the core are ready to enter initialization state*/
     bool allInitReady() const;
+    /** request the entry to initialization from the broker if nothing prevents it any more*/
+    void checkInitEntry();
     /** check if all connections are disconnected (feds and time dependencies)*/
     bool allDisconnected() const;
     /** get the minimum operating state of the connected federates*/
-- 
2.43.0


From 764be2169d447c6d2022740fc3d5a930272ff28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 83/90] fix: a federate that was finalizing when its core
 stopped waited forever

---
 src/helics/core/CommonCore.cpp | 14 ++++++++++++++
 src/helics/core/CommonCore.hpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 359fcf4..722dd3e 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -613,6 +613,19 @@ void CommonCore::checkInitEntry()
     }
 }
 
+void CommonCore::releaseFederates()
+{
+    // nothing answers a federate that is finalizing once the core has stopped
+    ActionMessage bye(CMD_DISCONNECT_FED_ACK);
+    bye.source_id = parent_broker_id;
+    for (auto fed : loopFederates) {
+        if (fed->getState() != FederateStates::FINISHED) {
+            bye.dest_id = fed->global_id.load();
+            fed->addAction(bye);
+        }
+    }
+}
+
 bool CommonCore::allDisconnected() const
 {
     // all federates must have hit finished state
@@ -4910,6 +4923,7 @@ void CommonCore::processDisconnectCommand(ActionMessage& cmd)
                     translatorThread.store(std::thread::id{});
                 }
             }
+            releaseFederates();
             activeQueries.fulfillAllPromises("#disconnected");
             break;
         case CMD_DISCONNECT:
diff --git a/src/helics/core/CommonCore.hpp b/src/helics/core/CommonCore.hpp
index b16b243..c986f44 100644
--- a/src/helics/core/CommonCore.hpp
+++ b/src/helics/core/CommonCore.hpp
@@ -351,6 +351,8 @@ class CommonCore: public Core, public BrokerBase {
     bool allInitReady() const;
     /** request the entry to initialization from the broker if nothing prevents it any more*/
     void checkInitEntry();
+    /** let the federates finish that are still waiting for an answer to a disconnect*/
+    void releaseFederates();
     /** check if all connections are disconnected (feds and time dependencies)*/
     bool allDisconnected() const;
     /** get the minimum operating state of the connected federates*/
-- 
2.43.0


From f963c753ca84499fb5e8af02ab5e396b4098cc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 84/90] fix: the others waited forever at the entry to
 initialization for a core that had left

---
 src/helics/core/CoreBroker.cpp | 64 ++++++++++++++++++++--------------
 src/helics/core/CoreBroker.hpp |  2 ++
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 4b81e2d..c337227 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1590,6 +1590,36 @@ void CoreBroker::processCommand(ActionMessage&& command)
     }
 }
 
+void CoreBroker::checkInitEntry(ActionMessage& cmd)
+{
+    if (allInitReady()) {
+        if (isRootc) {
+            if (initIterating) {
+                executeInitializationOperations(true);
+            } else {
+                LOG_TIMING(global_broker_id_local,
+                           "root",
+                           "entering initialization mode");
+                LOG_SUMMARY(global_broker_id_local,
+                            "root",
+                            generateFederationSummary());
+                executeInitializationOperations(false);
+            }
+
+        } else {
+            LOG_TIMING(global_broker_id_local,
+                       getIdentifier(),
+                       "entering initialization mode");
+            checkDependencies();
+            cmd.source_id = global_broker_id_local;
+            if (initIterating) {
+                setActionFlag(cmd, iteration_requested_flag);
+            }
+            transmit(parent_route_id, cmd);
+        }
+    }
+}
+
 void CoreBroker::processInitCommand(ActionMessage& cmd)
 {
     switch (cmd.action()) {
@@ -1624,32 +1654,7 @@ void CoreBroker::processInitCommand(ActionMessage& cmd)
                     brk->initIterating = true;
                     initIterating = true;
                 }
-                if (allInitReady()) {
-                    if (isRootc) {
-                        if (initIterating) {
-                            executeInitializationOperations(true);
-                        } else {
-                            LOG_TIMING(global_broker_id_local,
-                                       "root",
-                                       "entering initialization mode");
-                            LOG_SUMMARY(global_broker_id_local,
-                                        "root",
-                                        generateFederationSummary());
-                            executeInitializationOperations(false);
-                        }
-
-                    } else {
-                        LOG_TIMING(global_broker_id_local,
-                                   getIdentifier(),
-                                   "entering initialization mode");
-                        checkDependencies();
-                        cmd.source_id = global_broker_id_local;
-                        if (initIterating) {
-                            setActionFlag(cmd, iteration_requested_flag);
-                        }
-                        transmit(parent_route_id, cmd);
-                    }
-                }
+                checkInitEntry(cmd);
             }
 
         } break;
@@ -3376,6 +3381,7 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
         }
     }
 
+    const bool waitingForInit = (getBrokerState() < BrokerState::OPERATING) && !allInitReady();
     if (brk != nullptr) {
         LOG_CONNECTIONS(parent_broker_id,
                         getIdentifier(),
@@ -3446,6 +3452,12 @@ void CoreBroker::processBrokerDisconnect(ActionMessage& command, BasicBrokerInfo
                 }
             }
         }
+        if (waitingForInit) {
+            // the others may have been waiting for the one that just left
+            ActionMessage init(CMD_INIT);
+            init.dest_id = parent_broker_id;
+            checkInitEntry(init);
+        }
     }
 }
 
diff --git a/src/helics/core/CoreBroker.hpp b/src/helics/core/CoreBroker.hpp
index fe53bec..71910d0 100644
--- a/src/helics/core/CoreBroker.hpp
+++ b/src/helics/core/CoreBroker.hpp
@@ -297,6 +297,8 @@ class CoreBroker: public Broker, public BrokerBase {
     @return true if everyone is ready, false otherwise
     */
     bool allInitReady() const;
+    /** enter initialization, or request it from the parent, if everything is ready for it*/
+    void checkInitEntry(ActionMessage& cmd);
     /** get a value for the summary connection status of all the connected systems*/
     ConnectionState getAllConnectionState() const;
 
-- 
2.43.0


From 6f17bc26d1270906f2787bec04897c427d670473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 85/90] fix: a federate waited forever for one that had left or
 failed before their link was made

---
 src/helics/core/CoreBroker.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index c337227..6bb46c6 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3058,6 +3058,15 @@ void CoreBroker::executeInitializationOperations(bool iterating)
         }
     }
 
+    // some connections may have been made only after one of the sides left or failed
+    for (const auto& fed : mFederates) {
+        if (fed.state >= ConnectionState::ERROR_STATE) {
+            ActionMessage dis(CMD_BROADCAST_DISCONNECT);
+            dis.source_id = fed.global_id;
+            timeCoord->processTimeMessage(dis);
+            broadcast(dis);
+        }
+    }
     ActionMessage init(CMD_INIT_GRANT);
     init.source_id = global_broker_id_local;
     setBrokerState(BrokerState::OPERATING);
-- 
2.43.0


From 94f408ce817c941628603f2cba72069028f51e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 86/90] fix: a federate entering execution was not checked
 again when one it waited for left or failed

---
 src/helics/core/TimeCoordinatorProcessing.cpp | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/helics/core/TimeCoordinatorProcessing.cpp b/src/helics/core/TimeCoordinatorProcessing.cpp
index b88ab43..25136df 100644
--- a/src/helics/core/TimeCoordinatorProcessing.cpp
+++ b/src/helics/core/TimeCoordinatorProcessing.cpp
@@ -25,6 +25,26 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
     bool newMode{timeGranted_mode};
     MessageProcessingResult proc{MessageProcessingResult::CONTINUE_PROCESSING};
     bool returnable{false};
+    // check if the federate was waiting for one that does not take part any more
+    auto checkBlockedFederate = [&]() {
+        if (timeGranted_mode) {
+            return;
+        }
+        if (state == FederateStates::EXECUTING) {
+            proc = timeCoord->checkTimeGrant();
+            if (returnableResult(proc)) {
+                newMode = true;
+            }
+        } else if (state == FederateStates::INITIALIZING) {
+            proc = timeCoord->checkExecEntry();
+            if (returnableResult(proc)) {
+                if (proc == MessageProcessingResult::NEXT_STEP) {
+                    newState = FederateStates::EXECUTING;
+                }
+                newMode = true;
+            }
+        }
+    };
     switch (cmd.action()) {
         case CMD_IGNORE:
         default:
@@ -185,14 +205,8 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     default:
                         break;
                 }
-                if (state != FederateStates::EXECUTING) {
-                    break;
-                }
-                if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
-                    if (returnableResult(proc)) {
-                        newMode = true;
-                    }
+                if (proc == MessageProcessingResult::CONTINUE_PROCESSING) {
+                    checkBlockedFederate();
                 }
             }
             break;
@@ -215,15 +229,7 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
             if (returnable) {
                 break;
             }
-            if (state != FederateStates::EXECUTING) {
-                break;
-            }
-            if (!timeGranted_mode) {
-                proc = timeCoord->checkTimeGrant();
-                if (returnableResult(proc)) {
-                    newMode = true;
-                }
-            }
+            checkBlockedFederate();
             break;
 
         case CMD_TIME_REQUEST:
@@ -298,18 +304,10 @@ std::tuple<FederateStates, MessageProcessingResult, bool>
                     default:
                         break;
                 }
-                if (state != FederateStates::EXECUTING) {
-                    break;
-                }
                 if (returnable) {
                     break;
                 }
-                if (!timeGranted_mode) {
-                    proc = timeCoord->checkTimeGrant();
-                    if (returnableResult(proc)) {
-                        newMode = true;
-                    }
-                }
+                checkBlockedFederate();
             }
             break;
         case CMD_ADD_DEPENDENCY:
-- 
2.43.0


From 0bc250fbaf3332c2511cf9a9711c726def25f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 87/90] fix: errors of a federate did not reach those that
 depend on it on other cores

---
 src/helics/core/CoreBroker.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index 6bb46c6..e3a3950 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -1476,8 +1476,15 @@ void CoreBroker::processCommand(ActionMessage&& command)
                 routeMessage(command);
             }
             break;
-        case CMD_ERROR:
         case CMD_LOCAL_ERROR:
+            if (command.dest_id != parent_broker_id && command.dest_id != global_broker_id_local &&
+                mFederates.find(command.source_id) != mFederates.end()) {
+                // tell the federate or core that depends on the one that failed
+                routeMessage(command);
+                break;
+            }
+            [[fallthrough]];
+        case CMD_ERROR:
         case CMD_GLOBAL_ERROR:
             processError(command);
             break;
@@ -3336,13 +3343,11 @@ void CoreBroker::processError(ActionMessage& command)
                 processError(command);
                 return;
             }
-            if (!(isRootc || command.dest_id == global_broker_id_local ||
-                  command.dest_id == parent_broker_id)) {
+            if (!isRootc && command.dest_id != global_broker_id_local) {
                 transmit(parent_route_id, command);
             }
-            if (hasTimeDependency) {
-                timeCoord->processTimeMessage(command);
-            }
+            // those that depend on this broker should not wait for the failed federate any more
+            disconnectTiming(command);
             break;
         case CMD_GLOBAL_ERROR:
             setErrorState(command.messageID, command.payload.to_string());
-- 
2.43.0


From 507ed7d6006bd2ef75a7ccc9aef972b599d2c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 88/90] fix: cores and brokers did not pass on that a federate
 had left or failed before execution started

---
 src/helics/core/CommonCore.cpp | 14 +++++++++++++-
 src/helics/core/CoreBroker.cpp | 13 +++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/helics/core/CommonCore.cpp b/src/helics/core/CommonCore.cpp
index 722dd3e..4370e9a 100644
--- a/src/helics/core/CommonCore.cpp
+++ b/src/helics/core/CommonCore.cpp
@@ -4608,7 +4608,17 @@ void CommonCore::processLogAndErrorCommand(ActionMessage& cmd)
                     }
 
                     if (hasTimeDependency) {
-                        timeCoord->processTimeMessage(cmd);
+                        // those that depend on this core should not wait for the failed federate
+                        // any more
+                        if (timeCoord->processTimeMessage(cmd) !=
+                            TimeProcessingResult::NOT_PROCESSED) {
+                            if (!enteredExecutionMode &&
+                                timeCoord->checkExecEntry() == MessageProcessingResult::NEXT_STEP) {
+                                enteredExecutionMode = true;
+                            } else {
+                                timeCoord->updateTimeFactors();
+                            }
+                        }
                     }
                 }
                 if (terminate_on_error) {
@@ -5221,6 +5231,8 @@ void CommonCore::processCommandsForCore(const ActionMessage& cmd)
             auto res = timeCoord->checkExecEntry();
             if (res == MessageProcessingResult::NEXT_STEP) {
                 enteredExecutionMode = true;
+            } else {
+                timeCoord->updateTimeFactors();
             }
         } else {
             if (timeCoord->processTimeMessage(cmd) != TimeProcessingResult::NOT_PROCESSED) {
diff --git a/src/helics/core/CoreBroker.cpp b/src/helics/core/CoreBroker.cpp
index e3a3950..9f68ba9 100644
--- a/src/helics/core/CoreBroker.cpp
+++ b/src/helics/core/CoreBroker.cpp
@@ -3368,12 +3368,13 @@ void CoreBroker::disconnectTiming(ActionMessage& command)
 {
     if (hasTimeDependency) {
         if (!enteredExecutionMode) {
-            if (getBrokerState() >= BrokerState::OPERATING) {
-                if (timeCoord->processTimeMessage(command) != TimeProcessingResult::NOT_PROCESSED) {
-                    auto res = timeCoord->checkExecEntry();
-                    if (res == MessageProcessingResult::NEXT_STEP) {
-                        enteredExecutionMode = true;
-                    }
+            if (timeCoord->processTimeMessage(command) != TimeProcessingResult::NOT_PROCESSED &&
+                getBrokerState() >= BrokerState::OPERATING) {
+                auto res = timeCoord->checkExecEntry();
+                if (res == MessageProcessingResult::NEXT_STEP) {
+                    enteredExecutionMode = true;
+                } else {
+                    timeCoord->updateTimeFactors();
                 }
             }
         } else {
-- 
2.43.0


From a97d649bec6533d8ad5fecc10cbbdf5e4330affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 89/90] fix: a core all of whose federates failed held back the
 others

---
 src/helics/core/ForwardingTimeCoordinator.cpp | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/helics/core/ForwardingTimeCoordinator.cpp b/src/helics/core/ForwardingTimeCoordinator.cpp
index 7cd42ab..a9e42db 100644
--- a/src/helics/core/ForwardingTimeCoordinator.cpp
+++ b/src/helics/core/ForwardingTimeCoordinator.cpp
@@ -44,6 +44,22 @@ static DependencyInfo generateDependencyInfoExcluding(const TimeDependencies& de
     return dependency;
 }
 
+/** true if there are federates below and all of them have failed or left*/
+static bool allChildrenDone(const TimeDependencies& dependencies)
+{
+    bool done{false};
+    for (const auto& dep : dependencies) {
+        if (!dep.dependency || dep.connection != ConnectionType::CHILD) {
+            continue;
+        }
+        if (dep.mTimeState != TimeState::error) {
+            return false;
+        }
+        done = true;
+    }
+    return done;
+}
+
 bool ForwardingTimeCoordinator::updateTimeFactors()
 {
     auto mTimeUpstream = generateMinTimeUpstream(
@@ -89,6 +105,18 @@ bool ForwardingTimeCoordinator::updateTimeFactors()
     if (updateUpStream || updateDownStream) {
         auto upd =
             generateTimeRequest(upstream, GlobalFederateId{}, upstream.responseSequenceCounter);
+        if (upd.action() == CMD_IGNORE && allChildrenDone(dependencies)) {
+            // everything below has failed or left, nothing has to wait for it any more
+            if (executionMode) {
+                upd.setAction(CMD_TIME_GRANT);
+                upd.actionTime = Time::maxVal();
+            } else {
+                upd.setAction(CMD_EXEC_REQUEST);
+                upd.actionTime = Time::zeroVal();
+                upd.counter = sequenceCounter;
+                upd.setExtraDestData(upstream.responseSequenceCounter);
+            }
+        }
         if (upd.action() != CMD_IGNORE) {
             transmitTimingMessagesUpstream(upd);
         }
@@ -202,6 +230,12 @@ MessageProcessingResult ForwardingTimeCoordinator::checkExecEntry(GlobalFederate
     execgrant.source_id = mSourceId;
     transmitTimingMessagesDownstream(execgrant);
     transmitTimingMessagesUpstream(execgrant);
+    if (allChildrenDone(dependencies)) {
+        ActionMessage done(CMD_TIME_GRANT);
+        done.source_id = mSourceId;
+        done.actionTime = Time::maxVal();
+        transmitTimingMessagesUpstream(done);
+    }
     return ret;
 }
 
-- 
2.43.0


From 959dd4b09edc67fd4e17b50e43d7da809f6e3d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:36 +0000
Subject: [PATCH 90/90] fix: a core that had disconnected still sent an
 execution grant which made the others wait for it again

---
 src/helics/core/ForwardingTimeCoordinator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/helics/core/ForwardingTimeCoordinator.cpp b/src/helics/core/ForwardingTimeCoordinator.cpp
index a9e42db..3d0498b 100644
--- a/src/helics/core/ForwardingTimeCoordinator.cpp
+++ b/src/helics/core/ForwardingTimeCoordinator.cpp
@@ -241,7 +241,8 @@ MessageProcessingResult ForwardingTimeCoordinator::checkExecEntry(GlobalFederate
 
 void ForwardingTimeCoordinator::transmitTimingMessagesUpstream(ActionMessage& msg) const
 {
-    if (!sendMessageFunction) {
+    if (!sendMessageFunction || disconnected) {
+        // after a disconnect nothing may follow that makes the others wait again
         return;
     }
 
@@ -263,7 +264,7 @@ void ForwardingTimeCoordinator::transmitTimingMessagesUpstream(ActionMessage& ms
 void ForwardingTimeCoordinator::transmitTimingMessagesDownstream(ActionMessage& msg,
                                                                  GlobalFederateId skipFed) const
 {
-    if (!sendMessageFunction) {
+    if (!sendMessageFunction || disconnected) {
         return;
     }
     if ((msg.action() == CMD_TIME_REQUEST || msg.action() == CMD_TIME_GRANT)) {
-- 
2.43.0

