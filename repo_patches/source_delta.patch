From f95905248bf499d366efd7646b74a3b33b3d468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 01/28] fix: reject iterator moves that leave the buffer
 backwards

A length of 2^31 or more turned into a negative count, passed the check in
operator += and moved the iterator in front of the buffer.
---
 src/protobuf/qprotobufselfcheckiterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..998c273 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -75,19 +75,19 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
 
     QProtobufSelfcheckIterator &operator -=(int count) {
-        m_sizeLeft += count;
-        if (m_sizeLeft > m_containerSize) {
+        if (count < 0 || count > m_containerSize - m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft += count;
         m_it -= count;
         return *this;
     }
-- 
2.43.0


From cca4fb0c108eef148e421e0809ff5c7aaa4627d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 02/28] fix: check length of length-delimited fields before
 reading them

The bytes were copied first and the bounds checked afterwards, so a length
prefix larger than the remaining input read behind the end of the buffer.
---
 src/protobuf/qprotobufserializer_p.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..d41c122 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -375,9 +375,9 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         unsigned int length = deserializeVarintCommon<uint32>(it);
-        QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
-        it += length;
-        return result;
+        const char *data = it.data();
+        it += length; //throws if buffer is less than length
+        return QByteArray(data, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
     }
 
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
-- 
2.43.0


From de600d8d2213d21551f233ea443904396a83a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 03/28] fix: check size of fixed-width fields before reading
 them

The value was read first and the bounds checked afterwards. The unaligned
dereference is gone as well.
---
 src/protobuf/qprotobufserializer_p.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index d41c122..59af1cb 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -26,6 +26,8 @@
 #include <QString>
 #include <QByteArray>
 
+#include <cstring>
+
 #include "qprotobufselfcheckiterator.h"
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -303,8 +305,11 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        const char *data = it.data();
+        it += sizeof(V); //throws if buffer is less than size of V
+        V value;
+        memcpy(&value, data, sizeof(V));
+        variantValue = QVariant::fromValue(value);
     }
 
     template <typename V,
-- 
2.43.0


From 32e1a3c6bf2127d41378506404e8ca9102b5a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 04/28] fix: reject varints of more than ten bytes

Longer varints shifted by 70 bits and more, which is undefined.
---
 src/protobuf/qprotobufserializer_p.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 59af1cb..5daee4b 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -283,6 +283,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k > 63) {
+                throw std::invalid_argument("Varint is longer than 10 bytes. Seems stream is broken");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
-- 
2.43.0


From e0c854ecae44cf606d827a455939aba2f005cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 05/28] fix: keep strings with embedded null characters

QString::fromUtf8(QByteArray) stops at the first null character.
---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..cbb969d 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -68,7 +68,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
 
     QStringList list = previousValue.value<QStringList>();
     QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(QString::fromUtf8(value.constData(), value.size()));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 5daee4b..7ed3e0a 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -356,7 +356,8 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        QByteArray value = deserializeLengthDelimited(it);
+        variantValue = QVariant::fromValue(QString::fromUtf8(value.constData(), value.size()));
     }
 
     //-------------------------List types deserializers--------------------------
-- 
2.43.0


From 5dda570fcd43221448711b59967c1db6b371e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 06/28] fix: keep packed elements inside their field and append
 further chunks

An element crossing the end of its packed field was read on from the fields
that follow, and a packed field that comes in several chunks kept only the
last one.
---
 src/protobuf/qprotobufserializer_p.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 7ed3e0a..f80c0cc 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -366,14 +366,17 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        QList<V> out = previousValue.value<QList<V>>();
         unsigned int count = deserializeVarintCommon<uint32>(it);
         QProtobufSelfcheckIterator lastVarint = it + count;
-        while (it != lastVarint) {
+        while (it.size() > lastVarint.size()) {
             QVariant variantValue;
             deserializeBasic<V>(it, variantValue);
             out.append(variantValue.value<V>());
         }
+        if (it != lastVarint) {
+            throw std::out_of_range("Packed field is less than its last element. Deserialization failed");
+        }
         previousValue.setValue(out);
     }
 
-- 
2.43.0


From 256e3dc3e216f374734cc45380b6608641df749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 07/28] fix: skip unknown fields of map entries and keep
 entries inside their length

Any field of a map entry other than the key was taken for the value, invalid
headers were ignored, and a field crossing the end of its entry was read on.
---
 src/protobuf/qprotobufserializer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index cbb969d..e60e10b 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -331,13 +331,18 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     unsigned int count = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
-    while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+    while (it.size() > last.size()) {
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map entry doesn't contain valid header byte. "
+                                        "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
+        } else if (mapIndex != 2) {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         } else {
             //TODO: replace with some common function
             int userType = value.userType();
@@ -350,6 +355,9 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
             }
         }
     }
+    if (it != last) {
+        throw std::out_of_range("Map entry is less than its last field. Deserialization failed");
+    }
 }
 
 QProtobufSerializerPrivate::SerializerRegistry QProtobufSerializerPrivate::handlers = {};
-- 
2.43.0


From f210ebee7ed2f1d20ce5d627dc201ef3036cf5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:46 +0000
Subject: [PATCH 08/28] fix: use default message for map entries without value

An entry that omits its value became a null pointer, and was dropped by the
next serialization.
---
 src/protobuf/qabstractprotobufserializer_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ee47fc6..ebb33c3 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -236,7 +236,8 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
     QVariant value = QVariant::fromValue<V *>(nullptr);
 
     if (serializer->deserializeMapPair(key, value, it)) {
-        out[key.value<K>()] = QSharedPointer<V>(value.value<V *>());
+        V *newValue = value.value<V *>();
+        out[key.value<K>()] = QSharedPointer<V>(newValue != nullptr ? newValue : new V);
         previous = QVariant::fromValue<QMap<K, QSharedPointer<V>>>(out);
     }
 }
-- 
2.43.0


From 174beb4a63fa0f54cfad843b2267380eced73c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:47 +0000
Subject: [PATCH 09/28] fix: throw for serializers of unknown plugins

The lookup added an empty record and dereferenced it.
---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From 2294489553bdda7f890e3373af785d88416982d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:31 +0000
Subject: [PATCH 10/28] fix: merge embedded messages that occur several times

Only the last occurrence was kept, parsers have to merge the fields of all
occurrences.
---
 src/protobuf/qabstractprotobufserializer_p.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ebb33c3..0bed90b 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -175,7 +175,9 @@ template <typename T,
           typename std::enable_if_t<std::is_base_of<QObject, T>::value, int> = 0>
 void deserializeObject(const QtProtobuf::QAbstractProtobufSerializer *serializer, QtProtobuf::QProtobufSelfcheckIterator &it, QVariant &to) {
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
-    T *value = new T;
+    //Fields of a message that occurs several times are merged
+    const T *previous = to.value<T *>();
+    T *value = previous != nullptr ? new T(*previous) : new T;
     serializer->deserializeObject(value, T::protobufMetaObject, it);
     to = QVariant::fromValue<T *>(value);
 }
-- 
2.43.0


From 4fb464442fe144073cdb440dc93686f68ec3dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 11/28] fix: initialize all members in copy and move
 constructors

The setters called there compare the new value with the uninitialized member,
and leave the member as is when the two compare equal.
---
 src/generator/messagedefinitionprinter.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..4afabf7 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -210,11 +210,7 @@ void MessageDefinitionPrinter::printCopyFunctionality()
 
     mPrinter->Print(mTypeMap,
                     constructorTemplate);
-    common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (common::isPureMessage(field)) {
-            mPrinter->Print(propertyMap, Templates::MessagePropertyDefaultInitializerTemplate);
-        }
-    });
+    printInitializationList(0);
     mPrinter->Print("\n{\n");
 
     Indent();
@@ -255,11 +251,7 @@ void MessageDefinitionPrinter::printMoveSemantic()
 
     mPrinter->Print(mTypeMap,
                     constructorTemplate);
-    common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (common::isPureMessage(field)) {
-            mPrinter->Print(propertyMap, Templates::MessagePropertyDefaultInitializerTemplate);
-        }
-    });
+    printInitializationList(0);
     mPrinter->Print("\n{\n");
 
     Indent();
-- 
2.43.0


From 23b21d9eaa76d1025e44d6080509c9ddbc845897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 12/28] fix: return values from QProtobufLazyMessagePointer
 operators

---
 src/protobuf/qprotobuflazymessagepointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..bd00c88 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -55,7 +55,7 @@ public:
         if (m_ptr == nullptr) {
             m_ptr.reset(new T);
         }
-        m_ptr.operator->();
+        return m_ptr.operator->();
     }
 
     T *get() const {
@@ -90,6 +90,7 @@ public:
     QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
         m_ptr = std::move(other.m_ptr);
+        return *this;
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From 7ddacb43fff41b4c70c85e2507829226f3323bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 13/28] fix: compare maps of messages with different keys

The value of a key missing in the other map is a null pointer, which was
dereferenced.
---
 src/protobuf/qtprotobuftypes.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..3731a9a 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -305,6 +305,9 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
     }
 
     for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
+        if (!b.contains((*itA).first)) {
+            return false;
+        }
         if (b.value((*itA).first) != (*itA).second
                 && *(b.value((*itA).first)) != *((*itA).second)) {
             return false;
-- 
2.43.0


From a4e89ab116c61e0095cc4d02189a75df5aa14dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 14/28] fix: iterate over copy of active streams when channel
 is replaced

Each abort() erases the stream from the vector that is iterated.
---
 src/grpc/qabstractgrpcclient.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..caf1ee6 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,14 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    //Aborted streams are removed from activeStreams, iterate over the copy
+    auto streams = dPtr->activeStreams;
+    for (auto stream : streams) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    streams = dPtr->activeStreams;
+    for (auto stream : streams) {
         stream->abort();
     }
 }
-- 
2.43.0


From e84764f61c1ba37a2da881969322caf6c56d387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 15/28] fix: register stream before it is started in channel

A stream that finishes inside of the channel call stayed registered forever,
and was returned for later calls with the same arguments.
---
 src/grpc/qabstractgrpcclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index caf1ee6..0116cb2 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -185,8 +185,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             grpcStream.reset();
         });
 
-        dPtr->channel->stream(grpcStream.get(), dPtr->service, this);
         dPtr->activeStreams.push_back(grpcStream);
+        dPtr->channel->stream(grpcStream.get(), dPtr->service, this);
     } else {
         error({QGrpcStatus::Unknown, QLatin1String("No channel(s) attached.")});
     }
-- 
2.43.0


From b55b3c42840b674f2d60562dd92f3f69f5aca2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 16/28] fix: don't restore streams that were aborted in the
 meantime

A stream aborted between its error and the reconnect was started again if the
user still held it.
---
 src/grpc/qabstractgrpcclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 0116cb2..784ce9b 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -162,7 +162,8 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                auto it = std::find(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), stream);
+                if (stream && it != std::end(dPtr->activeStreams)) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From c335d7c9d9131a201dd262a9cc8691668b622d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 17/28] fix: iterate over copy of stream handlers

A handler that opens the same stream again adds a handler to the vector that
is iterated.
---
 src/grpc/qgrpcstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..359720e 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,9 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        //Handlers may be added while data is handled, iterate over the copy
+        const auto handlers = m_handlers;
+        for (auto handler : handlers) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From bdf00012b7d8a99a24857e2b13bfc5567a701bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 18/28] fix: reassemble stream messages from chunks of any size

Chunks that end inside of the message size header were read out of bounds or
dropped, and a header that completes a chunk was taken for a message of the
previous size.
---
 src/grpc/qgrpchttp2channel.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..a3a11fc 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -101,7 +101,7 @@ namespace QtProtobuf {
 struct QGrpcHttp2ChannelPrivate {
     //! \private
     struct ExpectedData {
-        int expectedSize;
+        qint64 expectedSize;
         QByteArray container;
     };
 
@@ -192,8 +192,12 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        //At least complete header is expected
+        if (container.size() < GrpcMessageSizeHeaderSize) {
+            return GrpcMessageSizeHeaderSize;
+        }
+        return qint64(qFromBigEndian<quint32>(container.constData() + 1)) + GrpcMessageSizeHeaderSize;
     }
 };
 
@@ -285,35 +289,28 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
 
         if (replyIt == dPtr->activeStreamReplies.end()) {
             qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
+            qint64 expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
             qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
 
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
-
             QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
             replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
         }
 
         QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
         dataContainer.container.append(data);
+        dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
 
         qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
+        while (!networkReply->isFinished() && dataContainer.container.size() >= dataContainer.expectedSize) {
             qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
+            QByteArray message = dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize);
             dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
+            dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
+            grpcStream->handler(message); //May abort stream, dataContainer is not valid then
         }
 
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
+        if (networkReply->isFinished() || dataContainer.container.isEmpty()) {
+            dPtr->activeStreamReplies.erase(networkReply);
         }
     });
 
-- 
2.43.0


From 8d986e20da6b062bdc902505198be867a7f5df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 19/28] fix: drop partial data of aborted streams

The data was kept under the address of the deleted network reply, and mixed
into the next stream whose reply is allocated at the same address.
---
 src/grpc/qgrpchttp2channel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index a3a11fc..214fc72 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -367,7 +367,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         }
     });
 
-    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection] {
+    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this] {
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
@@ -377,6 +377,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*abortConnection) {
             QObject::disconnect(*abortConnection);
         }
+        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
-- 
2.43.0


From 17b1eb4b4f7f0a8e707a57e9a7810e5d385fe93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 20/28] fix: do not touch replies and streams that were deleted
 together with their client

---
 src/grpc/qabstractgrpcclient.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 784ce9b..bc540e5 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -29,6 +29,7 @@
 #include "qgrpcstream.h"
 #include "qprotobufserializerregistry_p.h"
 
+#include <QPointer>
 #include <QTimer>
 #include <QThread>
 
@@ -108,7 +109,13 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
                                       return call(method, arg);
                                   }, Qt::BlockingQueuedConnection, &reply);
     } else if (dPtr->channel) {
-        reply.reset(new QGrpcCallReply(this), [](QGrpcCallReply *reply) { reply->deleteLater(); });
+        //Reply is owned by client as well and might be already deleted, when the last reference is released
+        QPointer<QGrpcCallReply> replyPointer(new QGrpcCallReply(this));
+        reply.reset(replyPointer.data(), [replyPointer](QGrpcCallReply *) {
+            if (replyPointer) {
+                replyPointer->deleteLater();
+            }
+        });
 
         auto errorConnection = std::make_shared<QMetaObject::Connection>();
         auto finishedConnection = std::make_shared<QMetaObject::Connection>();
@@ -143,7 +150,13 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
                                       return stream(method, arg, handler);
                                   }, Qt::BlockingQueuedConnection, &grpcStream);
     } else if (dPtr->channel) {
-        grpcStream.reset(new QGrpcStream(method, arg, handler, this), [](QGrpcStream *stream) { stream->deleteLater(); });
+        //Stream is owned by client as well and might be already deleted, when the last reference is released
+        QPointer<QGrpcStream> streamPointer(new QGrpcStream(method, arg, handler, this));
+        grpcStream.reset(streamPointer.data(), [streamPointer](QGrpcStream *) {
+            if (streamPointer) {
+                streamPointer->deleteLater();
+            }
+        });
 
         auto it = std::find_if(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), [grpcStream](const QGrpcStreamShared &activeStream) {
            return *activeStream == *grpcStream;
-- 
2.43.0


From 6198252b34a389f0f3fbaf39e10a5586685a2194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 21/28] fix: QML client methods do not use reply if call is not
 started

---
 src/generator/templates.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..1aec79e 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -335,6 +335,9 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (!reply) {\n"
+                                                           "        return;\n"
+                                                           "    }\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -360,6 +363,9 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (!reply) {\n"
+                                                            "        return;\n"
+                                                            "    }\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From 12714d76e639a77f8fcd194e3567f96c7385a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:46 +0000
Subject: [PATCH 22/28] fix: QML stream does not touch streams that were
 deleted together with their client

---
 src/grpc/quick/qquickgrpcstream.cpp | 19 ++++++++++++-------
 src/grpc/quick/qquickgrpcstream_p.h |  2 ++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..829e6df 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -40,19 +40,23 @@ QQuickGrpcStream::QQuickGrpcStream(QObject *parent) : QObject(parent)
 
 QQuickGrpcStream::~QQuickGrpcStream()
 {
-    if (m_stream) {
-        m_stream->abort();
-    }
+    cancelStream();
     delete m_returnValue;
 }
 
+void QQuickGrpcStream::cancelStream()
+{
+    QGrpcStreamShared stream = m_stream;
+    m_stream.reset();
+    //Stream is owned by client as well and might be already deleted together with it
+    if (stream && !m_streamPointer.isNull()) {
+        stream->abort();
+    }
+}
 
 void QQuickGrpcStream::updateStream()
 {
-    if (m_stream) {
-        m_stream->abort();
-        m_stream.reset();
-    }
+    cancelStream();
 
     if (m_returnValue != nullptr) {
         m_returnValue->deleteLater(); //TODO: probably need to take care about return value cleanup other way. It's just reminder about weak memory management.
@@ -163,6 +167,7 @@ bool QQuickGrpcStream::stream()
     }
 
     m_stream = stream;
+    m_streamPointer = stream.get();
 
     connect(m_stream.get(), &QGrpcStream::messageReceived, this, [this](){
         messageReceived(qjsEngine(this)->toScriptValue(m_returnValue));
diff --git a/src/grpc/quick/qquickgrpcstream_p.h b/src/grpc/quick/qquickgrpcstream_p.h
index 65673ba..5af13c0 100644
--- a/src/grpc/quick/qquickgrpcstream_p.h
+++ b/src/grpc/quick/qquickgrpcstream_p.h
@@ -178,12 +178,14 @@ signals:
 
 private:
     void updateStream();
+    void cancelStream();
     bool stream();
     QPointer<QAbstractGrpcClient> m_client;
     bool m_enabled;
     QString m_method;
     QPointer<QObject> m_argument;
     std::shared_ptr<QGrpcStream> m_stream;
+    QPointer<QObject> m_streamPointer;
     QObject *m_returnValue;
 };
 
-- 
2.43.0


From d50478554ec11a71b79a75bdc70eeb6d93509356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:46 +0000
Subject: [PATCH 23/28] fix: re-initialize QML stream when its client, method
 or argument is changed

---
 src/grpc/quick/qquickgrpcstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index 829e6df..8ae7551 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -50,6 +50,7 @@ void QQuickGrpcStream::cancelStream()
     m_stream.reset();
     //Stream is owned by client as well and might be already deleted together with it
     if (stream && !m_streamPointer.isNull()) {
+        disconnect(stream.get(), nullptr, this, nullptr); //Own cancelation should not disable the stream
         stream->abort();
     }
 }
-- 
2.43.0


From e1742035d5253752bd35cc21b14f0fc88976159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:27 +0000
Subject: [PATCH 24/28] fix: thread of native call keeps its channel

The thread used plain pointer to grpc::Channel, that is deleted if other channel is attached to the
client before the thread starts the call.
---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 src/grpc/qgrpcchannel_p.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..37d4a0f 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -142,7 +142,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +151,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +213,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +245,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..bf62e1c 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -73,7 +73,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(const std::shared_ptr<grpc::Channel> &channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From 6447b2bb4aa98cbe2adfad1d471addb6613dc195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:27 +0000
Subject: [PATCH 25/28] fix: native stream is finished when server closes it

Stream closed by server with Ok status was never finished and stayed active forever.
---
 src/grpc/qgrpcchannel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 37d4a0f..30f836a 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -289,6 +289,10 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         {
             stream->error(sub->status);
         }
+        else
+        {
+            stream->finished();
+        }
     });
 
     *abortConnection = QObject::connect(stream, &QGrpcStream::finished, sub.get(), [connection, abortConnection, readConnection, sub, clientConnection] {
-- 
2.43.0


From be232265f3ebba9a35a388ee17ab9cbc8892e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:27 +0000
Subject: [PATCH 26/28] fix: native stream delivers no messages after abort

Messages that were already queued by the thread of stream reached handlers after stream was aborted.
---
 src/grpc/qgrpcchannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 30f836a..ae88bd6 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -273,8 +273,11 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         [](QGrpcChannelStream * sub) { sub->deleteLater(); }
     );
 
-    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream](const QByteArray &data) {
-        stream->handler(data);
+    *readConnection = QObject::connect(sub.get(), &QGrpcChannelStream::dataReady, stream, [stream, readConnection](const QByteArray &data) {
+        //Messages queued before disconnect are still delivered by Qt
+        if (*readConnection) {
+            stream->handler(data);
+        }
     });
 
     *connection = QObject::connect(sub.get(), &QGrpcChannelStream::finished, stream, [sub, stream, readConnection, abortConnection, service, connection, clientConnection](){
-- 
2.43.0


From 2875655b4616172ec28adf2b51f0035a1cdd119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:15 +0000
Subject: [PATCH 27/28] fix: register all local enums of message

Local enums were registered in protobuf subsystem only if a non-map field of the
message that declares them uses them. Serialization of other messages or maps
that use such enum failed with std::bad_function_call.
---
 src/generator/messagedefinitionprinter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index 4afabf7..8132cdd 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,13 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    //Local enums may be used by other messages or as values of maps only
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From b3f0df0aa90e70608ba22cbba86ad3316ca89e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:58 +0000
Subject: [PATCH 28/28] fix: take extra namespace from its own option only

EXTRA_NAMESPACE splitted the whole option string by '=', so any option
that follows it became part of the namespace.
---
 src/generator/generatoroptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/generatoroptions.cpp b/src/generator/generatoroptions.cpp
index ef7a4b7..7bebf6c 100644
--- a/src/generator/generatoroptions.cpp
+++ b/src/generator/generatoroptions.cpp
@@ -68,7 +68,7 @@ void GeneratorOptions::parseFromEnv(const std::string &options)
             mGenerateFieldEnum = true;
         } else if (option.find(ExtraNamespaceGenerationOption) == 0) {
             QT_PROTOBUF_DEBUG("set mGenerateFieldEnum: true");
-            std::vector<std::string> compositeOption = utils::split(options, '=');
+            std::vector<std::string> compositeOption = utils::split(option, '=');
             if (compositeOption.size() == 2) {
                 mExtraNamespace = compositeOption[1];
                 if (mExtraNamespace.size() > 1 && mExtraNamespace[0] == '\"'
-- 
2.43.0

