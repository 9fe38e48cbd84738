From 794f43afb0f7e6f06c4dd22cb255d8c9617b2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 01/52] fix: check the index of odc_frame_property_idx on every
 call, not only the first

---
 src/odc/api/odc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..e83b0f7 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -456,7 +456,6 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
 
         if (!frame->propertiesMemoised_) {
             const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
@@ -467,6 +466,8 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
             frame->propertiesMemoised_ = true;
         }
 
+        ASSERT(idx >= 0 && size_t(idx) < frame->propertiesIndex_.size());
+
         *key   = frame->propertiesIndex_[idx]->first.c_str();
         *value = frame->propertiesIndex_[idx]->second.c_str();
     });
-- 
2.43.0


From 20dfe362675e203d664071bd6335ba2be2dd3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 02/52] fix: test the duplicated descriptor for failure in
 odc_open_file_descriptor

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index e83b0f7..f936eab 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -277,7 +277,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From b09a1f12b32693df5a5b50e730e3af5ae9c86ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 03/52] fix: make readers opened on a stream usable (position
 and forward seek of the stream handle)

---
 src/odc/api/odc.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index f936eab..683996c 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -9,6 +9,7 @@
  */
 
 #include <unistd.h>
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -291,7 +292,7 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
 
     // Wrap the stream in a DataHandle
     struct ReadStreamDataHandle : public eckit::DataHandle {
-        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn) {}
+        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn), pos_(0) {}
         virtual ~ReadStreamDataHandle() {}
         void print(std::ostream& s) const override { s << "StreamReadHandle(" << fn_ << "(" << handle_ << "))"; }
         // Hack for compiler bug on clang-14.0.3 running on MacOS 13
@@ -299,12 +300,30 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            long count = fn_(handle_, buffer, length);
+            if (count > 0)
+                pos_ += count;
+            return count;
+        }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
+        Offset position() override { return pos_; }
+        // A stream can only be moved forwards, by consuming the data in between
+        Offset seek(const Offset& target) override {
+            ASSERT(!(target < pos_));
+            char buffer[4096];
+            while (pos_ < target) {
+                long wanted = std::min<long long>(sizeof(buffer), static_cast<long long>(target) - static_cast<long long>(pos_));
+                if (read(buffer, wanted) <= 0)
+                    break;
+            }
+            return pos_;
+        }
 
         void* handle_;
         odc_stream_read_t fn_;
+        Offset pos_;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From ae4eeb84664a6a47fc06d384a49e223606322901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 04/52] fix: check that mdset wrote its output completely and
 close it

---
 src/odc/tools/MDSetTool.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..b2241a0 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -104,17 +104,19 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(outHandle->write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(outHandle->write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        ASSERT(outHandle->write(encodedData.data(), sizeOfEncodedData) == long(sizeOfEncodedData));
     }
+
+    outHandle->close();
 }
 
 //
-- 
2.43.0


From 6b4093f193fbefb77ccc44e0d77fe57728342d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 05/52] fix: do not repeat a short write inside ASSERT (a
 failing condition is evaluated twice)

---
 src/odc/WriterBufferingIterator.cc | 9 +++++----
 src/odc/core/Encoder.cc            | 7 +++++--
 src/odc/tools/MDSetTool.cc         | 9 ++++++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..2491a4f 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -342,10 +342,11 @@ void WriterBufferingIterator::flush() {
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: header size: " << encodedHeader.second << std::endl;
 
-    ASSERT(dataHandle().write(encodedHeader.first, encodedHeader.second) ==
-           long(encodedHeader.second));  // Write header
-    ASSERT(dataHandle().write(encodedBuffer, encodedStream.position()) ==
-           encodedStream.position());  // Write encoded data
+    // n.b. ASSERT evaluates a failing condition twice, so the writes must not be part of it
+    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data
+    ASSERT(dataWritten == encodedStream.position());
 
     LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::flush: flushed " << rowsWritten << " rows." << std::endl;
 
diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..94b3483 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -114,8 +114,11 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     // And output the data
 
-    ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
-    ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
+    // n.b. ASSERT evaluates a failing condition twice, so the writes must not be part of it
+    const long headerWritten = out.write(encodedHeader.first, encodedHeader.second);
+    ASSERT(headerWritten == long(encodedHeader.second));
+    const long dataWritten = out.write(encodedBuffer, encodedStream.position());
+    ASSERT(dataWritten == encodedStream.position());
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index b2241a0..add1e83 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -104,16 +104,19 @@ void MDSetTool::run() {
 
             auto encodedHeader =
                 core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            ASSERT(outHandle->write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
+            const long headerWritten = outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(headerWritten == long(encodedHeader.second));
         }
         else {
             Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;
 
             auto encodedHeader =
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
-            ASSERT(outHandle->write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
+            const long headerWritten = outHandle->write(encodedHeader.first, encodedHeader.second);
+            ASSERT(headerWritten == long(encodedHeader.second));
         }
-        ASSERT(outHandle->write(encodedData.data(), sizeOfEncodedData) == long(sizeOfEncodedData));
+        const long dataWritten = outHandle->write(encodedData.data(), sizeOfEncodedData);
+        ASSERT(dataWritten == long(sizeOfEncodedData));
     }
 
     outHandle->close();
-- 
2.43.0


From db942b8e19ddce278e27e0ad000ae26e964ed170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 06/52] fix: report truncated frame data instead of decoding an
 incompletely filled buffer

---
 src/odc/core/Table.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..0871e02 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -75,13 +75,15 @@ Buffer Table::readEncodedData(bool includeHeader) {
     if (includeHeader) {
         Buffer data(nextPosition() - startPosition());
         dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
+        if (dh_.read(data, data.size()) != long(data.size()))
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
     else {
         Buffer data(dataSize_);
         dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
+        if (dh_.read(data, data.size()) != long(data.size()))
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
 }
-- 
2.43.0


From ba9e9cc08e9cebd6185fae82d9de7cd2395af4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 07/52] fix: complete short reads of a stream callback and
 report its errors, as POSIX read() semantics require

---
 src/odc/api/odc.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 683996c..16d8216 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -301,10 +301,18 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
         long read(void* buffer, long length) override {
-            long count = fn_(handle_, buffer, length);
-            if (count > 0)
+            // As for POSIX read(), fewer bytes than requested may be returned, 0 at the end and a negative value on error
+            long total = 0;
+            while (total < length) {
+                long count = fn_(handle_, static_cast<char*>(buffer) + total, length - total);
+                if (count < 0)
+                    throw eckit::ReadError("Error reading from stream", Here());
+                if (count == 0)
+                    break;
+                total += count;
                 pos_ += count;
-            return count;
+            }
+            return total;
         }
         long write(const void*, long) override { NOTIMP; }
         void close() override {}
-- 
2.43.0


From 1ba43628b21ea6df39435207b2fd83fa48e67b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 08/52] fix: decode rows from the frame's own data only, not
 from what an earlier, larger frame left in the buffer

---
 src/odc/ReaderIterator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..76273f1 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -190,7 +190,9 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Assign the data to a DataStream.
 
-    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_);
+    // n.b. The buffer may be larger than this frame's data, if it was allocated for an earlier one
+
+    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_.data(), dataSize);
 
     // Assign the appropriate data stream to each of the codecs.
 
-- 
2.43.0


From 93abc92ac7fd794ffc3d3b9c56613a95e51a4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 09/52] fix: reject row markers beyond the last column instead
 of indexing past the column tables

---
 src/odc/ReaderIterator.cc | 3 +++
 src/odc/core/Table.cc     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 76273f1..c68b337 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -219,6 +219,9 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    if (startCol > long(nCols))
+        throw ODBDecodeError("Row marker beyond the last column", Here());
+
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 0871e02..6f3a714 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -201,6 +201,8 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBDecodeError("Row marker beyond the last column", Here());
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -408,6 +410,8 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols))
+            throw ODBDecodeError("Row marker beyond the last column", Here());
 
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
-- 
2.43.0


From 50438347c23f65ae27a5e05f20a79815a7aea199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 10/52] fix: include the implicit missing value of columns
 before the first row's marker in decoded spans

---
 src/odc/core/Table.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 6f3a714..45e377f 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -413,6 +413,17 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         if (startCol > long(ncols))
             throw ODBDecodeError("Row marker beyond the last column", Here());
 
+        // Columns before the marker of the first row are implicitly missing (see decode())
+
+        if (rowCount == 0) {
+            for (int col = 0; col < startCol; col++) {
+                if (visitColumn[col]) {
+                    *decodeBuffer = decoders[col].get().missingValue();
+                    columnValues[col]->addValue(decodeBuffer);
+                }
+            }
+        }
+
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
-- 
2.43.0


From 66089051f28d94ed19ca894a3dbfa15eba4b64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 11/52] fix: look out for the missing marker short_real2 really
 uses when choosing the codec of a real column

---
 src/odc/codec/Real.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..86f7092 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -61,11 +61,13 @@ private:  // methods
     void gatherStats(const double& v) override {
         core::Codec::gatherStats(v);
 
+        // n.b. compared as the short real codecs store and test the value
+        float s                    = v;
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        if (s == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (s == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
     }
 
-- 
2.43.0


From b0ed72a4c373fbe5f948c039ce2e69e1b57a7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 12/52] fix: do not store a column containing NaN as constant

---
 src/odc/core/Codec.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..cf315bc 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -101,6 +101,11 @@ void Codec::gatherStats(const double& v) {
     if (v == missingValue_) {
         hasMissing_ = 1;
     }
+    else if (v != v) {
+        // A NaN is outside any range: a column containing one is not constant
+        if (min_ == max_)
+            min_ = max_ = v;
+    }
     else {
         if (v < min_ || min_ == missingValue_)
             min_ = v;
-- 
2.43.0


From 7123754f7f68e400d7c5ad26e142807efa02e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 13/52] fix: report integers the int32 codec cannot hold, and
 do not choose int8 for large ranges, instead of storing altered values

---
 src/odc/codec/CodecOptimizer.h | 3 ++-
 src/odc/codec/Integer.h        | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..dab4bcd 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -127,7 +127,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
 
             case api::BITFIELD:
             case api::INTEGER:
-                n = max - min;
+                // n.b. the difference of two large integers may not fit; 0x10000 and more are all the same here
+                n = max - min < 0x10000 ? max - min : 0x10000;
                 // LOG << " { min=" << min << ", max=" << max << ", n=" << n << "} ";
                 if (col.hasMissing()) {
                     if (n == 0)
diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..2015372 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -136,6 +136,8 @@ private:  // methods
         static_assert(sizeof(ValueType) == sizeof(d), "unsafe casting check");
 
         const ValueType& val(reinterpret_cast<const ValueType&>(d));
+        ASSERT("Value out of range of the integer codec" && val >= std::numeric_limits<InternalValueType>::min() &&
+               val <= std::numeric_limits<InternalValueType>::max());
         InternalValueType s = val;
         ByteOrder::swap(s);
         ::memcpy(p, &s, sizeof(s));
-- 
2.43.0


From 6539880ec4eb47d5559fe33661dfe1591bd7c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 14/52] fix: TablesReader::getTable takes the lock that guards
 the tables

ensureTable() may grow the vector in another thread while getTable() indexes it.
---
 src/odc/core/TablesReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/core/TablesReader.cc b/src/odc/core/TablesReader.cc
index 88e274b..ac4e389 100644
--- a/src/odc/core/TablesReader.cc
+++ b/src/odc/core/TablesReader.cc
@@ -127,6 +127,8 @@ bool TablesReader::ensureTable(long idx) {
 
 Table& TablesReader::getTable(long idx) {
 
+    std::lock_guard<std::mutex> lock(m_);
+
     ASSERT(idx >= 0);
     ASSERT(idx < long(tables_.size()));
 
-- 
2.43.0


From 9133a2c8a2403290a003fa4ef9f763c271e274e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 15/52] fix: ThreadSharedDataHandle guards every use of the
 shared handle

estimate(), title() and print() used it without the lock that read() holds.
---
 src/odc/core/ThreadSharedDataHandle.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..bb5344e 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -72,6 +72,7 @@ bool ThreadSharedDataHandle::operator==(const ThreadSharedDataHandle& other) {
 
 
 void ThreadSharedDataHandle::print(std::ostream& s) const {
+    std::lock_guard<std::mutex> lock(internal_->m_);
     s << "ThreadSharedDataHandle(" << *internal_->dh_ << ")";
 }
 
@@ -115,6 +116,7 @@ void ThreadSharedDataHandle::close() {
 
 eckit::Length ThreadSharedDataHandle::estimate() {
     ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
     return internal_->dh_->estimate();
 }
 
@@ -129,6 +131,7 @@ eckit::Offset ThreadSharedDataHandle::seek(const eckit::Offset& position) {
 
 std::string ThreadSharedDataHandle::title() const {
     ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
     return internal_->dh_->name();
 }
 
-- 
2.43.0


From ed6efd5455fee516eca8756e4073f14527cd404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 16/52] fix: the C API keeps the text of the last error per
 thread

Errors in concurrent calls assigned one shared string without a lock.
---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 16d8216..90575d6 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -95,7 +95,7 @@ struct odc_encoder_t {
 
 /* Error handling */
 
-static std::string g_current_error_str;
+static thread_local std::string g_current_error_str;
 static odc_failure_handler_t g_failure_handler = nullptr;
 static void* g_failure_handler_context         = nullptr;
 
-- 
2.43.0


From da479dce5b6c0cf58989cc19af1344d2eecdbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 17/52] fix: decoding an aggregated frame with zero threads
 decodes it

FrameImpl::decode left the target untouched for nthreads == 0.
---
 src/odc/api/Odb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..309fb82 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -364,7 +364,7 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
         for (core::Table& t : tables_) {
             size_t rows = t.rowCount();
             core::DecodeTarget&& subTarget(target.slice(rowOffset, rows));
-            if (nthreads == 1) {
+            if (nthreads <= 1) {
                 t.decode(subTarget);
             }
             else {
-- 
2.43.0


From 504099c5b4607b0f9188bb265a92c221ddb552c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 18/52] fix: encoders in different threads share the table of
 default codecs safely

The static table was filled by whichever encoder came first, without a lock,
and operator[] could insert into it while others read.
---
 src/odc/codec/CodecOptimizer.cc | 5 +++++
 src/odc/codec/CodecOptimizer.h  | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/odc/codec/CodecOptimizer.cc b/src/odc/codec/CodecOptimizer.cc
index 96eb9fa..e3ceba0 100644
--- a/src/odc/codec/CodecOptimizer.cc
+++ b/src/odc/codec/CodecOptimizer.cc
@@ -14,6 +14,9 @@
 /// @author Piotr Kuchta, Jan 2010
 
 #include "odc/codec/CodecOptimizer.h"
+
+#include <mutex>
+
 #include "eckit/config/Resource.h"
 #include "eckit/utils/StringTools.h"
 
@@ -27,6 +30,8 @@ namespace codec {
 std::map<api::ColumnType, std::string> CodecOptimizer::defaultCodec_;
 
 CodecOptimizer::CodecOptimizer() {
+    static std::mutex m;
+    std::lock_guard<std::mutex> lock(m);
     if (defaultCodec_.empty()) {
         defaultCodec_[api::REAL]     = "short_real2";
         defaultCodec_[api::DOUBLE]   = "long_real";
diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index dab4bcd..30cba89 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -50,7 +50,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
         double missing  = col.rawMissingValue();
         // LOG << "CodecOptimizer::setOptimalCodecs: " << i << " " << col.name() << ", min=" << min << ", max=" << max
         // << std::endl;
-        std::string codec(defaultCodec_[col.type()]);
+        auto it = defaultCodec_.find(col.type());
+        std::string codec(it == defaultCodec_.end() ? std::string() : it->second);
         switch (col.type()) {
             case api::REAL: {
 
-- 
2.43.0


From f667a653211d554c30ef92d927546f270dd5619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 19/52] fix: Fortran API: defaults of optional arguments no
 longer keep the value of an earlier call

---
 src/odc/api/odc.f90 | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index dba8aec..0a36ee0 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -726,9 +726,11 @@ contains
         integer(c_long), intent(in), optional :: maximum_rows
         integer :: err
 
-        integer(c_long) :: l_maximum_rows = -1
-        logical :: l_aggregated = .false.
+        integer(c_long) :: l_maximum_rows
+        logical :: l_aggregated
 
+        l_maximum_rows = -1
+        l_aggregated = .false.
         if (present(aggregated)) l_aggregated = aggregated
         if (present(maximum_rows)) then
             l_maximum_rows = maximum_rows
@@ -876,7 +878,8 @@ contains
         class(odc_decoder), intent(inout) :: decoder
         logical, intent(in), optional :: column_major
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         err = odc_new_decoder(decoder%impl)
         if (err == ODC_SUCCESS) then
@@ -916,8 +919,9 @@ contains
         real(dp), intent(inout), target :: data(:,:)
         logical, intent(in), optional :: column_major
         integer(c_long) :: width, height
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
         integer :: err
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -992,9 +996,12 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(stride)) l_stride = stride
         if (present(data)) l_data = data
@@ -1075,8 +1082,9 @@ contains
         integer(c_long) :: width, height
         integer(c_int) :: columnMajorWidth
         integer :: err
-        logical(c_bool) :: l_column_major = .true.
+        logical(c_bool) :: l_column_major
 
+        l_column_major = .true.
         if (present(column_major)) l_column_major = column_major
         if (l_column_major) then
             width = size(data, 2) * double_size
@@ -1121,7 +1129,8 @@ contains
         integer :: err
 
 
-        integer(c_int) :: l_element_size = 0
+        integer(c_int) :: l_element_size
+        l_element_size = 0
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
 
@@ -1138,9 +1147,12 @@ contains
         type(c_ptr), intent(in), optional :: data
         integer :: err
 
-        integer(c_int) :: l_element_size = 0
-        integer(c_int) :: l_stride = 0
-        type(c_ptr) :: l_data = c_null_ptr
+        integer(c_int) :: l_element_size
+        integer(c_int) :: l_stride
+        type(c_ptr) :: l_data
+        l_element_size = 0
+        l_stride = 0
+        l_data = c_null_ptr
         if (present(element_size)) l_element_size = element_size
         if (present(element_size_doubles)) l_element_size = element_size_doubles * double_size
         if (present(stride)) l_stride = stride
-- 
2.43.0


From a00c8f6418306506a499d8ce3bdb3536c4c77057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 20/52] fix: Fortran API: failure handler callback takes a C
 int like the C API passes

---
 src/odc/api/odc.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.f90 b/src/odc/api/odc.f90
index 0a36ee0..2977711 100644
--- a/src/odc/api/odc.f90
+++ b/src/odc/api/odc.f90
@@ -627,7 +627,7 @@ contains
 
     subroutine failure_handler_wrapper(unused_context, error) bind(c)
         type(c_ptr), intent(in), value :: unused_context
-        integer(c_long), intent(in), value :: error
+        integer(c_int), intent(in), value :: error
         call failure_handler_fn(failure_handler_context, int(error))
     end subroutine
 
-- 
2.43.0


From 412903f774d42a3e40e43fc090a383cf50c1d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 21/52] fix: copying an empty Frame gives an empty Frame

---
 src/odc/api/Odb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 309fb82..d678902 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
-- 
2.43.0


From 31acba8e9772c784ea770273b84f8603d2b38cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 22/52] fix: the span of a constant string column has the whole
 string, not its first eight characters

---
 src/odc/core/Table.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 45e377f..0815ff8 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -255,7 +255,17 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
             throw UserError("Column '" + columnName + "' not found", Here());
 
         if (column->isConstant()) {
-            s.addValue(columnName, column->type(), column->min());
+            if (column->type() == api::STRING) {
+                // n.b. a constant string may be longer than fits in one double
+                std::vector<double> value(column->dataSizeDoubles());
+                column->coder().decode(value.data());
+                const char* c = reinterpret_cast<const char*>(value.data());
+                s.addValues(columnName,
+                            std::set<std::string>{std::string(c, ::strnlen(c, value.size() * sizeof(double)))});
+            }
+            else {
+                s.addValue(columnName, column->type(), column->min());
+            }
         }
         else {
             nonConstantColumns.push_back(columnName);
-- 
2.43.0


From 12c883aa18ed77178fb46809ab712c08142df5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 23/52] fix: encoding with no rows allowed per frame is an
 error, not an endless stream of empty frames

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index d678902..5ba8c7f 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -662,6 +662,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
 
     ASSERT(columns.size() == data.size());
     ASSERT(data.size() > 0);
+    ASSERT(maxRowsPerFrame > 0);
 
     size_t ncols = data.size();
     size_t nrows = data[0].nelem();
-- 
2.43.0


From ee4f548767873646310e8956f6c286335052b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 24/52] fix: IteratorProxy::operator= dereferences a null
 iterator when an end() iterator is assigned

---
 src/odc/IteratorProxy.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/IteratorProxy.h b/src/odc/IteratorProxy.h
index 03d4bba..7ed9ae0 100644
--- a/src/odc/IteratorProxy.h
+++ b/src/odc/IteratorProxy.h
@@ -191,7 +191,8 @@ public:
             delete iter_;
 
         iter_ = other.iter_;
-        ++iter_->refCount_;
+        if (iter_)
+            ++iter_->refCount_;
         return *this;
     }
 
-- 
2.43.0


From 3c31486b5ce18e7588992e8a19999bee43b7e105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 25/52] fix: TODATableIterator::rewind leaves the query reading
 the previous pass's row buffer

---
 src/odc/sql/TODATableIterator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..02df7ed 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -73,6 +73,12 @@ void TODATableIterator<READER>::rewind() {
         it_       = const_cast<READER&>(parent_.oda()).begin();
         end_      = parent_.oda().end();
         firstRow_ = true;
+
+        // n.b. The new iterator has a row buffer of its own (and does not report its first row as a new dataset)
+        if (it_ != end_) {
+            updateMetaData();
+            metadataUpdateCallback_(*this);
+        }
     }
 }
 
-- 
2.43.0


From f5ad8e1c2abbbcabda91e8f8ab2000c41ec1287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 26/52] fix: CSV header accepts bitfield members of zero or
 negative size

---
 src/odc/csv/TextReaderIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..e85eaab 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -107,7 +107,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (size <= 0)
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
-- 
2.43.0


From 66c8df3fbb31abcb75097514604eed1f624ba13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 27/52] fix: a blank line in a CSV file silently drops the rows
 after it

---
 src/odc/csv/TextReaderIterator.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index e85eaab..0e25c4d 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -191,16 +191,20 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
+    // n.b. A blank line is not the end of the data
+
     std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
+    do {
+        if (!std::getline(*in_, line)) {
+            noMore_ = true;
+            return false;
+        }
+        line = S::trim(line);
+    } while (line.empty());
+
     std::vector<std::string> values(S::split(delimiter_, line));
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From 1ccdce33935409f8a186500d265c60217f917a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 28/52] fix: odc import ignores -d unless -sql is given

---
 src/odc/tools/ImportTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..f8b3001 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -80,7 +80,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From 834efabe5c02cd0f48dd34208c4d4752ff1f0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 29/52] fix: importing a CSV file that cannot be opened yields
 an empty table

---
 src/odc/csv/TextReader.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReader.cc b/src/odc/csv/TextReader.cc
index fd7069a..97a757a 100644
--- a/src/odc/csv/TextReader.cc
+++ b/src/odc/csv/TextReader.cc
@@ -12,6 +12,9 @@
 #include "odc/csv/TextReader.h"
 
 #include <fstream>
+#include <memory>
+
+#include "eckit/exception/Exceptions.h"
 
 #include "odc/csv/TextReaderIterator.h"
 
@@ -21,12 +24,23 @@ namespace odc {
 
 //----------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+std::istream* openForRead(const std::string& path) {
+    std::unique_ptr<std::ifstream> in(new std::ifstream(path.c_str()));
+    if (!*in)
+        throw CantOpenFile(path, Here());
+    return in.release();
+}
+
+}  // namespace
+
 TextReader::TextReader(std::istream& input, const std::string& delimiter) :
     in_(&input), deleteDataHandle_(false), delimiter_(delimiter), iteratorSingleton_(new TextReaderIterator(*this)) {}
 
 
 TextReader::TextReader(const std::string& path, const std::string& delimiter) :
-    in_(new std::ifstream(path.c_str())),
+    in_(openForRead(path)),
     deleteDataHandle_(true),
     delimiter_(delimiter),
     iteratorSingleton_(new TextReaderIterator(*this)) {}
-- 
2.43.0


From c9a4178e54b1ec3a2d051c9c1d559edf6eb8f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 30/52] fix: odc import splits at the upper case of a letter
 given as delimiter

---
 src/odc/tools/ImportTool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index f8b3001..aa43b0e 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -68,8 +68,9 @@ void ImportTool::run() {
 
     Log::info() << "ImportTool::run: inFile: " << inFile << ", outFile: " << outFile << std::endl;
 
-    std::string delimiter(StringTools::upper(optionArgument("-d", defaultDelimiter())));
-    delimiter = delimiter == "TAB" ? "\t" : delimiter == "SPACE" ? " " : delimiter;
+    std::string delimiter(optionArgument("-d", defaultDelimiter()));
+    const std::string named(StringTools::upper(delimiter));
+    delimiter = named == "TAB" ? "\t" : named == "SPACE" ? " " : delimiter;
 
     std::string sql(optionArgument("-sql", std::string("select *;")));
 
-- 
2.43.0


From 73ee4c3199b00be92fea785b4dfc60bc0d116b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 31/52] fix: split takes the number of a column for its place
 in the row, so wide strings before it change the output file

---
 src/odc/WriterDispatchingIterator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..4810858 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -109,7 +109,7 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        double d(values[dispatchedIndexes_[it - templateParameters_.begin()]]);
         std::string s;
         if (columns_[p.columnIndex]->type() == api::STRING) {
             char* sp(reinterpret_cast<char*>(&d));
@@ -295,8 +295,13 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
         throw eckit::UserError(ss.str());
     }
     dispatchedIndexes_.clear();
-    for (size_t i(0); i < templateParameters_.size(); ++i)
-        dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+    for (size_t i(0); i < templateParameters_.size(); ++i) {
+        // n.b. The place of a column in a row depends on the widths of the columns before it
+        size_t offset = 0;
+        for (size_t j = 0; j < templateParameters_[i]->columnIndex; ++j)
+            offset += columns_[j]->dataSizeDoubles();
+        dispatchedIndexes_.push_back(offset);
+    }
     initialized_ = true;
 }
 
-- 
2.43.0


From 5a9f201f356ee34c019dc1f85690276fbeb5b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 32/52] fix: after split reopened one of its files, it appends
 to files left from earlier runs

---
 src/odc/WriterDispatchingIterator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 4810858..c2ebe70 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -193,7 +193,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
     }
 
     std::string operation;
-    // bool append = false;
+    bool append = append_;
     if (append_ || !eckit::PathName(fileName).exists()) {
         filesCreated_[fileName] = 1;
         operation               = "creating";
@@ -204,7 +204,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
             operation               = "overwriting";
         }
         else {
-            append_ = true;
+            append = true;
             filesCreated_[fileName]++;
             operation = "appending";
         }
@@ -213,11 +213,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
     if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
+        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append));
         files_.push_back(fileName);
     }
     else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
+        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
         files_[iteratorIndex]     = fileName;
         // ASSERT(files_[iteratorIndex] == fileName);
     }
-- 
2.43.0


From 2796a94b233d83919ac9af6b858d655be94bc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 33/52] fix: split drops characters after a slash from the
 output file name

---
 src/odc/WriterDispatchingIterator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index c2ebe70..84cdea0 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -119,7 +119,7 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
             while (s.find("/") != std::string::npos) {
                 std::string old(s);
                 size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
+                s.replace(pos, 1, std::string("__SLASH__"));
                 // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
                 // << std::endl;
             }
-- 
2.43.0


From 095b1296570fa2636a43df1b99dc1c8867eb6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 34/52] fix: split writes one file through several writers when
 different values yield the same file name

---
 src/odc/WriterDispatchingIterator.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 84cdea0..b7f23c0 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -164,6 +164,14 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
                                                                      const std::string& fileName) {
+    // n.b. Different values may yield the same name; a file has one writer only
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        if (iteratorIndex2fileName_[i] == fileName) {
+            values2iteratorIndex_[dispatchedValues] = i;
+            return i;
+        }
+    }
+
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -186,10 +194,12 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         iterators_[iteratorIndex] = 0;
 
         Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
+        while (vit != values2iteratorIndex_.end()) {
             if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+                vit = values2iteratorIndex_.erase(vit);
+            else
+                ++vit;
+        }
     }
 
     std::string operation;
-- 
2.43.0


From e3c22bbfb723c981d17bdfece4ad2ea2cc87e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 35/52] fix: split tells strings apart by their first eight
 characters only

---
 src/odc/WriterDispatchingIterator.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index b7f23c0..6b7e90a 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -89,14 +89,14 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimString = [](const char*& p, size_t& len, size_t width) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < width && isprint(p[len]); ++len)
             ;
         for (; len > 0 && isspace(p[len - 1]); --len)
             ;
         size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        for (const char* pp = p; isspace(*p) && p < pp + plen;) {
             ++p;
             --len;
         }
@@ -109,12 +109,12 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[dispatchedIndexes_[it - templateParameters_.begin()]]);
+        const double& d(values[dispatchedIndexes_[it - templateParameters_.begin()]]);
         std::string s;
         if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+            const char* sp(reinterpret_cast<const char*>(&d));
             size_t len(0);
-            trimStringInDouble(sp, len);
+            trimString(sp, len, columns_[p.columnIndex]->dataSizeDoubles() * sizeof(double));
             s = std::string(sp, len);
             while (s.find("/") != std::string::npos) {
                 std::string old(s);
@@ -144,8 +144,11 @@ WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const
 template <typename WRITE_ITERATOR, typename OWNER>
 int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double* values, unsigned long count) {
     Values dispatchedValues;
-    for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
-        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
+    for (size_t i(0); i < dispatchedIndexes_.size(); ++i) {
+        const double* v = values + dispatchedIndexes_[i];
+        dispatchedValues.insert(dispatchedValues.end(), v,
+                                v + columns_[templateParameters_[i]->columnIndex]->dataSizeDoubles());
+    }
 
     if (dispatchedValues == lastDispatchedValues_)
         return lastIndex_;
-- 
2.43.0


From 44868c2e311fa9624ea68139b8b6d2887ef8ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 36/52] fix: DispatchingWriter puts missing values at the
 number of a column instead of its place in the row

---
 src/odc/WriterDispatchingIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 6b7e90a..16f0f99 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -285,8 +285,8 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
 
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
-- 
2.43.0


From b9c059e564148e36b7308a366ae6a4988beddc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 37/52] fix: the rows of a second input are dispatched and
 written with the layout of the first

---
 src/odc/WriterDispatchingIterator.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 16f0f99..5be6841 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -430,13 +430,10 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
         return 0;
     }
 
-    // Copy columns from the input iterator.
-    columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    // n.b. There may be files open already, with the layout of another input
+    bool newLayout = !initialized_ || columns() != it->columns();
 
-    size_t maxcols = columns().size();
+    size_t maxcols = it->columns().size();
     ASSERT(maxcols > 0);
 
     LOG_DEBUG_LIB(LibOdc) << "WriterDispatchingIterator::pass1<WriterBufferingIterator>: columns().size() => "
@@ -444,7 +441,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (newLayout || (it->isNewDataset() && columns() != it->columns())) {
+            newLayout = false;
             columns(it->columns());
             parseTemplateParameters();
 
-- 
2.43.0


From 121f39e14bf5a298ed7d4ffd52aee1c2ca589161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 38/52] fix: the verification of split reopens output files,
 creates others and compares rows with the wrong ones

---
 src/odc/WriterDispatchingIterator.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 5be6841..035262f 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -480,18 +480,27 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     Log::info() << "Verifying split..." << endl;
     Timer timer("Split verification");
 
+    // n.b. All the files are read at once
+    if (filesCreated_.size() > size_t(maxOpenFiles_)) {
+        Log::warning() << "Split: " << filesCreated_.size() << " output files are too many to be verified." << endl;
+        return;
+    }
+
     // Copy columns from the input iterator.
     columns(it->columns());
+    parseTemplateParameters();
 
     vector<Reader*> readers;
     vector<pair<Reader::iterator, Reader::iterator> > iterators;
-    for (size_t i(0); i < files_.size(); ++i) {
-        Reader* reader(new Reader(files_[i]));
+    map<string, size_t> fileIndexes;
+    for (const auto& file : filesCreated_) {
+        Reader* reader(new Reader(file.first));
+        fileIndexes[file.first] = readers.size();
         readers.push_back(reader);
         iterators.push_back(make_pair(reader->begin(), reader->end()));
     }
 
-    vector<size_t> rowsRead(files_.size());
+    vector<size_t> rowsRead(readers.size());
 
     // Frames in the source/dispatched cases will have different sizes, so the haveMissing()
     // value may differ. Only compare the values
@@ -506,8 +515,10 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
             parseTemplateParameters();
         }
 
-        size_t fileIndex(dispatchIndex(it->data(), it->columns().size()));
-        const std::string& outFileName(files_[fileIndex]);
+        // n.b. No output file may be created here
+        const std::string outFileName(generateFileName(it->data(), it->columns().size()));
+        ASSERT(fileIndexes.find(outFileName) != fileIndexes.end());
+        size_t fileIndex(fileIndexes[outFileName]);
 
         size_t n(columns().size());
         typedef Reader::iterator I;
-- 
2.43.0


From 8b4658ac048a6bc94916f2e2241e92d71eb95ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 39/52] fix: split -sort opens its input twice, which always
 fails

---
 src/odc/tools/SplitTool.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..5b7a919 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -126,9 +126,8 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
-        AutoClose closer(h);
         odc::Select in(sql, h);
+        AutoClose closer(h);
         outIt->pass1(in.begin(), in.end());
     }
 }
-- 
2.43.0


From 7320806871914c47cd90cb260b2bd5a7bd8d97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 40/52] fix: split -sort loses the data of a file whose first
 frame is large

---
 src/odc/tools/SplitTool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 5b7a919..d371be8 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,18 +84,19 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength != Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
-    if (r.size() == 0 || r.back().first != currentOffset)
+    if (currentLength != Length(0))
         r.push_back(make_pair(currentOffset, currentLength));
     return r;
 }
-- 
2.43.0


From 36a2e3b8b6af273e72261053c52c045187589362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 41/52] fix: after a change of layout split takes equal bits of
 other columns for the same values

---
 src/odc/WriterDispatchingIterator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 035262f..3758a9c 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -445,6 +445,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
             newLayout = false;
             columns(it->columns());
             parseTemplateParameters();
+            values2iteratorIndex_.clear();
+            lastDispatchedValues_.clear();
 
             for (size_t i = 0; i < iterators_.size(); ++i) {
                 iterators_[i]->flush();
-- 
2.43.0


From 70731582f10faccc1e18949a6f02560af5be41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 42/52] fix: compare reports equal infinite values as different

---
 src/odc/Comparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..6f42238 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -77,7 +77,7 @@ public:
         return relativeError;
     }
 
-    inline static int same(double A, double B) { return err(A, B) < maxRelativeError; }
+    inline static int same(double A, double B) { return A == B || err(A, B) < maxRelativeError; }
 
     void raiseNotEqual(const core::Column&, double, double);
 
-- 
2.43.0


From b138485ac8da28840b864d9b4845ba951480c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:17 +0000
Subject: [PATCH 43/52] fix: compare -dontCheckMissing does the opposite of
 what it says

---
 src/odc/tools/CompareTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/CompareTool.cc b/src/odc/tools/CompareTool.cc
index 8d77eb5..b4f5c70 100644
--- a/src/odc/tools/CompareTool.cc
+++ b/src/odc/tools/CompareTool.cc
@@ -71,7 +71,7 @@ void CompareTool::run() {
     }
 
     bool checkMissing = !optionIsSet("-dontCheckMissing");
-    odc::Comparator(checkMissing).compare(it1, end1, it2, end2, file1_, file2_, excludedColumnsTypes, excludedColumns);
+    odc::Comparator(!checkMissing).compare(it1, end1, it2, end2, file1_, file2_, excludedColumnsTypes, excludedColumns);
 }
 
 }  // namespace tool
-- 
2.43.0


From 4457b880bf5b60c682afbbd68f4e0befebd34271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 44/52] fix: keep which value is missing when the codecs of a
 column are reset or copied

Rows whose missing value is not the default one turned into plain values when
they were written by compact, set, merge or split, or after the first flush of a
writer; copies of integer columns forgot their missing value.
---
 src/odc/WriterBufferingIterator.h    |  2 +-
 src/odc/WriterDispatchingIterator.cc |  9 ++++++---
 src/odc/core/Codec.cc                | 10 +++++-----
 src/odc/core/Column.h                |  5 ++++-
 src/odc/core/MetaData.cc             | 19 ++++++++++++++++---
 src/odc/core/MetaData.h              |  3 +++
 6 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..6553b01 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -199,7 +199,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && (it->columns() != columns() || !columns().equalMissingValues(it->columns()))) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 3758a9c..13560aa 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -431,7 +431,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     }
 
     // n.b. There may be files open already, with the layout of another input
-    bool newLayout = !initialized_ || columns() != it->columns();
+    bool newLayout =
+        !initialized_ || columns() != it->columns() || !columns().equalMissingValues(it->columns());
 
     size_t maxcols = it->columns().size();
     ASSERT(maxcols > 0);
@@ -441,7 +442,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (newLayout || (it->isNewDataset() && columns() != it->columns())) {
+        if (newLayout || (it->isNewDataset() && (columns() != it->columns() ||
+                                                 !columns().equalMissingValues(it->columns())))) {
             newLayout = false;
             columns(it->columns());
             parseTemplateParameters();
@@ -512,7 +514,8 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     unsigned long numberOfDifferences(0);
     long long i(0);
     for (; it != end; ++i) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (it->isNewDataset() &&
+            (columns() != it->columns() || !columns().equalMissingValues(it->columns()))) {
             columns(it->columns());
             parseTemplateParameters();
         }
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index cf315bc..f74a921 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -30,11 +30,11 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     type_(type) {}
 
 std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
+    auto c         = CodecFactory::instance().build<SameByteOrder>(name_, type_);
+    c->hasMissing_ = hasMissing_;
+    c->missingValue(missingValue_);  // n.b. some codecs keep it in another form too
+    c->min_ = min_;
+    c->max_ = max_;
     return c;
 }
 
diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..e76e958 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -212,9 +212,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // ... and which value is missing
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING)
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 04b2edc..0fc87c2 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -24,9 +24,9 @@ namespace core {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-MetaData::MetaData() : std::vector<Column*>(), rowsNumber_(0) {}
-MetaData::MetaData(int i) : std::vector<Column*>(i), rowsNumber_(0) {}
-MetaData::MetaData(int i, Column* p) : std::vector<Column*>(i, p), rowsNumber_(0) {}
+MetaData::MetaData() : std::vector<Column*>(), rowsNumber_(0), dataSize_(0) {}
+MetaData::MetaData(int i) : std::vector<Column*>(i), rowsNumber_(0), dataSize_(0) {}
+MetaData::MetaData(int i, Column* p) : std::vector<Column*>(i, p), rowsNumber_(0), dataSize_(0) {}
 
 // SDS: n.b. this is changed from before. We
 MetaData::MetaData(const MetaData& md) : std::vector<Column*>(0), rowsNumber_(md.rowsNumber_), dataSize_(md.dataSize_) {
@@ -140,6 +140,9 @@ MetaData& MetaData::operator=(const MetaData& other) {
     for (size_type i = 0; i < size(); i++)
         *(*this)[i] = *other[i];
 
+    rowsNumber_ = other.rowsNumber_;
+    dataSize_   = other.dataSize_;
+
     return *this;
 }
 
@@ -215,6 +218,16 @@ bool MetaData::operator==(const MetaData& other) const {
     return equals(other);
 }
 
+bool MetaData::equalMissingValues(const MetaData& other) const {
+    ASSERT(size() == other.size());
+    for (size_t i = 0; i < size(); ++i) {
+        if (at(i)->type() != STRING && at(i)->rawMissingValue() != other[i]->rawMissingValue()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool MetaData::equals(const MetaData& other, bool compareDataSizes) const {
     if (size() != other.size()) {
         return false;
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..03c8dd6 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -54,6 +54,9 @@ public:
     bool operator==(const MetaData&) const;
     bool equals(const MetaData& md, bool compareDataSizes = true) const;
 
+    /// Whether the same values are missing in the columns of both (which need to be equal)
+    bool equalMissingValues(const MetaData& md) const;
+
     bool equalsIncludingConstants(const MetaData&, const std::vector<std::string>& constColumns) const;
 
     bool operator!=(const MetaData& other) const { return !(*this == other); }
-- 
2.43.0


From d1936f96fa013090d5cab793a436681000de686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 45/52] fix: merge whole strings, and only rows that fit the
 columns of the output

Only the first eight characters of a string were merged, the columns of an input
that changes its layout were mixed up, and -S read past the end of the parameters.
---
 src/odc/tools/MergeTool.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..71f9db1 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -53,6 +53,8 @@ MergeTool::MergeTool(int ac, char* av[]) : Tool(ac, av), inputFiles_(), sql_(),
     for (size_t i = 1; i < parameters().size(); ++i) {
         inputFiles_.push_back(PathName(parameters()[i]));
         if (sqlFiltering_) {
+            if (i + 1 == parameters().size())
+                throw UserError("Input file '" + parameters(i) + "' is not followed by an SQL select (option -S)");
             std::string s(parameters()[++i]);
             sql_.push_back(StringTool::isSelectStatement(s) ? s : StringTool::readFile(s));
         }
@@ -78,6 +80,7 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
     odc::Writer<> writer(outputFile);
     odc::Writer<>::iterator out(writer.begin());
 
+    std::vector<MetaData> layouts;
     for (size_t i = 0; i < iterators.size(); ++i) {
         MetaData columns(iterators[i].first->columns());
 
@@ -89,6 +92,7 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
         md += columns;
         out->columns(md);
         // out->columns() += columns;
+        layouts.push_back(columns);
     }
 
     out->writeHeader();
@@ -101,9 +105,23 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
             if (!(in != inEnd))
                 return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
+            if (in->isNewDataset() && !in->columns().equals(layouts[ii], false))
+                throw eckit::UserError("Columns change within an input file of merge.");
+
+            for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                const size_t width(in->columns()[cn]->dataSizeDoubles());
+                const size_t outWidth(out->columns()[i]->dataSizeDoubles());
+                if (width > outWidth)
+                    throw eckit::UserError("Column '" + in->columns()[cn]->name() +
+                                           "' gets wider within an input file of merge.");
+
+                const double* src(&in->data(cn));
+                double* dst(&out->data(i));
+                std::copy(src, src + width, dst);
+                std::fill(dst + width, dst + outWidth, 0);
+                if (out->columns()[i]->type() != odc::api::STRING && in->isMissing(cn))
+                    *dst = out->missingValue(i);
             }
             ++in;
         }
-- 
2.43.0


From 558bf88cf1df300b3685a6fabe1428081f31cbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 46/52] fix: odc set must use the place of a column in the row,
 not its number

---
 src/odc/ODAUpdatingIterator.cc | 39 +++++++++++++++++++++++++---------
 src/odc/ODAUpdatingIterator.h  |  4 +++-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..925f4d6 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -23,32 +23,48 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ii_(ii),
     end_(end),
     columns_(columns),
-    columnIndices_(columns.size()),
+    columnOffsets_(columns.size()),
+    columnSizes_(columns.size()),
     values_(values),
     data_(0),
+    rowDataSizeDoubles_(0),
     refCount_(0),
     noMore_(false) {
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
-    update();
+    if (ii_ != end_) {
+        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
+        update();
+    }
 }
 
 template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. A string may take more than one double
+    std::vector<size_t> offsets(md.size());
+    rowDataSizeDoubles_ = 0;
+    for (size_t i = 0; i < md.size(); ++i) {
+        offsets[i] = rowDataSizeDoubles_;
+        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();
+    }
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = 0;
+    data_ = new double[rowDataSizeDoubles_];
 
-    for (size_t i = 0; i < columns_.size(); ++i)
-        columnIndices_[i] = md.columnIndex(columns_[i]);
+    for (size_t i = 0; i < columns_.size(); ++i) {
+        const size_t index = md.columnIndex(columns_[i]);
+        columnOffsets_[i]  = offsets[index];
+        columnSizes_[i]    = md[index]->dataSizeDoubles();
+    }
 }
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), values_(), data_(0), rowDataSizeDoubles_(0), refCount_(0), noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +73,11 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnOffsets_.size(); ++i) {
+        double* value = data_ + columnOffsets_[i];
+        *value        = values_[i];
+        std::fill(value + 1, value + columnSizes_[i], 0);
+    }
 }
 
 template <typename T>
@@ -76,7 +95,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..1370f06 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -64,10 +64,12 @@ private:
     const T& end_;
 
     std::vector<std::string> columns_;
-    std::vector<size_t> columnIndices_;
+    std::vector<size_t> columnOffsets_;
+    std::vector<size_t> columnSizes_;
     const std::vector<double> values_;
 
     double* data_;
+    size_t rowDataSizeDoubles_;
 
 public:
 
-- 
2.43.0


From d433332bd9f0026f3df86a0b521835a0eaabd6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 47/52] fix: odc mdset must split a bitfield definition off at
 the first colon

---
 src/odc/tools/MDSetTool.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index add1e83..0fd7431 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -77,10 +77,12 @@ void MDSetTool::run() {
             Column& c(*md[md.columnIndex(columns[i])]);
             Log::info() << "" << columns[i] << ": " << c << endl;
 
-            if (types[i].size() && types[i] != "NONE")
-                c.type(Column::type(types[i]));
-            if (bitfieldDefs[i].first.size())
+            if (bitfieldDefs[i].first.size()) {
+                c.type(api::BITFIELD);
                 c.bitfieldDef(bitfieldDefs[i]);
+            }
+            else if (types[i].size() && types[i] != "NONE")
+                c.type(Column::type(types[i]));
             if (values[i].size() && values[i] != "NONE") {
                 Codec& codec(c.coder());
                 if (codec.name().find("constant") == std::string::npos) {
@@ -132,15 +134,19 @@ void MDSetTool::parseUpdateList(const std::string& s, std::vector<std::string>&
     for (size_t i = 0; i < assignments.size(); ++i) {
         vector<string> assignment(S::split("=", assignments[i]));
         string value(assignment.size() == 2 ? assignment[1] : "NONE");
-        vector<string> columnNameAndType(S::split(":", assignment[0]));
-        string type(columnNameAndType.size() == 2 ? columnNameAndType[1] : "NONE");
-        string column(columnNameAndType[0]);
+        // n.b. The definition of a bitfield has colons, too
+        const size_t colon(assignment[0].find(':'));
+        string type(colon != string::npos && colon + 1 < assignment[0].size() ? assignment[0].substr(colon + 1)
+                                                                              : "NONE");
+        string column(assignment[0].substr(0, colon));
 
         eckit::sql::BitfieldDef bf;
         if (type.size() && type[0] == '[' && type[type.size() - 1] == ']') {
             std::vector<std::string> parts(StringTools::split(";", type.substr(1, type.size() - 2)));
             for (size_t p = 0; p < parts.size(); ++p) {
                 std::vector<std::string> field(S::split(":", parts[p]));
+                if (field.size() != 2)
+                    throw UserError("Expected a field of the form <name>:<size>, got '" + parts[p] + "'");
                 bf.first.push_back(field[0]);
                 bf.second.push_back(atoi(field[1].c_str()));
             }
-- 
2.43.0


From 6a3772d27d85597243daa12c19c7131429012eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 48/52] fix: throw the exception for an unknown type by value

---
 src/odc/tools/ODAHeaderTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/ODAHeaderTool.cc b/src/odc/tools/ODAHeaderTool.cc
index b743cf4..3014677 100644
--- a/src/odc/tools/ODAHeaderTool.cc
+++ b/src/odc/tools/ODAHeaderTool.cc
@@ -88,7 +88,7 @@ public:
             case DOUBLE:
                 return "DOUBLE";
             default:
-                throw new Exception("unknown type");
+                throw Exception("unknown type");
         }
     }
 
-- 
2.43.0


From d0a3b52f3b19d34e2e9196fc129a91ef45427f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 49/52] fix: odc xyv must write the longitude first, as its
 header says

---
 src/odc/tools/XYVTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/XYVTool.cc b/src/odc/tools/XYVTool.cc
index f32966e..16521b0 100644
--- a/src/odc/tools/XYVTool.cc
+++ b/src/odc/tools/XYVTool.cc
@@ -50,7 +50,7 @@ void XYVTool::run() {
     out << "x/long	y/lat	value" << std::endl;
     out << "#DATA" << std::endl << std::endl;
 
-    std::string select = std::string("select lat, lon, ") + valueColumn + " from \"" + inputFile + "\";";
+    std::string select = std::string("select lon, lat, ") + valueColumn + " from \"" + inputFile + "\";";
     Log::info() << select << std::endl;
 
     odc::Select oda(select);
-- 
2.43.0


From 452afbbba2667bd9549e6e4628ff77acb05fc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 50/52] fix: odc sql must respect -length without -offset, and
 -offset without -length

---
 src/odc/tools/SQLTool.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..cb0fd20 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -13,6 +13,7 @@
 #include <ostream>
 
 #include "eckit/exception/Exceptions.h"
+#include "eckit/filesystem/PathName.h"
 #include "eckit/io/FileDescHandle.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/io/Length.h"
@@ -123,11 +124,13 @@ void SQLTool::run() {
             NOTIMP;  // Is this working?
             /// parser.parseString(session, sql, &fh, config);
         }
-        else if (offset_ == eckit::Offset(0)) {
+        else if (!optionIsSet("-offset") && !optionIsSet("-length")) {
             implicitTableDH.reset(new FileHandle(inputFile_));
         }
         else {
-            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length_));
+            const eckit::Length length =
+                optionIsSet("-length") ? length_ : eckit::Length(PathName(inputFile_).size() - offset_);
+            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length));
         }
 
         implicitTableDH->openForRead();
-- 
2.43.0


From 0cc00d24e74917a85e519ea0bab9b21e09c7f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:16 +0000
Subject: [PATCH 51/52] fix: copy the arguments of a command line parser

---
 src/odc/CommandLineParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/CommandLineParser.cc b/src/odc/CommandLineParser.cc
index 2a7dfe2..2958fd3 100644
--- a/src/odc/CommandLineParser.cc
+++ b/src/odc/CommandLineParser.cc
@@ -35,6 +35,8 @@ CommandLineParser::CommandLineParser(int argc, char** argv) :
 CommandLineParser::CommandLineParser(const CommandLineParser& other) {
     CommandLineParser& self = *this;
 
+    self.argc_                           = other.argc_;
+    self.argv_                           = other.argv_;
     self.registeredOptionsWithArguments_ = other.registeredOptionsWithArguments_;
     self.parameters_                     = const_cast<CommandLineParser&>(other).parameters();
     self.optionsWithArguments_           = other.optionsWithArguments_;
@@ -50,6 +52,8 @@ CommandLineParser& CommandLineParser::operator=(const CommandLineParser& other)
 
     CommandLineParser& self = *this;
 
+    self.argc_                           = other.argc_;
+    self.argv_                           = other.argv_;
     self.registeredOptionsWithArguments_ = other.registeredOptionsWithArguments_;
     self.parameters_                     = const_cast<CommandLineParser&>(other).parameters();
     self.optionsWithArguments_           = other.optionsWithArguments_;
-- 
2.43.0


From 329eb3e31049f227d08b6a86e4121ad279ccaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:20 +0000
Subject: [PATCH 52/52] fix: odc index opens its data twice, which always fails

---
 src/odc/Indexer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..da148cb 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -77,7 +77,6 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Length blockLength(offsets[i].second);
 
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
         AutoClose closer(h);
 
         int prevSeqno(-1);
-- 
2.43.0

