From 9dc2a19ed00753bb8905eee87a76c492015aa1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 01/75] fix: do not encode a floating point column that
 contains NaN as a constant

Codec::gatherStats leaves min/max untouched for NaN values, so a REAL or DOUBLE
column such as [1.0, NaN] had min == max and was encoded with a constant codec,
silently replacing the NaN with the constant.
---
 src/odc/codec/CodecOptimizer.h | 10 +++++++---
 src/odc/codec/Real.h           |  7 ++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 24b841c..6cc6e21 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -60,7 +60,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
                 ASSERT(codec_long != 0);
 
-                if (max == min) {
+                if (max == min && !codec_long->hasNaN()) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
@@ -82,8 +82,11 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 break;
             }
 
-            case api::DOUBLE:
-                if (max == min)
+            case api::DOUBLE: {
+                CodecLongReal<core::SameByteOrder>* codec_long =
+                    dynamic_cast<CodecLongReal<core::SameByteOrder>*>(&col.coder());
+
+                if (max == min && !(codec_long && codec_long->hasNaN()))
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));
                 col.hasMissing(hasMissing);
@@ -94,6 +97,7 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                 //         << ">. Codec: "  << col.coder()
                 //         << std::endl;
                 break;
+            }
 
             case api::STRING: {
                 n = col.coder().numStrings();
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 776d162..938fe73 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -37,12 +37,14 @@ public:  // methods
     CodecLongReal(api::ColumnType type) :
         core::DataStreamCodec<ByteOrder>(codec_name(), type),
         hasShortRealInternalMissing_(false),
-        hasShortReal2InternalMissing_(false) {}
+        hasShortReal2InternalMissing_(false),
+        hasNaN_(false) {}
 
     ~CodecLongReal() override {}
 
     bool hasShortRealInternalMissing() const { return hasShortRealInternalMissing_; }
     bool hasShortReal2InternalMissing() const { return hasShortReal2InternalMissing_; }
+    bool hasNaN() const { return hasNaN_; }
 
 private:  // methods
 
@@ -67,12 +69,15 @@ private:  // methods
             hasShortRealInternalMissing_ = true;
         if (v == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
+        if (v != v)
+            hasNaN_ = true;
     }
 
 private:  // members
 
     bool hasShortRealInternalMissing_;
     bool hasShortReal2InternalMissing_;
+    bool hasNaN_;  // NaNs do not contribute to min/max, so a column with NaNs is not constant even if max == min
 };
 
 
-- 
2.43.0


From bdb57faa30a416cbd5d6947075d4184c3e1baa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 02/75] fix: detect the real short_real2 internal missing value
 when choosing REAL codecs

The short_real2 codec reserves -FLT_MAX, but the statistics looked for +FLT_MAX
(and compared before rounding to single precision). Columns holding -FLT_MAX, or
+FLT_MAX together with FLT_MIN, could not be encoded at all. If both reserved
values occur, store the column with long_real.
---
 src/odc/codec/CodecOptimizer.h | 4 ++--
 src/odc/codec/Real.h           | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/odc/codec/CodecOptimizer.h b/src/odc/codec/CodecOptimizer.h
index 6cc6e21..c0d9408 100644
--- a/src/odc/codec/CodecOptimizer.h
+++ b/src/odc/codec/CodecOptimizer.h
@@ -64,8 +64,8 @@ int CodecOptimizer::setOptimalCodecs(core::MetaData& columns) {
                     codec = col.hasMissing() ? "real_constant_or_missing" : "constant";
                 }
                 else if (codec_long->hasShortReal2InternalMissing()) {
-                    ASSERT(!codec_long->hasShortRealInternalMissing());
-                    codec = "short_real";
+                    // If the data contains both of the internal missing values, neither short codec can represent it
+                    codec = codec_long->hasShortRealInternalMissing() ? "long_real" : "short_real";
                 }
                 else if (codec_long->hasShortRealInternalMissing()) {
                     codec = "short_real2";
diff --git a/src/odc/codec/Real.h b/src/odc/codec/Real.h
index 938fe73..548be94 100644
--- a/src/odc/codec/Real.h
+++ b/src/odc/codec/Real.h
@@ -63,11 +63,13 @@ private:  // methods
     void gatherStats(const double& v) override {
         core::Codec::gatherStats(v);
 
+        // n.b. Compare with the value that would be stored by the short codecs, i.e. after rounding
         float realInternalMissing  = reinterpret_cast<const float&>(minFloatAsInt);
-        float realInternalMissing2 = reinterpret_cast<const float&>(maxFloatAsInt);
-        if (v == realInternalMissing)
+        float realInternalMissing2 = reinterpret_cast<const float&>(real2MissingAsInt);
+        float s                    = static_cast<float>(v);
+        if (s == realInternalMissing)
             hasShortRealInternalMissing_ = true;
-        if (v == realInternalMissing2)
+        if (s == realInternalMissing2)
             hasShortReal2InternalMissing_ = true;
         if (v != v)
             hasNaN_ = true;
-- 
2.43.0


From 4d8dbf876df110455e0c7879aff75317628d392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 03/75] fix: compare string bytes, not doubles, when cloning
 string codecs

The min/max of a string codec hold the first bytes of a string. If these happen to be the
bit pattern of a NaN, the comparison in CodecChars::clone failed, and the data could be
written but not read through the API.
---
 src/odc/codec/String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 5a5b71a..822c3b2 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -300,8 +300,9 @@ std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
     c.decodedSizeDoubles_            = decodedSizeDoubles_;
-    ASSERT(c.min() == this->min_);
-    ASSERT(c.max() == this->max_);
+    // n.b. These hold the bytes of a string, which may be those of a NaN --> compare bytes rather than values
+    ASSERT(::memcmp(&c.min_, &this->min_, sizeof(c.min_)) == 0);
+    ASSERT(::memcmp(&c.max_, &this->max_, sizeof(c.max_)) == 0);
     return cdc;
 }
 
-- 
2.43.0


From cae7eeb9bce8d046869c3c2cd9813fde76bbe904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 04/75] fix: decoded size of an empty long constant string

For an empty string, (length - 1) underflows, giving a decoded size of 2^61 doubles.
---
 src/odc/codec/Constant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 31d3d83..3c9fd8e 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -194,7 +194,7 @@ void CodecLongConstantString<ByteOrder>::load(core::DataStream<ByteOrder>& ds) {
     core::DataStreamCodec<ByteOrder>::load(ds);
     std::string s;
     ds.read(s);
-    this->decodedSizeDoubles_ = ((s.length() - 1) / sizeof(double)) + 1;
+    this->decodedSizeDoubles_ = s.empty() ? 1 : ((s.length() - 1) / sizeof(double)) + 1;
     this->strings_.push_back(s);
 }
 
-- 
2.43.0


From 3bbee4e8fddedd57369723253c5fba381b5a1106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 05/75] fix: retain the byte order when cloning codecs

The tables in a Frame are copies of those in the reader, and the codecs are cloned in the process.
As the clones always had the native byte order, data in the other byte order could not be decoded
through the API (SeriousBug: Mismatched byte order between DataStream and Codec).
---
 src/odc/codec/String.h |  2 +-
 src/odc/core/Codec.cc  | 12 +++++-------
 src/odc/core/Codec.h   | 16 +++++++++++++++-
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 822c3b2..3389a28 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -295,7 +295,7 @@ void CodecChars<ByteOrder>::save(core::DataStream<ByteOrder>& ds) {
 template <typename ByteOrder>
 std::unique_ptr<core::Codec> CodecChars<ByteOrder>::clone() {
 
-    std::unique_ptr<core::Codec> cdc = core::Codec::clone();
+    std::unique_ptr<core::Codec> cdc = core::DataStreamCodec<ByteOrder>::clone();
     auto& c                          = static_cast<CodecChars&>(*cdc);
     c.stringLookup_                  = stringLookup_;
     c.strings_                       = strings_;
diff --git a/src/odc/core/Codec.cc b/src/odc/core/Codec.cc
index 303e550..e966d09 100644
--- a/src/odc/core/Codec.cc
+++ b/src/odc/core/Codec.cc
@@ -29,13 +29,11 @@ Codec::Codec(const std::string& name, api::ColumnType type) :
     max_(missingValue_),
     type_(type) {}
 
-std::unique_ptr<Codec> Codec::clone() {
-    auto c           = CodecFactory::instance().build<SameByteOrder>(name_, type_);
-    c->hasMissing_   = hasMissing_;
-    c->missingValue_ = missingValue_;
-    c->min_          = min_;
-    c->max_          = max_;
-    return c;
+void Codec::copyStats(const Codec& rhs) {
+    hasMissing_   = rhs.hasMissing_;
+    missingValue_ = rhs.missingValue_;
+    min_          = rhs.min_;
+    max_          = rhs.max_;
 }
 
 Codec::~Codec() {}
diff --git a/src/odc/core/Codec.h b/src/odc/core/Codec.h
index 108c711..f60d65a 100644
--- a/src/odc/core/Codec.h
+++ b/src/odc/core/Codec.h
@@ -38,7 +38,7 @@ public:
 
     /// Creates a clone of this codec. NOTE: the clone is not really usefull for coding/decoding, but has the same
     /// stats/missing values as the original codec, which can be useful sometimes.
-    virtual std::unique_ptr<Codec> clone();
+    virtual std::unique_ptr<Codec> clone() = 0;
 
     const std::string& name() const { return name_; }
 
@@ -89,6 +89,10 @@ public:
             throw eckit::SeriousBug("Data size cannot be changed from 1x8 bytes", Here());
     }
 
+protected:  // methods
+
+    void copyStats(const Codec& rhs);
+
 private:  // methods
 
     virtual void print(std::ostream& s) const;
@@ -132,6 +136,9 @@ public:  // methods
 
     DataStreamCodec(const std::string& name, api::ColumnType type) : Codec(name, type), ds_(0) {}
 
+    /// n.b. The clone must retain the byte order of the data it has been constructed for.
+    std::unique_ptr<Codec> clone() override;
+
     using Codec::setDataStream;
     void setDataStream(DataStream<ByteOrder>& ds) override { ds_ = &ds; }
     void clearDataStream() override { ds_ = 0; }
@@ -167,6 +174,13 @@ protected:
     DataStream<ByteOrder>* ds_;
 };
 
+template <typename ByteOrder>
+std::unique_ptr<Codec> DataStreamCodec<ByteOrder>::clone() {
+    auto c = CodecFactory::instance().build<ByteOrder>(name_, type_);
+    static_cast<DataStreamCodec<ByteOrder>&>(*c).copyStats(*this);
+    return c;
+}
+
 
 //----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 21178fd5b24c4faef881594ce81106d95e1f763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 06/75] fix: retain the missing value when cloning integer
 codecs

The copy of the missing value in the type of the codec was left at its default in the clone, so the
first row of data that does not start at column zero was filled with the wrong missing value.
---
 src/odc/codec/Integer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/codec/Integer.h b/src/odc/codec/Integer.h
index 683f172..48a1e05 100644
--- a/src/odc/codec/Integer.h
+++ b/src/odc/codec/Integer.h
@@ -45,6 +45,14 @@ public:  // methods
 
     ~BaseCodecInteger() override {}
 
+protected:  // methods
+
+    std::unique_ptr<core::Codec> clone() override {
+        std::unique_ptr<core::Codec> cdc = core::DataStreamCodec<ByteOrder>::clone();
+        static_cast<BaseCodecInteger&>(*cdc).castedMissingValue_ = castedMissingValue_;
+        return cdc;
+    }
+
 private:  // methods
 
     void missingValue(double v) override {
-- 
2.43.0


From 1e4adb040df065b432a349cda38eac62f1c24b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 07/75] fix: missing value of constant columns decoded as
 integers

The other integer codecs return the missing value as it would be decoded (i.e. the bits of an
int64_t if integers are not treated as doubles), but CodecConstant returned it as a double.
---
 src/odc/codec/Constant.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/odc/codec/Constant.h b/src/odc/codec/Constant.h
index 3c9fd8e..93089f3 100644
--- a/src/odc/codec/Constant.h
+++ b/src/odc/codec/Constant.h
@@ -41,6 +41,9 @@ public:  // methods
 
 private:  // methods
 
+    using core::DataStreamCodec<ByteOrder>::missingValue;
+    double missingValue() const override;
+
     void gatherStats(const double& v) override;
     unsigned char* encode(unsigned char* p, const double& d) override;
     void decode(double* out) override;
@@ -101,6 +104,16 @@ private:  // methods
 
 // Implementation of Constant
 
+// n.b. As for the other codecs, the missing value is (bitwise) what would be decoded for a missing value
+template <typename ByteOrder, typename ValueType>
+double CodecConstant<ByteOrder, ValueType>::missingValue() const {
+    static_assert(sizeof(ValueType) == sizeof(double), "unsafe casting check");
+    const ValueType val = static_cast<ValueType>(this->missingValue_);
+    double ret;
+    ::memcpy(&ret, &val, sizeof(ret));
+    return ret;
+}
+
 template <typename ByteOrder, typename ValueType>
 void CodecConstant<ByteOrder, ValueType>::gatherStats(const double& v) {
     static_assert(sizeof(ValueType) == sizeof(v), "unsafe casting check");
-- 
2.43.0


From 2cc8d771f7a582bd7a06a800510052bc5df43e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 08/75] fix: report a short read of frame data

---
 src/odc/core/Table.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4f85a1b..4d54509 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -75,13 +75,17 @@ Buffer Table::readEncodedData(bool includeHeader) {
     if (includeHeader) {
         Buffer data(nextPosition() - startPosition());
         dh_.seek(startPosition());
-        dh_.read(data, nextPosition() - startPosition());
+        long len = nextPosition() - startPosition();
+        if (dh_.read(data, len) != len)
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
     else {
         Buffer data(dataSize_);
         dh_.seek(dataPosition_);
-        dh_.read(data, dataSize_);
+        long len = dataSize_;
+        if (dh_.read(data, len) != len)
+            throw ODBIncomplete(dh_.title(), Here());
         return data;
     }
 }
-- 
2.43.0


From d3615b9814a8a2837fdd10a4e0a034bd09dfd81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 09/75] fix: decode an aggregated frame also when zero threads
 are requested

---
 src/odc/api/Odb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 86c282b..309fb82 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -364,7 +364,7 @@ void FrameImpl::decode(DecoderImpl& target, size_t nthreads) {
         for (core::Table& t : tables_) {
             size_t rows = t.rowCount();
             core::DecodeTarget&& subTarget(target.slice(rowOffset, rows));
-            if (nthreads == 1) {
+            if (nthreads <= 1) {
                 t.decode(subTarget);
             }
             else {
-- 
2.43.0


From a7cda861dc52a1fa419ef59473ed5bf1ddc1b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 10/75] fix: initialise the whole row buffer of ReaderIterator

A wide string omitted from the first row of a table left the tail of its cell
uninitialised.
---
 src/odc/ReaderIterator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index a4406cd..2e302a1 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/io/DataHandle.h"
 #include "eckit/log/Log.h"
 
@@ -152,6 +154,7 @@ void ReaderIterator::initRowBuffer() {
 
     delete[] lastValues_;
     lastValues_ = new double[numDoubles];
+    ::memset(lastValues_, 0, numDoubles * sizeof(double));
 
     codecs_.clear();
     codecs_.resize(nCols, 0);
-- 
2.43.0


From 6ee1b526c651d0f1e645a3f13035fbe40589e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 11/75] fix: initialise the tail of wide strings omitted from
 the first row

Table::decode only set the first 8 bytes of such a cell.
---
 src/odc/core/Table.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 4d54509..ee5111f 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -11,6 +11,7 @@
 #include "odc/core/Table.h"
 
 #include <bitset>
+#include <cstring>
 #include <functional>
 
 #include "eckit/io/AutoCloser.h"
@@ -189,6 +190,8 @@ void Table::decode(DecodeTarget& target) {
 
     for (int col = 0; col < long(ncols); col++) {
         if (visitColumn[col]) {
+            // n.b. the tail of strings longer than 8 characters is initialised as well
+            ::memset((*facades[col])[0], 0, metadata[col]->dataSizeDoubles() * sizeof(double));
             *reinterpret_cast<double*>((*facades[col])[0]) = decoders[col].get().missingValue();
         }
     }
-- 
2.43.0


From 66fb11137540f24b272254860ac73ca6c6299154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 12/75] fix: Writer::rowsBufferSize(n) did not return a value

---
 src/odc/Writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/Writer.h b/src/odc/Writer.h
index 8bb16d3..d35cd4f 100644
--- a/src/odc/Writer.h
+++ b/src/odc/Writer.h
@@ -54,7 +54,10 @@ public:
     ITERATOR* createWriteIterator(eckit::PathName, bool append = false);
 
     unsigned long rowsBufferSize() { return rowsBufferSize_; }
-    Writer& rowsBufferSize(unsigned long n) { rowsBufferSize_ = n; }
+    Writer& rowsBufferSize(unsigned long n) {
+        rowsBufferSize_ = n;
+        return *this;
+    }
 
     const eckit::PathName path() { return path_; }
 
-- 
2.43.0


From ba2cf9fdc1db8811568c5406511a813979f37174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 13/75] fix: keep the missing value of a column when its codec
 is reset

A writer lost a missing value set by the user after the first buffer of rows
(and when copying rows of another file).
---
 src/odc/core/Column.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Column.h b/src/odc/core/Column.h
index 2312dda..c03384c 100644
--- a/src/odc/core/Column.h
+++ b/src/odc/core/Column.h
@@ -212,9 +212,12 @@ void Column::type(api::ColumnType t) {
 
 template <typename ByteOrder>
 void Column::resetCodec() {
-    int ds = dataSizeDoubles();  // Preserve byte size (part of type information)
+    int ds         = dataSizeDoubles();  // Preserve byte size (part of type information)
+    double missing = rawMissingValue();  // Preserve the missing value, which may not be the default one
     type<ByteOrder>(static_cast<api::ColumnType>(type_));
     dataSizeDoubles(ds);
+    if (type_ != api::STRING)
+        missingValue(missing);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 1021d444a04b67ae506b5c7965c903955098f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 14/75] fix: flushing the rows buffer must not touch the row
 under construction

Cells not set again for the next row went back to missing when the buffer
happened to be full, and pointers obtained from data() dangled.
---
 src/odc/WriterBufferingIterator.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index eb0e8e4..1a04170 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -320,6 +320,16 @@ void WriterBufferingIterator::flush() {
 
     setOptimalCodecs();
 
+    // Encoding (re)starts from a row of missing values.
+    // n.b. The row under construction (nextRow_) is not touched. Its content does not depend on when we flush.
+
+    if (lastValues_ != 0) {
+        ::memset(lastValues_, 0, rowDataSizeDoubles() * sizeof(double));
+        for (size_t i = 0; i < columns().size(); ++i)
+            lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
+    }
+    nrows_ = 0;
+
     // n.b. ensure that we leave space for the header in the worst case (data doesn't compress at all)
     Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsBufferSize_));
     core::DataStream<core::SameByteOrder> encodedStream(encodedBuffer);
@@ -334,9 +344,6 @@ void WriterBufferingIterator::flush() {
         ++rowsWritten;
     }
 
-    // Clean up storage buffers for row data
-    allocBuffers();
-
     std::pair<Buffer, size_t> encodedHeader = serializeHeader(encodedStream.position(), rowsWritten);
     ASSERT(encodedHeader.second <= encodedHeader.first.size());
 
-- 
2.43.0


From b9173ec14429e91a4b29aec0492b05ba7cd4480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 15/75] fix: NaN values must not corrupt the sets of values of
 a span

Inserting NaN in a std::set breaks its ordering: other values were lost or
repeated.
---
 src/odc/core/Span.cc  | 8 +++++++-
 src/odc/core/Table.cc | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Span.cc b/src/odc/core/Span.cc
index 5f4a80d..5f3629f 100644
--- a/src/odc/core/Span.cc
+++ b/src/odc/core/Span.cc
@@ -10,6 +10,7 @@
 
 #include "odc/core/Span.h"
 
+#include <cmath>
 #include <cstring>
 
 #include "eckit/exception/Exceptions.h"
@@ -60,7 +61,12 @@ void Span::addValue(const std::string& column, api::ColumnType t, double val) {
         case api::DOUBLE:
             ASSERT(integerValues_.find(column) == integerValues_.end());
             ASSERT(stringValues_.find(column) == stringValues_.end());
-            realValues_[column].insert(val);
+            if (!std::isnan(val)) {  // NaN has no place in an ordered set
+                realValues_[column].insert(val);
+            }
+            else {
+                realValues_[column];
+            }
             break;
 
         case api::STRING: {
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index ee5111f..a690ad9 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -11,6 +11,7 @@
 #include "odc/core/Table.h"
 
 #include <bitset>
+#include <cmath>
 #include <cstring>
 #include <functional>
 
@@ -319,7 +320,10 @@ struct IntegerColumnValues : ColumnValues<long> {
 
 struct DoubleColumnValues : ColumnValues<double> {
     using ColumnValues<double>::ColumnValues;
-    void addValue(double* val) override { values_.insert(*val); }
+    void addValue(double* val) override {
+        if (!std::isnan(*val))  // NaN has no place in an ordered set
+            values_.insert(*val);
+    }
 };
 
 struct StringColumnValues : ColumnValues<std::string> {
-- 
2.43.0


From 197f137c0bd48a7e325733186dff1b9708d7c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 16/75] fix: span of a long constant string column

Only the bits of the (unused) minimum were reported, not the string.
---
 src/odc/core/Table.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index a690ad9..ed83eee 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -259,7 +259,16 @@ Span Table::span(const std::vector<std::string>& columns, bool onlyConstants) {
             throw UserError("Column '" + columnName + "' not found", Here());
 
         if (column->isConstant()) {
-            s.addValue(columnName, column->type(), column->min());
+            if (column->type() == api::STRING && column->dataSizeDoubles() > 1) {
+                // n.b. min() can only hold 8 characters
+                std::vector<double> val(column->dataSizeDoubles());
+                column->coder().decode(val.data());
+                const char* c = reinterpret_cast<const char*>(val.data());
+                s.addValues(columnName, std::set<std::string>{std::string(c, ::strnlen(c, sizeof(double) * val.size()))});
+            }
+            else {
+                s.addValue(columnName, column->type(), column->min());
+            }
         }
         else {
             nonConstantColumns.push_back(columnName);
-- 
2.43.0


From 01a62ae0a96d5092e835f9803e5377a56f630f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 17/75] fix: span includes the missing values of columns
 omitted by the first row

---
 src/odc/core/Table.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index ed83eee..22e65e1 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -10,6 +10,7 @@
 
 #include "odc/core/Table.h"
 
+#include <algorithm>
 #include <bitset>
 #include <cmath>
 #include <cstring>
@@ -427,6 +428,18 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
 
+        // As in decode(), columns that the first row doesn't contain are missing there
+
+        if (rowCount == 0) {
+            for (int col = 0; col < startCol && col < long(ncols); col++) {
+                if (visitColumn[col]) {
+                    std::fill(decodeBufferVec.begin(), decodeBufferVec.end(), 0);
+                    *decodeBuffer = decoders[col].get().missingValue();
+                    columnValues[col]->addValue(decodeBuffer);
+                }
+            }
+        }
+
         for (int col = startCol; col < long(ncols); col++) {
             if (visitColumn[col]) {
                 decoders[col].get().decode(decodeBuffer);
-- 
2.43.0


From aae9d48c4e4fae50913fa041285aa1f39ef07ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 18/75] fix: split dispatches on the columns' values wherever
 they are in the row

The key columns were looked up by column index in the row of data (wrong after
a string column wider than 8 bytes), and only the first 8 bytes of strings were
used. Values that gave the same file name opened the same file twice. Replacing
'/' in file names removed the characters after it as well.
---
 src/odc/WriterDispatchingIterator.cc | 60 +++++++++++++++++-----------
 src/odc/WriterDispatchingIterator.h  | 11 +++--
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index db163f4..e2654a3 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/log/Log.h"
 #include "eckit/log/Timer.h"
 #include "eckit/utils/Translator.h"
@@ -36,7 +38,7 @@ WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::WriterDispatchingIterator(OWNE
     outputFileTemplate_(owner_.outputFileTemplate()),
     properties_(),
     dispatchedIndexes_(),
-    values2iteratorIndex_(),
+    fileName2iteratorIndex_(),
     lastDispatch_(maxOpenFiles, -1),
     iteratorIndex2fileName_(maxOpenFiles),
     lastDispatchedValues_(),
@@ -89,14 +91,14 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
     // function is declared in an annonymos workspace the declaration is marked as unneeded and emits
     // a warning.
     //      TODO: Put somewhere better.
-    static const auto trimStringInDouble = [](char*& p, size_t& len) {
+    static const auto trimStringInDouble = [](const char*& p, size_t& len, size_t maxLen) {
         len = 0;
-        for (; len < sizeof(double) && isprint(p[len]); ++len)
+        for (; len < maxLen && isprint(p[len]); ++len)
             ;
         for (; len > 0 && isspace(p[len - 1]); --len)
             ;
         size_t plen = len;
-        for (char* pp = p; isspace(*p) && p < pp + plen;) {
+        for (const char* pp = p; isspace(*p) && p < pp + plen;) {
             ++p;
             --len;
         }
@@ -109,17 +111,17 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
         // TODO: if values collected can be of different type then integer,
         // then below code must be updated:
         // code updated for std::string [19/07/2011] AF
-        double d(values[p.columnIndex]);
+        const double& d(values[positionInRow(p.columnIndex)]);
         std::string s;
         if (columns_[p.columnIndex]->type() == api::STRING) {
-            char* sp(reinterpret_cast<char*>(&d));
+            const char* sp(reinterpret_cast<const char*>(&d));
             size_t len(0);
-            trimStringInDouble(sp, len);
+            trimStringInDouble(sp, len, columns_[p.columnIndex]->dataSizeDoubles() * sizeof(double));
             s = std::string(sp, len);
             while (s.find("/") != std::string::npos) {
                 std::string old(s);
                 size_t pos(s.find("/"));
-                s.replace(pos, pos + 1, std::string("__SLASH__"));
+                s.replace(pos, 1, std::string("__SLASH__"));
                 // eckit::Log::info() << "WriterDispatchingIterator::generateFileName: '" << old << "' => '" << s << "'"
                 // << std::endl;
             }
@@ -136,6 +138,14 @@ std::string WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::generateFileName(c
     return fileName;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+size_t WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::positionInRow(size_t columnIndex) const {
+    size_t position = 0;
+    for (size_t i = 0; i < columnIndex; ++i)
+        position += columns_[i]->dataSizeDoubles();
+    return position;
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 WRITE_ITERATOR& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatch(const double* values, unsigned long count) {
     return *iterators_[this->dispatchIndex(values, count)];
@@ -147,13 +157,15 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double
     for (size_t i(0); i < dispatchedIndexes_.size(); ++i)
         dispatchedValues.push_back(values[dispatchedIndexes_[i]]);
 
-    if (dispatchedValues == lastDispatchedValues_)
+    // n.b. Strings are dispatched on too. Compare the bytes, as their bits may be those of a NaN.
+    if (dispatchedValues.size() == lastDispatchedValues_.size() &&
+        ::memcmp(dispatchedValues.data(), lastDispatchedValues_.data(), dispatchedValues.size() * sizeof(double)) == 0)
         return lastIndex_;
 
-    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));
-    size_t iteratorIndex((p != values2iteratorIndex_.end())
-                             ? p->second
-                             : createIterator(dispatchedValues, generateFileName(values, count)));
+    // Different values may give the same file name. There must only be one iterator for each file.
+    std::string fileName(generateFileName(values, count));
+    FileName2IteratorIndex::iterator p(fileName2iteratorIndex_.find(fileName));
+    size_t iteratorIndex((p != fileName2iteratorIndex_.end()) ? p->second : createIterator(fileName));
 
     lastDispatchedValues_        = dispatchedValues;
     lastIndex_                   = iteratorIndex;
@@ -162,8 +174,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::dispatchIndex(const double
 }
 
 template <typename WRITE_ITERATOR, typename OWNER>
-int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Values& dispatchedValues,
-                                                                     const std::string& fileName) {
+int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::string& fileName) {
     int iteratorIndex(iterators_.size());
     if (iterators_.size() >= maxOpenFiles_) {
         ASSERT(iterators_.size());
@@ -185,11 +196,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         delete iterators_[iteratorIndex];
         iterators_[iteratorIndex] = 0;
 
-        Values2IteratorIndex::iterator vit(values2iteratorIndex_.begin());
-        for (; vit != values2iteratorIndex_.end(); ++vit)
-            if (vit->second == iteratorIndex)
-                break;
-        values2iteratorIndex_.erase(vit);
+        fileName2iteratorIndex_.erase(iteratorIndex2fileName_[iteratorIndex]);
     }
 
     std::string operation;
@@ -221,8 +228,8 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const Value
         files_[iteratorIndex]     = fileName;
         // ASSERT(files_[iteratorIndex] == fileName);
     }
-    values2iteratorIndex_[dispatchedValues] = iteratorIndex;
-    iteratorIndex2fileName_[iteratorIndex]  = fileName;
+    fileName2iteratorIndex_[fileName]      = iteratorIndex;
+    iteratorIndex2fileName_[iteratorIndex] = fileName;
 
     // Prop. metadata
     iterators_[iteratorIndex]->columns(columns());
@@ -295,8 +302,13 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::parseTemplateParameters()
         throw eckit::UserError(ss.str());
     }
     dispatchedIndexes_.clear();
-    for (size_t i(0); i < templateParameters_.size(); ++i)
-        dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);
+    lastDispatchedValues_.clear();
+    for (size_t i(0); i < templateParameters_.size(); ++i) {
+        size_t columnIndex = templateParameters_[i]->columnIndex;
+        size_t position    = positionInRow(columnIndex);
+        for (size_t j = 0; j < columns_[columnIndex]->dataSizeDoubles(); ++j)
+            dispatchedIndexes_.push_back(position + j);
+    }
     initialized_ = true;
 }
 
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index 82c2f64..d222fef 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -39,7 +39,7 @@ class TemplateParameters;
 template <typename WRITE_ITERATOR, typename OWNER>
 class WriterDispatchingIterator {
     typedef std::vector<double> Values;
-    typedef std::map<Values, int> Values2IteratorIndex;
+    typedef std::map<std::string, int> FileName2IteratorIndex;
     typedef std::vector<WRITE_ITERATOR*> Iterators;
 
 public:
@@ -107,10 +107,13 @@ protected:
     /// Find iterator data should be dispatched to.
     WRITE_ITERATOR& dispatch(const double* values, unsigned long count);
     int dispatchIndex(const double* values, unsigned long count);
-    int createIterator(const Values& dispatchedValues, const std::string& fileName);
+    int createIterator(const std::string& fileName);
 
     std::string generateFileName(const double* values, unsigned long count);
 
+    /// The position of a column in a row of data (before writeHeader has been called)
+    size_t positionInRow(size_t columnIndex) const;
+
     OWNER& owner_;
     Writer<WRITE_ITERATOR> iteratorsOwner_;
     core::MetaData columns_;
@@ -122,8 +125,8 @@ protected:
 
     core::Properties properties_;
 
-    std::vector<int> dispatchedIndexes_;
-    Values2IteratorIndex values2iteratorIndex_;
+    std::vector<size_t> dispatchedIndexes_;  // positions in a row of data, not column indexes
+    FileName2IteratorIndex fileName2iteratorIndex_;
     std::vector<unsigned long long> lastDispatch_;
     std::vector<std::string> iteratorIndex2fileName_;
 
-- 
2.43.0


From 79f2c31d544f4ea76afc691a519dc02fc230b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 19/75] fix: split appends only to the files it has created
 itself

Once any file had been reopened, all files created afterwards were appended to,
including files left over from an earlier run.
---
 src/odc/WriterDispatchingIterator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index e2654a3..f08f2db 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -200,7 +200,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::
     }
 
     std::string operation;
-    // bool append = false;
+    bool append = append_;
     if (append_ || !eckit::PathName(fileName).exists()) {
         filesCreated_[fileName] = 1;
         operation               = "creating";
@@ -211,7 +211,7 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::
             operation               = "overwriting";
         }
         else {
-            append_ = true;
+            append = true;
             filesCreated_[fileName]++;
             operation = "appending";
         }
@@ -220,11 +220,11 @@ int WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::createIterator(const std::
     LOG_DEBUG_LIB(LibOdc) << iteratorIndex << ": " << operation << " '" << fileName << "'" << std::endl;
 
     if (iteratorIndex == iterators_.size()) {
-        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append_));
+        iterators_.push_back(iteratorsOwner_.createWriteIterator(fileName, append));
         files_.push_back(fileName);
     }
     else {
-        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append_);
+        iterators_[iteratorIndex] = iteratorsOwner_.createWriteIterator(fileName, append);
         files_[iteratorIndex]     = fileName;
         // ASSERT(files_[iteratorIndex] == fileName);
     }
-- 
2.43.0


From bb93d40e44512b6ea5bd46c23afbdd272e48cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 20/75] fix: initial row of the dispatching writer with wide
 string columns

---
 src/odc/WriterDispatchingIterator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index f08f2db..d61a7f1 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -277,10 +277,13 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::writeHeader() {
     columnOffsets_ = new size_t[count];
     ASSERT(lastValues_);
 
+    ::memset(lastValues_, 0, numDoubles * sizeof(double));
+    ::memset(nextRow_, 0, numDoubles * sizeof(double));
+
     size_t offset = 0;
     for (int i(0); i < count; i++) {
-        nextRow_[i] = lastValues_[i] = columns_[i]->missingValue();
-        columnOffsets_[i]            = offset;
+        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
+        columnOffsets_[i]                      = offset;
         offset += columns_[i]->dataSizeDoubles();
     }
 
-- 
2.43.0


From 9dfe6b4a0feadfc2c195b608fb5a6d24262b006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 21/75] fix: dispatching writer whose string columns grow

The row under construction kept its size (and was written to beyond its end),
and so did the columns of files opened later.
---
 src/odc/WriterDispatchingIterator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index d61a7f1..298512f 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -468,6 +468,19 @@ void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::flushAndResetColumnSizes(
     for (size_t i = 0; i < iterators_.size(); ++i) {
         iterators_[i]->flushAndResetColumnSizes(resetColumnSizeDoubles);
     }
+
+    // The row under construction, and the positions of the columns in it, change as well
+
+    for (const auto& kv : resetColumnSizeDoubles) {
+        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);
+    }
+
+    unsigned long long nrows = nrows_;
+    writeHeader();
+    nrows_ = nrows;
+
+    if (initialized_)
+        parseTemplateParameters();
 }
 
 
-- 
2.43.0


From 61bf58e92d2aac062e7c561de7dfdcc95f5b064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 22/75] fix: dispatching writer given a second input with other
 columns

The columns of the files already open, and the columns dispatched on, stayed
those of the first input.
---
 src/odc/WriterDispatchingIterator.cc | 32 ++++++++++++++++------------
 src/odc/WriterDispatchingIterator.h  |  3 +++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 298512f..7787d38 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -410,6 +410,21 @@ const MetaData& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::columns(const
     return md;
 }
 
+template <typename WRITE_ITERATOR, typename OWNER>
+void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::changeColumns(const MetaData& md) {
+    if (initialized_ && columns() == md)
+        return;
+
+    columns(md);
+    parseTemplateParameters();
+
+    for (size_t i = 0; i < iterators_.size(); ++i) {
+        iterators_[i]->flush();
+        iterators_[i]->columns(columns());
+        iterators_[i]->writeHeader();
+    }
+}
+
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::missingValue(size_t i, double missingValue) {
     ASSERT(i < columns().size());
@@ -428,10 +443,7 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
     }
 
     // Copy columns from the input iterator.
-    columns(it->columns());
-
-    if (!initialized_)
-        parseTemplateParameters();
+    changeColumns(it->columns());
 
     size_t maxcols = columns().size();
     ASSERT(maxcols > 0);
@@ -441,16 +453,8 @@ unsigned long WriterDispatchingIterator<WriterBufferingIterator, DispatchingWrit
 
     nrows_ = 0;
     for (; it != end; ++it) {
-        if (it->isNewDataset() && columns() != it->columns()) {
-            columns(it->columns());
-            parseTemplateParameters();
-
-            for (size_t i = 0; i < iterators_.size(); ++i) {
-                iterators_[i]->flush();
-                iterators_[i]->columns(columns());
-                iterators_[i]->writeHeader();
-            }
-        }
+        if (it->isNewDataset())
+            changeColumns(it->columns());
 
         const double* data(it->data());
         size_t size(it->columns().size());
diff --git a/src/odc/WriterDispatchingIterator.h b/src/odc/WriterDispatchingIterator.h
index d222fef..481031f 100644
--- a/src/odc/WriterDispatchingIterator.h
+++ b/src/odc/WriterDispatchingIterator.h
@@ -143,6 +143,9 @@ private:
 
     void parseTemplateParameters();
 
+    /// Columns of the rows that follow (in pass1)
+    void changeColumns(const core::MetaData& md);
+
     int refCount_;
 
     Iterators iterators_;
-- 
2.43.0


From a3bd01261a4dfbcf4450a348c9e35b944742d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 23/75] fix: chunks of a file to be split whose first frame
 exceeds the chunk size

The file was split into an empty chunk and, if it had only one frame, nothing
else. The size of a chunk was never reset.
---
 src/odc/tools/SplitTool.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 9c9692a..39be998 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -84,18 +84,19 @@ vector<pair<Offset, Length> > SplitTool::getChunks(const PathName& inFile, size_
         LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: " << offset << " " << length << endl;
 
         size_t size(numberOfRows * numberOfColumns * sizeof(double));
-        if (currentSize + size > maxExpandedSize) {
+        if (currentLength > Length(0) && currentSize + size > maxExpandedSize) {
             LOG_DEBUG_LIB(LibOdc) << "SplitTool::getChunks: collect " << currentOffset << " " << currentLength << endl;
             r.push_back(make_pair(currentOffset, currentLength));
             currentOffset = offset;
             currentLength = length;
+            currentSize   = size;
         }
         else {
             currentLength += length;
-            currentSize += numberOfRows * numberOfColumns * sizeof(double);
+            currentSize += size;
         }
     }
-    if (r.size() == 0 || r.back().first != currentOffset)
+    if (currentLength > Length(0))
         r.push_back(make_pair(currentOffset, currentLength));
     return r;
 }
-- 
2.43.0


From c09830031e34f2adf9d3915c1366c94155001cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 24/75] fix: reading from a stream through the C API

---
 src/odc/api/odc.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 624c61a..fc97050 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -9,6 +9,7 @@
  */
 
 #include <unistd.h>
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -291,7 +292,7 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
 
     // Wrap the stream in a DataHandle
     struct ReadStreamDataHandle : public eckit::DataHandle {
-        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn) {}
+        ReadStreamDataHandle(void* handle, odc_stream_read_t fn) : handle_(handle), fn_(fn), pos_(0) {}
         virtual ~ReadStreamDataHandle() {}
         void print(std::ostream& s) const override { s << "StreamReadHandle(" << fn_ << "(" << handle_ << "))"; }
         // Hack for compiler bug on clang-14.0.3 running on MacOS 13
@@ -299,12 +300,39 @@ int odc_open_stream(odc_reader_t** reader, void* handle, odc_stream_read_t strea
         Length openForRead() override { return workaroundFunction(); }
         void openForWrite(const Length&) override { NOTIMP; }
         void openForAppend(const Length&) override { NOTIMP; }
-        long read(void* buffer, long length) override { return fn_(handle_, buffer, length); }
+        long read(void* buffer, long length) override {
+            // n.b. Like POSIX read(), the callback may return less data than requested
+            long total = 0;
+            while (total < length) {
+                long len = fn_(handle_, static_cast<char*>(buffer) + total, length - total);
+                if (len < 0 || len > length - total)
+                    throw ReadError("stream", Here());
+                if (len == 0)
+                    break;
+                total += len;
+                pos_ += len;
+            }
+            return total;
+        }
         long write(const void*, long) override { NOTIMP; }
+        Offset position() override { return pos_; }
+        Offset seek(const Offset& target) override {
+            // Streams can only be moved forwards, discarding the data
+            if (target < pos_)
+                throw SeriousBug("Cannot move backwards in a stream", Here());
+            char discarded[4096];
+            while (pos_ < target) {
+                long len = std::min<long long>(sizeof(discarded), target - pos_);
+                if (read(discarded, len) != len)
+                    throw ShortFile("stream", Here());
+            }
+            return pos_;
+        }
         void close() override {}
 
         void* handle_;
         odc_stream_read_t fn_;
+        Offset pos_;
     };
 
     return wrapApiFunction(
-- 
2.43.0


From 71d8c8bdd85f40d7e4ecc8002520aaf066441a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 25/75] fix: partial writes of a C API stream

---
 src/odc/api/odc.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index fc97050..25f3078 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -1048,9 +1048,16 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         void openForAppend(const Length&) override {}
         long read(void*, long) override { NOTIMP; }
         long write(const void* buffer, long length) override {
-            long written = fn_(handle_, buffer, length);
-            pos_ += written;
-            return written;
+            // n.b. Like POSIX write(), the callback may accept less data than supplied
+            long total = 0;
+            while (total < length) {
+                long len = fn_(handle_, static_cast<const char*>(buffer) + total, length - total);
+                if (len <= 0 || len > length - total)
+                    throw WriteError("stream", Here());
+                total += len;
+                pos_ += len;
+            }
+            return total;
         }
         Offset position() override { return pos_; }
         void close() override {}
@@ -1065,7 +1072,8 @@ int odc_encode_to_stream(odc_encoder_t* encoder, void* handle, odc_stream_write_
         dh.openForWrite(0);
         AutoClose closer(dh);
         odc_encode_to_data_handle(encoder, dh);
-        (*bytes_encoded) = dh.position();
+        if (bytes_encoded)
+            (*bytes_encoded) = dh.position();
     });
 }
 
-- 
2.43.0


From c35a52134eed67d9f2d29e3bc5f3762e5257316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 26/75] fix: detect failing dup in odc_open_file_descriptor

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 25f3078..7349a8f 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -278,7 +278,7 @@ int odc_open_file_descriptor(odc_reader_t** reader, int fd) {
         // Take a copy of the file descriptor. This allows us to decouple the life of this
         // from the life of the caller
         int fd2 = dup(fd);
-        if (fd == -1)
+        if (fd2 == -1)
             throw CantOpenFile("dup() failed on supplied file descriptor", Here());
         (*reader) = new odc_reader_t(new FileDescHandle(fd2, true));
     });
-- 
2.43.0


From 60c991f0c8bc6b36ac4838569d29adddf57a745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 27/75] fix: properties of a copied or exhausted C API frame

---
 src/odc/api/odc.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 7349a8f..1a2a07e 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -43,6 +43,12 @@ struct odc_frame_t {
     mutable bool propertiesMemoised_;
     mutable std::vector<std::map<std::string, std::string>::const_iterator> propertiesIndex_;
     Frame frame_;
+
+    // n.b. The iterators in propertiesIndex_ belong to the frame they were obtained from.
+    void forgetProperties() {
+        propertiesMemoised_ = false;
+        propertiesIndex_.clear();
+    }
 };
 
 struct odc_decoder_t {
@@ -376,10 +382,9 @@ int odc_next_frame(odc_frame_t* frame) {
             r.impl_.reset(new Reader(*r.dh_, aggregated));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->forgetProperties();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -398,10 +403,9 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
             r.impl_.reset(new Reader(*r.dh_, aggregated, maximum_rows));
         }
 
-        if ((frame->frame_ = r.impl_->next())) {
-            frame->propertiesMemoised_ = false;
-            frame->propertiesIndex_.clear();
+        frame->forgetProperties();
 
+        if ((frame->frame_ = r.impl_->next())) {
             return ODC_SUCCESS;
         }
         else {
@@ -413,7 +417,7 @@ int odc_next_frame_aggregated(odc_frame_t* frame, long maximum_rows) {
 int odc_copy_frame(odc_frame_t* source_frame, odc_frame_t** copy) {
     return wrapApiFunction([source_frame, copy] {
         ASSERT(source_frame);
-        (*copy) = new odc_frame_t{*source_frame};
+        (*copy) = new odc_frame_t{source_frame->reader_, false, {}, source_frame->frame_};
     });
 }
 
@@ -482,10 +486,10 @@ int odc_frame_property_idx(const odc_frame_t* frame, int idx, const char** key,
     return wrapApiFunction([frame, idx, key, value] {
         ASSERT(frame);
 
-        if (!frame->propertiesMemoised_) {
-            const auto& properties(frame->frame_.properties());
-            ASSERT(idx >= 0 && size_t(idx) < properties.size());
+        const auto& properties(frame->frame_.properties());
+        ASSERT(idx >= 0 && size_t(idx) < properties.size());
 
+        if (!frame->propertiesMemoised_) {
             frame->propertiesIndex_.reserve(properties.size());
             for (std::map<std::string, std::string>::const_iterator it = properties.begin(); it != properties.end();
                  ++it) {
-- 
2.43.0


From f17108162d12ce6f5f97237d26eb24860fdf384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 28/75] fix: rows lost when an encoder is given a larger array

---
 src/odc/api/odc.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 1a2a07e..3f58301 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -78,7 +78,13 @@ struct odc_decoder_t {
 struct odc_encoder_t {
 
     odc_encoder_t() :
-        arrayData(0), columnMajorWidth(0), nrows(0), arrayWidth(0), arrayHeight(0), maxRowsPerFrame(10000) {}
+        arrayData(0),
+        columnMajorWidth(0),
+        nrows(0),
+        nrowsFromArray(false),
+        arrayWidth(0),
+        arrayHeight(0),
+        maxRowsPerFrame(10000) {}
 
     struct EncodeColumn {
         const void* data;
@@ -89,6 +95,7 @@ struct odc_encoder_t {
     int columnMajorWidth;
 
     size_t nrows;
+    bool nrowsFromArray;  // nrows has not been set explicitly
     size_t arrayWidth;
     size_t arrayHeight;
     size_t maxRowsPerFrame;
@@ -828,7 +835,8 @@ int odc_encoder_add_property(odc_encoder_t* encoder, const char* key, const char
 int odc_encoder_set_row_count(odc_encoder_t* encoder, long nrows) {
     return wrapApiFunction([encoder, nrows] {
         ASSERT(encoder);
-        encoder->nrows = nrows;
+        encoder->nrows          = nrows;
+        encoder->nrowsFromArray = false;
     });
 }
 
@@ -859,8 +867,10 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
         encoder->columnMajorWidth = columnMajorWidth;
-        if (encoder->nrows == 0)
-            encoder->nrows = height;
+        if (encoder->nrows == 0 || encoder->nrowsFromArray) {
+            encoder->nrows          = height;
+            encoder->nrowsFromArray = true;
+        }
     });
 }
 
-- 
2.43.0


From b8aad784e4f74e905f4791408f0e852ce141ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 29/75] fix: column-major elements that do not divide a column

---
 src/odc/api/odc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 3f58301..cd0ba59 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -862,7 +862,7 @@ int odc_encoder_set_data_array(odc_encoder_t* encoder, const void* data, long wi
             }
         }
 
-        ASSERT(columnMajorWidth % 8 == 0);
+        ASSERT(columnMajorWidth >= 0 && columnMajorWidth % 8 == 0);
         encoder->arrayData        = data;
         encoder->arrayWidth       = width;
         encoder->arrayHeight      = height;
@@ -974,6 +974,7 @@ void fill_in_encoder(odc_encoder_t* encoder, std::vector<std::unique_ptr<char[]>
                 c.stride = info.decodedSize;
                 if (long(info.decodedSize) != encoder->columnMajorWidth) {
                     // Transpose data for contiguous elementsn
+                    ASSERT(info.decodedSize % encoder->columnMajorWidth == 0);
                     size_t widthInElems = info.decodedSize / encoder->columnMajorWidth;
 
                     transposedData.push_back(std::unique_ptr<char[]>(
-- 
2.43.0


From 780fe87a4adfa2bf3a5c03e76c4791756f157502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 30/75] fix: copying a null Frame

---
 src/odc/api/Odb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index 309fb82..d678902 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -508,14 +508,14 @@ Frame::Frame() : impl_(nullptr) {}
 
 Frame::Frame(std::unique_ptr<FrameImpl>&& impl) : impl_(std::move(impl)) {}
 
-Frame::Frame(const Frame& rhs) : impl_(new FrameImpl(*rhs.impl_)) {}
+Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}
 
 Frame::Frame(Frame&& rhs) : impl_(std::move(rhs.impl_)) {}
 
 Frame::~Frame() {}
 
 Frame& Frame::operator=(const Frame& rhs) {
-    impl_.reset(new FrameImpl(*rhs.impl_));
+    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);
     return *this;
 }
 
-- 
2.43.0


From d17be37df8f44d9c44a51f7db4b32bce6ad35225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 31/75] fix: refuse to decode strings into elements that cannot
 hold them

---
 src/odc/core/Table.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 22e65e1..83446a3 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -164,6 +164,7 @@ void Table::decode(DecodeTarget& target) {
         visitColumn[pos] = true;
         facades[pos]     = &target.dataFacades()[i];
         ASSERT(target.dataFacades()[i].nelem() >= nrows);
+        ASSERT(target.dataFacades()[i].dataSize() >= metadata[pos]->dataSizeDoubles() * sizeof(double));
     }
 
     // Read the data in in bulk for this table
-- 
2.43.0


From fed12187a9eb9f3ab038a7bc9ac3190f1f2260fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 32/75] fix: position of wide strings in taller column-major
 arrays

---
 src/odc/api/odc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index cd0ba59..91750b5 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -792,7 +792,7 @@ int odc_decode_threaded(odc_decoder_t* decoder, const odc_frame_t* frame, long*
             size_t colIndex        = kv.first;
             const double* tmpArray = kv.second.get();
             double* output         = static_cast<double*>(decoder->columnData[colIndex].data);
-            size_t rows            = decoder->nrows;
+            size_t rows            = decoder->dataHeight;
             size_t cols            = decoder->columnData[colIndex].elemSize / sizeof(double);
             for (size_t row = 0; row < frame_rows; row++) {
                 for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 9fa85ba711731e4e535b05ec4b5164b9eec9d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 33/75] fix: memory layout of sized columns and of reused
 decoders in the C API

---
 src/odc/api/odc.cc | 51 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/odc/api/odc.cc b/src/odc/api/odc.cc
index 91750b5..a037990 100644
--- a/src/odc/api/odc.cc
+++ b/src/odc/api/odc.cc
@@ -58,6 +58,8 @@ struct odc_decoder_t {
         size_t elemSize;
         size_t stride;
         bool transpose;
+        bool autoSize;   // elemSize has been taken from the frame
+        bool autoPlace;  // data has been placed in the array of the decoder
     };
 
     odc_decoder_t() : nrows(0), dataWidth(0), dataHeight(0), externalData(0), columnMajor(false), ownedData() {}
@@ -616,7 +618,7 @@ int odc_decoder_add_column(odc_decoder_t* decoder, const char* name) {
         ASSERT(decoder);
         ASSERT(name);
         decoder->columnNames.emplace_back(name);
-        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false});
+        decoder->columnData.emplace_back(odc_decoder_t::DecodeColumn{0, 0, 0, false, false, false});
     });
 }
 
@@ -635,6 +637,7 @@ int odc_decoder_column_set_data_size(odc_decoder_t* decoder, int col, int elemen
 
         auto& cd(decoder->columnData[col]);
         cd.elemSize = element_size;
+        cd.autoSize = false;
     });
 }
 
@@ -644,9 +647,12 @@ int odc_decoder_column_set_data_array(odc_decoder_t* decoder, int col, int eleme
         ASSERT(col >= 0 && size_t(col) < decoder->columnData.size());
 
         auto& cd(decoder->columnData[col]);
-        cd.elemSize = element_size;
-        cd.stride   = stride;
-        cd.data     = data;
+        cd.elemSize  = element_size;
+        cd.stride    = stride;
+        cd.data      = data;
+        cd.transpose = false;
+        cd.autoSize  = false;
+        cd.autoPlace = false;
     });
 }
 
@@ -674,12 +680,20 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
 
     size_t height = decoder->nrows;  // in rows
     size_t width  = 0;               // in bytes
-    std::vector<std::pair<size_t, long>> offsets;
 
     for (size_t i = 0; i < decoder->columnData.size(); ++i) {
         odc_decoder_t::DecodeColumn& col(decoder->columnData[i]);
 
-        if (col.elemSize == 0) {
+        // The decoder may be reused for another frame or array
+
+        if (col.autoPlace) {
+            col.data      = 0;
+            col.stride    = 0;
+            col.transpose = false;
+            col.autoPlace = false;
+        }
+
+        if (col.elemSize == 0 || col.autoSize) {
             if (col.data) {
                 col.elemSize = sizeof(double);  // backwards compatible default
             }
@@ -691,7 +705,15 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                 ASSERT(it->decodedSize > 0);
                 ASSERT(it->decodedSize % sizeof(double) == 0);
                 col.elemSize = it->decodedSize;
+                col.autoSize = true;
             }
+        }
+
+        if (col.data) {
+            if (col.stride == 0)
+                col.stride = col.elemSize;
+        }
+        else {
             width += col.elemSize;
         }
     }
@@ -707,16 +729,19 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
             height = decoder->dataHeight;
         }
         else {
-            decoder->ownedData.reset(new char[width * height]);
-            decoder->dataWidth  = width;
-            decoder->dataHeight = height;
-            dataPtr             = decoder->ownedData.get();
+            if (!decoder->ownedData || width != decoder->dataWidth || height != decoder->dataHeight) {
+                decoder->ownedData.reset(new char[width * height]);
+                decoder->dataWidth  = width;
+                decoder->dataHeight = height;
+            }
+            dataPtr = decoder->ownedData.get();
         }
 
         size_t offset = 0;
         for (auto& col : decoder->columnData) {
             if (!col.data) {
-                col.data = static_cast<char*>(dataPtr) + offset;
+                col.data      = static_cast<char*>(dataPtr) + offset;
+                col.autoPlace = true;
                 if (decoder->columnMajor) {
                     col.stride = col.elemSize;
                     offset += height * col.elemSize;
@@ -728,10 +753,6 @@ static void fill_in_decoder(odc_decoder_t* decoder, const odc_frame_t* frame) {
                     offset += col.elemSize;
                 }
             }
-            else {
-                if (col.stride == 0)
-                    col.stride = col.elemSize;
-            }
         }
     }
 }
-- 
2.43.0


From a5a8eff622755dff932b0a949c7939991b5e5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 34/75] fix: refuse to encode columns of the same name

---
 src/odc/core/Encoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index f5934fc..1872407 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -10,6 +10,10 @@
 
 #include "odc/core/Encoder.h"
 
+#include <set>
+
+#include "eckit/exception/Exceptions.h"
+
 #include "odc/LibOdc.h"
 #include "odc/codec/CodecOptimizer.h"
 #include "odc/core/Header.h"
@@ -35,7 +39,11 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
     // Construct the default codecs
 
     md.setSize(ncols);
+    std::set<std::string> names;
     for (size_t i = 0; i < ncols; ++i) {
+        if (!names.insert(columns[i].name).second) {
+            throw UserError("Attempting to create multiple columns with the same name: " + columns[i].name, Here());
+        }
         md[i]->name(columns[i].name);
         md[i]->type<SameByteOrder>(columns[i].type);
         ASSERT(columns[i].decodedSize % sizeof(double) == 0);
-- 
2.43.0


From 6a529ede37accfd8e429f30acad92559c6f683a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 35/75] fix: writer given bitfield columns of the same name

---
 src/odc/WriterBufferingIterator.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/odc/WriterBufferingIterator.cc b/src/odc/WriterBufferingIterator.cc
index 1a04170..0512169 100644
--- a/src/odc/WriterBufferingIterator.cc
+++ b/src/odc/WriterBufferingIterator.cc
@@ -299,6 +299,17 @@ int WriterBufferingIterator::setBitfieldColumn(size_t index, std::string name, a
     Column* col = columns_[index];
     ASSERT(col);
 
+    // Ensure that this column is unique!
+    for (size_t i = 0; i < columns_.size(); i++) {
+        if (index != i && columns_[i] != 0) {
+            if (columns_[i]->name() == name) {
+                std::stringstream ss;
+                ss << "Attempting to create multiple columns with the same name: " << name;
+                throw SeriousBug(ss.str(), Here());
+            }
+        }
+    }
+
     col->name(name);
     col->type<SameByteOrder>(type);
     col->bitfieldDef(b);
-- 
2.43.0


From b43561ba664451924f78d3f2c8abdf969ecd97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 36/75] fix: row markers beyond the last column are refused

---
 src/odc/ReaderIterator.cc |  5 +++++
 src/odc/core/Table.cc     | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 2e302a1..48e040d 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -220,6 +220,11 @@ bool ReaderIterator::next() {
     int startCol = (marker[0] * 256) + marker[1];
 
     size_t nCols = columns().size();
+    if (size_t(startCol) > nCols) {
+        std::stringstream ss;
+        ss << "Row marker " << startCol << " exceeds number of columns " << nCols;
+        throw ODBDecodeError(ss.str(), Here());
+    }
     for (size_t i = startCol; i < nCols; i++) {
         codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);
     }
diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 83446a3..ac42a3e 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -209,6 +209,11 @@ void Table::decode(DecodeTarget& target) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols)) {
+            std::stringstream ss;
+            ss << "Row marker " << startCol << " exceeds number of columns " << ncols;
+            throw ODBDecodeError(ss.str(), Here());
+        }
 
         if (lastStartCol > startCol) {
             for (int col = startCol; col < lastStartCol; col++) {
@@ -428,6 +433,11 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
         unsigned char marker[2];
         ds.readBytes(&marker, sizeof(marker));
         int startCol = (marker[0] * 256) + marker[1];  // Endian independant
+        if (startCol > long(ncols)) {
+            std::stringstream ss;
+            ss << "Row marker " << startCol << " exceeds number of columns " << ncols;
+            throw ODBDecodeError(ss.str(), Here());
+        }
 
         // As in decode(), columns that the first row doesn't contain are missing there
 
-- 
2.43.0


From 44c9f53b5a5fbbc18c1708514d6812755bfa1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 37/75] fix: negative index in the string table of a header

---
 src/odc/codec/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 3389a28..97b37f2 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -174,7 +174,7 @@ private:  // methods
             int32_t index;
             ds.read(index);
 
-            ASSERT(index < numStrings);
+            ASSERT(index >= 0 && index < numStrings);
             this->strings_[index] = s;
 
             if (s.length() != 0) {
-- 
2.43.0


From 2527c1ce6957f8319a92373e14e16c4596ffe4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 38/75] fix: row reader read past the data of a frame into data
 left by a longer one

---
 src/odc/ReaderIterator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/ReaderIterator.cc b/src/odc/ReaderIterator.cc
index 48e040d..3910829 100644
--- a/src/odc/ReaderIterator.cc
+++ b/src/odc/ReaderIterator.cc
@@ -193,7 +193,9 @@ size_t ReaderIterator::readBuffer(size_t dataSize) {
 
     // Assign the data to a DataStream.
 
-    rowDataStream_ = GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, rowDataBuffer_);
+    // n.b. The buffer may be bigger than the data of this frame
+    rowDataStream_ =
+        GeneralDataStream(byteOrder_ != BYTE_ORDER_INDICATOR, static_cast<const void*>(rowDataBuffer_.data()), dataSize);
 
     // Assign the appropriate data stream to each of the codecs.
 
-- 
2.43.0


From bc9427298d5fde32b47156e17d07c78f6ea8528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 39/75] fix: span of a column that is not a string but has a
 string codec overran the buffer

---
 src/odc/core/Table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index ac42a3e..f5475e6 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -383,6 +383,9 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
 
         visitColumn[it->second] = true;
 
+        // n.b. The codec determines how much is decoded, whatever the type of the column is
+        maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
+
         // What do we do with the values?
 
         switch (metadata[it->second]->type()) {
@@ -402,7 +405,6 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
             case api::STRING:
                 columnValues[it->second].reset(
                     new StringColumnValues(columnName, sizeof(double) * metadata[it->second]->dataSizeDoubles()));
-                maxDoublesDecode = std::max(maxDoublesDecode, metadata[it->second]->dataSizeDoubles());
                 break;
             default:
                 throw SeriousBug("Unexpected type in decoding column: " + columnName, Here());
-- 
2.43.0


From 73b0948e6bae1455f078ab87f12cd3d8495a760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 40/75] fix: headers with a negative data size or number of
 rows are refused

---
 src/odc/core/Header.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/core/Header.cc b/src/odc/core/Header.cc
index 2e325cd..0829c22 100644
--- a/src/odc/core/Header.cc
+++ b/src/odc/core/Header.cc
@@ -95,6 +95,7 @@ void Header::load(DataHandle& dh) {
     // 0 means we don't know offset of next header.
     int64_t nextFrameOffset;
     ds2.read(nextFrameOffset);
+    ASSERT(nextFrameOffset >= 0);
     dataSize_ = nextFrameOffset;
     md_.dataSize(dataSize_);
 
@@ -107,6 +108,7 @@ void Header::load(DataHandle& dh) {
 
     int64_t numberOfRows;
     ds2.read(numberOfRows);
+    ASSERT(numberOfRows >= 0);
     rowsNumber_ = numberOfRows;
     md_.rowsNumber(rowsNumber_);
 
-- 
2.43.0


From a9329c7549bd52692d38c41d15af27ab30ad7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 41/75] fix: counts in a header are checked before memory is
 reserved for them

---
 src/odc/codec/String.h    |  2 +-
 src/odc/core/DataStream.h | 16 ++++++++++++++++
 src/odc/core/MetaData.h   |  1 +
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/odc/codec/String.h b/src/odc/codec/String.h
index 97b37f2..a151a4b 100644
--- a/src/odc/codec/String.h
+++ b/src/odc/codec/String.h
@@ -157,7 +157,7 @@ private:  // methods
         // This is based on the old-style hash-table storage, so it isn't a trivial list of strings
         int32_t numStrings;
         ds.read(numStrings);
-        ASSERT(numStrings >= 0);
+        ds.checkCount(numStrings, 3 * sizeof(int32_t));
 
         this->strings_.resize(numStrings);
 
diff --git a/src/odc/core/DataStream.h b/src/odc/core/DataStream.h
index a207a62..3fbc0c0 100644
--- a/src/odc/core/DataStream.h
+++ b/src/odc/core/DataStream.h
@@ -77,6 +77,9 @@ public:
     void read(std::map<T, S>& props);
     void read(std::string& s);
 
+    /// Check that count elements (of at least minSize bytes) can follow, before memory is reserved for them
+    void checkCount(int32_t count, size_t minSize) const;
+
     void read(void* addr, size_t bytes);
     void readBytes(void* addr, size_t bytes);  // ReadBytes does no endianness checks
 
@@ -229,6 +232,7 @@ inline void DataStream<ByteOrder>::read(std::vector<T>& vec) {
     vec.clear();
     int32_t count;
     read(count);
+    checkCount(count, sizeof(int32_t));
     vec.resize(count);
     for (auto& elem : vec)
         read(elem);
@@ -256,12 +260,24 @@ inline void DataStream<ByteOrder>::read(std::string& s) {
 
     int32_t len;
     read(len);
+    checkCount(len, 1);
 
     s.resize(len);
     readBytes(&s[0], len);  // n.b. raw read. Bytes are in order.
 }
 
 
+template <typename ByteOrder>
+inline void DataStream<ByteOrder>::checkCount(int32_t count, size_t minSize) const {
+
+    if (count < 0 || size_t(count) > size_t(end_ - current_) / minSize) {
+        std::stringstream ss;
+        ss << "Invalid count " << count << " in DataStream with only " << (end_ - current_) << " bytes remaining";
+        throw ODBEndOfDataStream(ss.str(), Here());
+    }
+}
+
+
 // read --> takes endianness into account.
 template <typename ByteOrder>
 inline void DataStream<ByteOrder>::read(void* addr, size_t bytes) {
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index 428dc0b..cccc429 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -150,6 +150,7 @@ void MetaData::load(DataStream<ByteOrder>& ds) {
 
     int32_t nCols;
     ds.read(nCols);
+    ds.checkCount(nCols, 10 * sizeof(int32_t));
     resize(nCols, NULL);
     for (size_t i = 0; i < size(); i++) {
         delete at(i);
-- 
2.43.0


From 007c38208d3a9370d0a6bf813c3a2ebd5a616253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 42/75] fix: frame whose data size puts the next frame beyond
 any offset is refused

---
 src/odc/core/Table.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index f5475e6..2a34e32 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -15,6 +15,7 @@
 #include <cmath>
 #include <cstring>
 #include <functional>
+#include <limits>
 
 #include "eckit/io/AutoCloser.h"
 #include "eckit/io/Buffer.h"
@@ -493,6 +494,12 @@ std::unique_ptr<Table> Table::readTable(odc::core::ThreadSharedDataHandle& dh) {
     newTable->startPosition_ = startPosition;
     newTable->dataPosition_  = dh.position();
     newTable->dataSize_      = hdr.dataSize();
+
+    // n.b. The position of the next frame must be representable
+    if (hdr.dataSize() > size_t(std::numeric_limits<long long>::max() - (long long)(newTable->dataPosition_))) {
+        throw ODBInvalid(dh.title(), "Incorrect data size", Here());
+    }
+
     newTable->nextPosition_  = dh.position() + newTable->dataSize_;
     newTable->byteOrder_     = hdr.byteOrder();
 
-- 
2.43.0


From d5f981498b1c1618610950e368454e9d631ccc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 43/75] fix: compare missed differences between large integers,
 and between any integers not read as doubles

---
 src/odc/Comparator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/Comparator.cc b/src/odc/Comparator.cc
index 2f2641f..45e0794 100644
--- a/src/odc/Comparator.cc
+++ b/src/odc/Comparator.cc
@@ -167,6 +167,10 @@ void Comparator::compare(int nCols, const double* data1, const double* data2, co
                     }
                     case INTEGER:
                     case BITFIELD:
+                        // n.b. Integers are exact, and may be stored as int64_t rather than double
+                        if (::memcmp(pdata1, pdata2, sizeof(double)) != 0 && !(*pdata1 == *pdata2))
+                            raiseNotEqual(column, *pdata1, *pdata2);
+                        break;
                     case DOUBLE:
                         if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))
                             raiseNotEqual(column, *pdata1, *pdata2);
-- 
2.43.0


From fb5f6a889b881dddc92dd917368c3911c0344b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 44/75] fix: compare reported equal infinities as a difference

---
 src/odc/Comparator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index 51ec346..a8c0a29 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -77,7 +77,8 @@ public:
         return relativeError;
     }
 
-    inline static int same(double A, double B) { return err(A, B) < maxRelativeError; }
+    // n.b. The relative error of equal infinities is a NaN
+    inline static int same(double A, double B) { return A == B || err(A, B) < maxRelativeError; }
 
     void raiseNotEqual(const core::Column&, double, double);
 
-- 
2.43.0


From f8037406fb010af586fbc8bc515622406baa8b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 45/75] fix: refuse bitfield definitions in CSV headers with
 sizes that are not positive

The check tested the number of tokens (always 2) instead of the size. A ']' before the '[' is refused as well.
---
 src/odc/csv/TextReaderIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 2141c28..28fe4d6 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -73,7 +73,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
     size_t leftBracket(c.find('['));
     size_t rightBracket(c.find(']'));
 
-    if (!(leftBracket != std::string::npos && rightBracket != std::string::npos))
+    if (!(leftBracket != std::string::npos && rightBracket != std::string::npos && leftBracket < rightBracket))
         throw UserError(
             std::string(
                 "Error parsing bitfield definition. Should be like: bitfield_column_name:BITFIELD[a:1;b:3] was: '") +
@@ -107,7 +107,7 @@ eckit::sql::BitfieldDef TextReaderIterator::parseBitfields(const std::string& c)
 
         int size = atoi(v[1].c_str());
 
-        if (!(v.size() > 0))
+        if (!(size > 0))
             throw UserError("Size of a bitfield must be positive and larger than zero");
 
         numberOfBits += size;
-- 
2.43.0


From f5f9f8a922a08a206bd581ad40e617f47510a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 46/75] fix: do not drop the rows that follow a blank line of a
 CSV file

---
 src/odc/csv/TextReaderIterator.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index 28fe4d6..c6d4e49 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -191,16 +191,19 @@ bool TextReaderIterator::next() {
     if (noMore_)
         return false;
 
-    std::string line;
-    std::getline(*in_, line);
-    line = S::trim(line);
-    std::vector<std::string> values(S::split(delimiter_, line));
+    // n.b. Blank lines are skipped. Only the end of the input ends the data.
+    std::vector<std::string> values;
+    while (values.empty()) {
+        std::string line;
+        if (!std::getline(*in_, line)) {
+            noMore_ = true;
+            return false;
+        }
+        line   = S::trim(line);
+        values = S::split(delimiter_, line);
+    }
 
     size_t nCols = values.size();
-    if (nCols == 0) {
-        noMore_ = true;
-        return false;
-    }
     ASSERT(nCols == columns().size());
 
     for (size_t i = 0; i < nCols; ++i) {
-- 
2.43.0


From 77890c46575f2b865379cf3b3a9a2b9758306629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 47/75] fix: odc import ignored the delimiter given with -d

---
 src/odc/tools/ImportTool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index 83dd7f0..f8b3001 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -80,7 +80,7 @@ void ImportTool::run() {
         AutoClose close_in(dh_in);
         dh_out.openForWrite(0);
         AutoClose close_out(dh_out);
-        size_t n = api::odbFromCSV(dh_in, dh_out);
+        size_t n = api::odbFromCSV(dh_in, dh_out, delimiter);
         Log::info() << "ImportTool::odbFromCSV: Copied " << n << " rows." << std::endl;
     }
     else {
-- 
2.43.0


From 4531e48aaa8b4b95addc0f0104531a7930ad6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 48/75] fix: odc merge truncated strings of more than 8
 characters

and placed values under the wrong columns after a change of the columns of an input.
---
 src/odc/tools/MergeTool.cc | 46 +++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index ac8ebaf..b601926 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -9,6 +9,10 @@
  */
 
 #include "odc/tools/MergeTool.h"
+
+#include <algorithm>
+#include <map>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/log/Timer.h"
@@ -78,8 +82,11 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
     odc::Writer<> writer(outputFile);
     odc::Writer<>::iterator out(writer.begin());
 
+    std::vector<size_t> ncols;
+
     for (size_t i = 0; i < iterators.size(); ++i) {
         MetaData columns(iterators[i].first->columns());
+        ncols.push_back(columns.size());
 
         for (size_t i = 0; i < columns.size(); ++i)
             if (out->columns().hasColumn(columns[i]->name()))
@@ -95,15 +102,44 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
     Log::info() << "MergeTool::merge: output metadata: " << out->columns() << std::endl;
 
     for (;;) {
+
+        for (size_t ii = 0; ii < iterators.size(); ++ii) {
+            if (!(iterators[ii].first != iterators[ii].second))
+                return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
+        }
+
+        // String columns may get wider along the inputs
+        std::map<std::string, size_t> resetColumnSizes;
+
+        for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+            I& in(iterators[ii].first);
+
+            if (in->columns().size() != ncols[ii])
+                throw eckit::UserError("The columns of an input file of merge change", Here());
+
+            for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {
+                const Column& inColumn(*in->columns()[cn]);
+                const Column& outColumn(*out->columns()[i]);
+                if (inColumn.name() != outColumn.name() || inColumn.type() != outColumn.type())
+                    throw eckit::UserError("The columns of an input file of merge change", Here());
+                if (in->dataSizeDoubles(cn) > out->dataSizeDoubles(i))
+                    resetColumnSizes[inColumn.name()] = in->dataSizeDoubles(cn);
+            }
+        }
+
+        if (!resetColumnSizes.empty())
+            out->flushAndResetColumnSizes(resetColumnSizes);
+
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
-            I& inEnd(iterators[ii].second);
-            if (!(in != inEnd))
-                return (void)(Log::info() << "Input file number " << ii << " ended." << std::endl);
 
-            for (size_t cn = 0; cn < in->columns().size(); ++cn) {
+            for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {
                 ASSERT(i < out->columns().size());
-                out->data(i++) = (*in)[cn];
+                const double* data = &in->data(cn);
+                double* outData    = &out->data(i);
+                size_t size        = in->dataSizeDoubles(cn);
+                std::copy(data, data + size, outData);
+                std::fill(outData + size, outData + out->dataSizeDoubles(i), 0);
             }
             ++in;
         }
-- 
2.43.0


From 2f9be21b8a33745f460dbbea3d0b0ba0514954b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 49/75] fix: odc set read out of bounds and shifted values for
 files with strings of more than 8 characters

---
 src/odc/ODAUpdatingIterator.cc | 21 +++++++++++++++------
 src/odc/ODAUpdatingIterator.h  |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 4b39e38..2e8ba91 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -26,12 +26,13 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     columnIndices_(columns.size()),
     values_(values),
     data_(0),
+    rowDataSizeDoubles_(0),
     refCount_(0),
     noMore_(false) {
     ASSERT(columns.size() == values.size());
 
     updateIndices();
-    std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+    std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
     update();
 }
 
@@ -39,8 +40,13 @@ template <typename T>
 void ODAUpdatingIterator<T>::updateIndices() {
     const core::MetaData& md(ii_->columns());
 
+    // n.b. String columns may be wider than one double
+    rowDataSizeDoubles_ = 0;
+    for (size_t i = 0; i < md.size(); ++i)
+        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();
+
     delete[] data_;
-    data_ = new double[md.size()];
+    data_ = new double[rowDataSizeDoubles_];
 
     for (size_t i = 0; i < columns_.size(); ++i)
         columnIndices_[i] = md.columnIndex(columns_[i]);
@@ -48,7 +54,7 @@ void ODAUpdatingIterator<T>::updateIndices() {
 
 template <typename T>
 ODAUpdatingIterator<T>::ODAUpdatingIterator(const T& end) :
-    ii_(end), end_(end), columnIndices_(), values_(), data_(0), refCount_(0), noMore_(true) {}
+    ii_(end), end_(end), columnIndices_(), values_(), data_(0), rowDataSizeDoubles_(0), refCount_(0), noMore_(true) {}
 
 template <typename T>
 ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
@@ -57,8 +63,11 @@ ODAUpdatingIterator<T>::~ODAUpdatingIterator() {
 
 template <typename T>
 void ODAUpdatingIterator<T>::update() {
-    for (size_t i = 0; i < columnIndices_.size(); ++i)
-        data_[columnIndices_[i]] = values_[i];
+    for (size_t i = 0; i < columnIndices_.size(); ++i) {
+        double* data = data_ + ii_->dataOffset(columnIndices_[i]);
+        std::fill(data, data + ii_->dataSizeDoubles(columnIndices_[i]), 0);
+        data[0] = values_[i];
+    }
 }
 
 template <typename T>
@@ -76,7 +85,7 @@ bool ODAUpdatingIterator<T>::next() {
         if (ii_->isNewDataset())
             updateIndices();
 
-        std::copy(ii_->data(), ii_->data() + ii_->columns().size(), data_);
+        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
         update();
     }
     noMore_ = !r;
diff --git a/src/odc/ODAUpdatingIterator.h b/src/odc/ODAUpdatingIterator.h
index 901d57c..8836526 100644
--- a/src/odc/ODAUpdatingIterator.h
+++ b/src/odc/ODAUpdatingIterator.h
@@ -68,6 +68,7 @@ private:
     const std::vector<double> values_;
 
     double* data_;
+    size_t rowDataSizeDoubles_;
 
 public:
 
-- 
2.43.0


From a8ec5fa973a78d4e3f1b098cf182c0f90f5566ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 50/75] fix: odc mdset silently ignored new values for long
 constant strings

---
 src/odc/tools/MDSetTool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 1189092..9e13b8f 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -88,6 +88,11 @@ void MDSetTool::run() {
                     ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                     throw UserError(ss.str());
                 }
+                if (codec.name() == "long_constant_string") {
+                    // n.b. Its value is not that of min and max
+                    throw UserError(std::string("The value of column '") + columns[i] +
+                                    "' cannot be changed (codec: " + codec.name() + ")");
+                }
                 double v(StringTool::translate(values[i]));
                 c.min(v);
                 c.max(v);
-- 
2.43.0


From 07486b4e92b6cd1baa127e17780bc20711a2190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 51/75] fix: a column's full name was ambiguous when it is the
 unqualified name of others

---
 src/odc/core/MetaData.cc | 12 ++++++++++++
 src/odc/core/MetaData.h  |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 04b2edc..7cf1e82 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -107,6 +107,18 @@ size_t MetaData::columnIndex(const std::string& name) const {
     const size_t notFound = std::numeric_limits<size_t>::max();
     size_t index          = notFound;
 
+    // n.b. The full name of one column may be the unqualified name of others
+
+    for (size_t i = 0; i < size(); i++)
+        if (at(i)->name() == name) {
+            if (index != notFound)
+                throw AmbiguousColumnException(name);
+            index = i;
+        }
+
+    if (index != notFound)
+        return index;
+
     for (size_t i = 0; i < size(); i++)
         if (columnNameMatches(at(i)->name(), name)) {
             if (index == notFound)
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index cccc429..a4411ae 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -93,6 +93,8 @@ public:
     ///
     /// If no column with this name is found, a ColumnNotFoundException is thrown.
     ///
+    /// A column with exactly this name is found first, whatever other columns there are.
+    ///
     /// If the column name is not qualified with a table name and a column with this name is found
     /// in multiple tables, an AmbiguousColumnException is thrown.
     size_t columnIndex(const std::string&) const;
-- 
2.43.0


From c3b444de365cd50b4dd2a4d38be153f05add3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 52/75] fix: SQL over more than one table read stale data after
 the first pass over a table

---
 src/odc/sql/TODATableIterator.cc | 10 ++++++++--
 src/odc/sql/TODATableIterator.h  |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index 6dcf607..bc559a5 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -61,7 +61,8 @@ TODATableIterator<READER>::TODATableIterator(
     end_(parent_.oda().end()),
     columns_(columns),
     metadataUpdateCallback_(metadataUpdateCallback),
-    firstRow_(true) {
+    firstRow_(true),
+    rewound_(false) {
 
     if (it_ != end_)
         updateMetaData();
@@ -73,6 +74,7 @@ void TODATableIterator<READER>::rewind() {
         it_       = const_cast<READER&>(parent_.oda()).begin();
         end_      = parent_.oda().end();
         firstRow_ = true;
+        rewound_  = true;
     }
 }
 
@@ -84,8 +86,12 @@ bool TODATableIterator<READER>::next() {
 
     // We don't need to increment pointer on first row. begin() just called.
 
+    bool newData = false;
+
     if (firstRow_) {
         firstRow_ = false;
+        newData   = rewound_;
+        rewound_  = false;
     }
     else {
         ++it_;
@@ -94,7 +100,7 @@ bool TODATableIterator<READER>::next() {
     if (it_ == end_)
         return false;
 
-    if (it_->isNewDataset()) {
+    if (newData || it_->isNewDataset()) {
         // TODO: Need to update the column pointers in the SQLSelect. AARGH.
         updateMetaData();
         metadataUpdateCallback_(*this);
diff --git a/src/odc/sql/TODATableIterator.h b/src/odc/sql/TODATableIterator.h
index 91ae541..310412f 100644
--- a/src/odc/sql/TODATableIterator.h
+++ b/src/odc/sql/TODATableIterator.h
@@ -70,6 +70,7 @@ private:  // members
     std::function<void(eckit::sql::SQLTableIterator&)> metadataUpdateCallback_;
 
     bool firstRow_;
+    bool rewound_;  // The data has moved since the metadata was last looked at
 };
 
 extern template class TODATableIterator<Reader>;
-- 
2.43.0


From f5fc096aaa5c97080985abfc62154387e3b8a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 53/75] fix: odc sql ignored -length without -offset, and read
 nothing with -offset alone

---
 src/odc/tools/SQLTool.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index 70ea5b6..a15821d 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -13,6 +13,7 @@
 #include <ostream>
 
 #include "eckit/exception/Exceptions.h"
+#include "eckit/filesystem/PathName.h"
 #include "eckit/io/FileDescHandle.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/io/Length.h"
@@ -123,11 +124,16 @@ void SQLTool::run() {
             NOTIMP;  // Is this working?
             /// parser.parseString(session, sql, &fh, config);
         }
-        else if (offset_ == eckit::Offset(0)) {
+        else if (offset_ == eckit::Offset(0) && length_ == eckit::Length(0)) {
             implicitTableDH.reset(new FileHandle(inputFile_));
         }
         else {
-            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length_));
+            // Without a length, use everything from the offset on
+            eckit::Length length = length_;
+            if (length == eckit::Length(0)) {
+                length = PathName(inputFile_).size() - eckit::Length(offset_);
+            }
+            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length));
         }
 
         implicitTableDH->openForRead();
-- 
2.43.0


From f3e4723cf9d022ebc1421d39bd2a9c3f75dd1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:42 +0000
Subject: [PATCH 54/75] fix: NULLs of a CSV file were values to SQL

---
 src/odc/csv/TextReaderIterator.cc | 2 ++
 src/odc/sql/TODATable.cc          | 6 ++++++
 src/odc/sql/TODATableIterator.cc  | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/odc/csv/TextReaderIterator.cc b/src/odc/csv/TextReaderIterator.cc
index c6d4e49..6734628 100644
--- a/src/odc/csv/TextReaderIterator.cc
+++ b/src/odc/csv/TextReaderIterator.cc
@@ -209,6 +209,8 @@ bool TextReaderIterator::next() {
     for (size_t i = 0; i < nCols; ++i) {
         const std::string& v(S::trim(values[i]));
         if (S::upper(v) == "NULL") {
+            if (columns_[i]->type() != api::STRING)
+                columns_[i]->hasMissing(true);
             lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
         }
         else {
diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 0c9a10b..7af9fa9 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -9,6 +9,7 @@
  */
 
 #include <sstream>
+#include <type_traits>
 
 #include "eckit/io/FileHandle.h"
 #include "eckit/sql/SQLColumn.h"
@@ -94,6 +95,11 @@ void TODATable<READER>::populateMetaData() {
 
         const std::string name(column.name());
         bool hasMissing(column.hasMissing());
+
+        // n.b. Values anywhere in a text can be NULL, which is not known before they are read
+        if (std::is_same<READER, TextReader>::value && column.type() != STRING)
+            hasMissing = true;
+
         double missing(column.missingValue());
         BitfieldDef bitfieldDef(column.bitfieldDef());
 
diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index bc559a5..b576e22 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <type_traits>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/sql/SQLColumn.h"
 
@@ -124,7 +126,8 @@ void TODATableIterator<READER>::updateMetaData() {
 
         columnOffsets_.push_back(it_->dataOffset(idx));
         columnDoublesSizes_.push_back(it_->dataSizeDoubles(idx));
-        columnsHaveMissing_.push_back(it_->hasMissing(idx));
+        columnsHaveMissing_.push_back(it_->hasMissing(idx) ||
+                                      (std::is_same<READER, TextReader>::value && md[idx]->type() != api::STRING));
         columnMissingValues_.push_back(it_->missingValue(idx));
     }
 }
-- 
2.43.0


From de3a44efb91491d5409d97dfe31400e198ecf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 55/75] fix: the last member of a bitfield was dropped by the
 legacy C API

---
 src/odc/odccapi.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index 05a5de0..c24ed5d 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -400,6 +400,12 @@ int odb_write_iterator_set_bitfield(oda_write_iterator_ptr wi, int index, int ty
     eckit::sql::Sizes(bitfield_sizes);
 
     //	std::cout << " columnName = " << name << " " << bnames << " " << bsizes << std::endl;
+    // n.b. the last entry may or may not be followed by a colon
+    if (!bnames.empty() && bnames.back() != ':')
+        bnames.push_back(':');
+    if (!bsizes.empty() && bsizes.back() != ':')
+        bsizes.push_back(':');
+
     size_t iprev(0);
     for (size_t i(0); i < bnames.size(); i++) {
         if (bnames[i] == ':') {
-- 
2.43.0


From bf703be2fad0c747993a050248b8cba6a7d826ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:45 +0000
Subject: [PATCH 56/75] fix: the legacy C API read past the columns for a
 missing value

---
 src/odc/odccapi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/odccapi.cc b/src/odc/odccapi.cc
index c24ed5d..b5fad4a 100644
--- a/src/odc/odccapi.cc
+++ b/src/odc/odccapi.cc
@@ -457,7 +457,7 @@ int odb_write_iterator_get_column_offset(oda_write_iterator_ptr wi, int n, int*
 
 int odb_read_iterator_get_missing_value(oda_read_iterator_ptr ri, int index, double* value) {
     ReaderIterator* r(reinterpret_cast<ReaderIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || index >= long(r->columns().size())) {
         std::stringstream ss;
         ss << "odb_read_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
@@ -514,7 +514,7 @@ int odb_select_iterator_get_bitfield(oda_select_iterator_ptr it, int index, char
 
 int odb_select_iterator_get_missing_value(oda_select_iterator_ptr ri, int index, double* value) {
     SelectIterator* r(reinterpret_cast<SelectIterator*>(ri));
-    if (index < 0 || long(r->columns().size()) < index) {
+    if (index < 0 || index >= long(r->columns().size())) {
         std::stringstream ss;
         ss << "odb_select_iterator_get_missing_value: index " << index << " out of range, should be between 0 and "
            << r->columns().size();
-- 
2.43.0


From 1b97865b36c14866f260aad69616975975fe72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:02 +0000
Subject: [PATCH 57/75] fix: a second SELECT from the same table failed

---
 src/odc/sql/TODATable.cc | 10 +++++++++-
 src/odc/sql/TODATable.h  |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/odc/sql/TODATable.cc b/src/odc/sql/TODATable.cc
index 7af9fa9..24ae8c4 100644
--- a/src/odc/sql/TODATable.cc
+++ b/src/odc/sql/TODATable.cc
@@ -69,7 +69,7 @@ ODAFactory odaFactoryInstance;
 
 template <typename READER>
 TODATable<READER>::TODATable(SQLDatabase& owner, const std::string& path, const std::string& name, READER&& oda) :
-    SQLTable(owner, path, name), oda_(std::move(oda)), readerIterator_(oda_.begin()) {
+    SQLTable(owner, path, name), oda_(std::move(oda)), readerIterator_(oda_.begin()), readerIteratorUsed_(false) {
 
     populateMetaData();
 }
@@ -242,6 +242,14 @@ template <typename READER>
 SQLTableIterator* TODATable<READER>::iterator(
     const std::vector<std::reference_wrapper<const eckit::sql::SQLColumn>>& columns,
     std::function<void(eckit::sql::SQLTableIterator&)> metadataUpdateCallback) const {
+    // n.b. The iterator which has provided the metadata is good for iterating once only
+
+    if (readerIteratorUsed_) {
+        return new TODATableIterator<READER>(*this, columns, metadataUpdateCallback,
+                                             const_cast<READER&>(oda_).begin());
+    }
+
+    readerIteratorUsed_ = true;
     return new TODATableIterator<READER>(*this, columns, metadataUpdateCallback, readerIterator_);
 }
 
diff --git a/src/odc/sql/TODATable.h b/src/odc/sql/TODATable.h
index 7e58591..21a24c9 100644
--- a/src/odc/sql/TODATable.h
+++ b/src/odc/sql/TODATable.h
@@ -64,6 +64,7 @@ private:  // members
 
     // This is a hack. Avoid calling begin() twice on non-seekable DataHandle if possible
     typename READER::iterator readerIterator_;
+    mutable bool readerIteratorUsed_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e7a54055098300d8007bff3c7987ddffc48b6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 58/75] fix: rows that became shorter were refused by a SELECT
 into the caller's buffer

---
 src/odc/sql/SQLSelectOutput.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/odc/sql/SQLSelectOutput.cc b/src/odc/sql/SQLSelectOutput.cc
index 5fa9600..7c633d8 100644
--- a/src/odc/sql/SQLSelectOutput.cc
+++ b/src/odc/sql/SQLSelectOutput.cc
@@ -72,7 +72,11 @@ void SQLSelectOutput::flush() {}
 
 bool SQLSelectOutput::output(const expression::Expressions& results) {
     ASSERT(results.size() == columnSizesDoubles_.size());
+
+    // n.b. The size of the rows may have changed since the buffer was provided
+    ASSERT(bufferElements_ >= requiredBufferSize_);
     pos_ = out_;
+    end_ = out_ + requiredBufferSize_;
     for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size(); currentColumn_++) {
         results[currentColumn_]->output(*this);
     }
-- 
2.43.0


From 35f4c8049aff1870fbabf0081a101fe7609081e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 59/75] fix: rows were rewritten under the bitfield definition
 and missing values of an earlier frame

---
 src/odc/WriterBufferingIterator.h    |  2 +-
 src/odc/WriterDispatchingIterator.cc |  4 ++--
 src/odc/core/Column.cc               |  4 +++-
 src/odc/core/MetaData.cc             | 13 +++++++++++++
 src/odc/core/MetaData.h              |  4 ++++
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/odc/WriterBufferingIterator.h b/src/odc/WriterBufferingIterator.h
index 51d12e3..09ba1da 100644
--- a/src/odc/WriterBufferingIterator.h
+++ b/src/odc/WriterBufferingIterator.h
@@ -199,7 +199,7 @@ unsigned long WriterBufferingIterator::pass1(T& it, const T& end) {
 
     unsigned long nrows = 0;
     for (; it != end; ++it, ++nrows) {
-        if (it->isNewDataset() && it->columns() != columns()) {
+        if (it->isNewDataset() && !it->columns().interchangeable(columns())) {
             LOG_DEBUG_LIB(LibOdc) << "WriterBufferingIterator::pass1: Change of input metadata." << std::endl;
             flush();
             pass1init(it, end);
diff --git a/src/odc/WriterDispatchingIterator.cc b/src/odc/WriterDispatchingIterator.cc
index 7787d38..9146cc1 100644
--- a/src/odc/WriterDispatchingIterator.cc
+++ b/src/odc/WriterDispatchingIterator.cc
@@ -412,7 +412,7 @@ const MetaData& WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::columns(const
 
 template <typename WRITE_ITERATOR, typename OWNER>
 void WriterDispatchingIterator<WRITE_ITERATOR, OWNER>::changeColumns(const MetaData& md) {
-    if (initialized_ && columns() == md)
+    if (initialized_ && columns().interchangeable(md))
         return;
 
     columns(md);
@@ -517,7 +517,7 @@ void WriterDispatchingIterator<WriterBufferingIterator, DispatchingWriter>::veri
     unsigned long numberOfDifferences(0);
     long long i(0);
     for (; it != end; ++i) {
-        if (it->isNewDataset() && columns() != it->columns()) {
+        if (it->isNewDataset() && !columns().interchangeable(it->columns())) {
             columns(it->columns());
             parseTemplateParameters();
         }
diff --git a/src/odc/core/Column.cc b/src/odc/core/Column.cc
index 8794fed..d490b30 100644
--- a/src/odc/core/Column.cc
+++ b/src/odc/core/Column.cc
@@ -96,13 +96,15 @@ bool Column::isConstant() {
 // Column::Column(DataHandle *dataHandle) : dataHandle_(dataHandle), name_(), type_(IGNORE/*?*/), coder_(0) {}
 
 
-/// return true if names and types are the same; do not compare codecs.
+/// return true if names and types (the members of bitfields included) are the same; do not compare codecs.
 bool Column::operator==(const Column& other) const {
     return equals(other);
 }
 
 bool Column::equals(const Column& other, bool compareDataSizes) const {
     if (name() == other.name() && type() == other.type()) {
+        if (type() == BITFIELD && bitfieldDef() != other.bitfieldDef())
+            return false;
         if (compareDataSizes) {
             return (dataSizeDoubles() == other.dataSizeDoubles());
         }
diff --git a/src/odc/core/MetaData.cc b/src/odc/core/MetaData.cc
index 7cf1e82..36d34ea 100644
--- a/src/odc/core/MetaData.cc
+++ b/src/odc/core/MetaData.cc
@@ -277,6 +277,19 @@ bool MetaData::compatible(const MetaData& other) const {
     return true;
 }
 
+bool MetaData::interchangeable(const MetaData& other) const {
+
+    if (!equals(other))
+        return false;
+
+    for (size_t i = 0; i < size(); ++i) {
+        if (at(i)->type() != STRING && at(i)->rawMissingValue() != other[i]->rawMissingValue())
+            return false;
+    }
+
+    return true;
+}
+
 void MetaData::resetStats() {
     // LOG_DEBUG_LIB(LibOdc) << "MetaData::resetStats" << std::endl;
     for (size_t i = 0; i < size(); i++) {
diff --git a/src/odc/core/MetaData.h b/src/odc/core/MetaData.h
index a4411ae..d622ae2 100644
--- a/src/odc/core/MetaData.h
+++ b/src/odc/core/MetaData.h
@@ -59,6 +59,10 @@ public:
     bool operator!=(const MetaData& other) const { return !(*this == other); }
     bool compatible(const MetaData& other) const;
 
+    /// \brief Return true if the columns are equal, and missing values are marked by the same values,
+    /// so that the rows of one table can be written, as they are, to the other.
+    bool interchangeable(const MetaData& other) const;
+
     void operator|=(const MetaData& other);
 
     template <typename ByteStream>
-- 
2.43.0


From c47949c2d319e29c172510aa4295f8a66b41c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 60/75] fix: odc merge kept the first frame's bitfield
 definitions and missing values

---
 src/odc/tools/MergeTool.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/odc/tools/MergeTool.cc b/src/odc/tools/MergeTool.cc
index b601926..3d530a2 100644
--- a/src/odc/tools/MergeTool.cc
+++ b/src/odc/tools/MergeTool.cc
@@ -111,6 +111,9 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
         // String columns may get wider along the inputs
         std::map<std::string, size_t> resetColumnSizes;
 
+        // ... and bitfields be defined, or missing values be marked, differently
+        bool redefined = false;
+
         for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
             I& in(iterators[ii].first);
 
@@ -124,7 +127,24 @@ void doMerge(std::vector<std::pair<I, I>>& iterators, const PathName& outputFile
                     throw eckit::UserError("The columns of an input file of merge change", Here());
                 if (in->dataSizeDoubles(cn) > out->dataSizeDoubles(i))
                     resetColumnSizes[inColumn.name()] = in->dataSizeDoubles(cn);
+                if (inColumn.type() == api::BITFIELD && inColumn.bitfieldDef() != outColumn.bitfieldDef())
+                    redefined = true;
+                if (inColumn.type() != api::STRING && inColumn.rawMissingValue() != outColumn.rawMissingValue())
+                    redefined = true;
+            }
+        }
+
+        if (redefined) {
+            (**out).flush();
+            for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {
+                for (const Column* inColumn : iterators[ii].first->columns()) {
+                    Column& outColumn(*out->columns()[i++]);
+                    outColumn.bitfieldDef(inColumn->bitfieldDef());
+                    if (inColumn->type() != api::STRING)
+                        outColumn.missingValue(inColumn->rawMissingValue());
+                }
             }
+            out->writeHeader();
         }
 
         if (!resetColumnSizes.empty())
-- 
2.43.0


From b264979acdffcd75561f2feda142d9816005dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 61/75] fix: a frame refused for duplicate columns was decoded
 when asked again

---
 src/odc/core/Table.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index 2a34e32..b2d90a6 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -101,15 +101,22 @@ const std::map<std::string, size_t>& Table::columnLookup() {
         const MetaData& metadata(columns());
         size_t ncols = metadata.size();
 
+        // n.b. The lookups are only kept if they are complete
+        std::map<std::string, size_t> lookup;
+        std::map<std::string, size_t> simpleLookup;
+
         for (size_t i = 0; i < ncols; i++) {
             const auto& nm(metadata[i]->name());
-            if (!columnLookup_.emplace(nm, i).second) {
+            if (!lookup.emplace(nm, i).second) {
                 std::stringstream ss;
                 ss << "Duplicate column '" << nm << "' " << " found in table";
                 throw ODBDecodeError(ss.str(), Here());
             }
-            simpleColumnLookup_.emplace(nm.substr(0, nm.find('@')), i);
+            simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
         }
+
+        columnLookup_.swap(lookup);
+        simpleColumnLookup_.swap(simpleLookup);
     }
 
     return columnLookup_;
-- 
2.43.0


From 402704a92a94e759e523698eaf7dc15df357d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:17 +0000
Subject: [PATCH 62/75] fix: decoding an ambiguous unqualified column name took
 the first match of each frame

---
 src/odc/core/Table.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/odc/core/Table.cc b/src/odc/core/Table.cc
index b2d90a6..dece3f3 100644
--- a/src/odc/core/Table.cc
+++ b/src/odc/core/Table.cc
@@ -94,6 +94,9 @@ Buffer Table::readEncodedData(bool includeHeader) {
     }
 }
 
+/// Marks unqualified names which are shared by several columns in the lookup of simple names
+constexpr size_t ambiguousColumn = std::numeric_limits<size_t>::max();
+
 const std::map<std::string, size_t>& Table::columnLookup() {
 
     if (columnLookup_.empty()) {
@@ -112,7 +115,9 @@ const std::map<std::string, size_t>& Table::columnLookup() {
                 ss << "Duplicate column '" << nm << "' " << " found in table";
                 throw ODBDecodeError(ss.str(), Here());
             }
-            simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
+            auto simple = simpleLookup.emplace(nm.substr(0, nm.find('@')), i);
+            if (!simple.second)
+                simple.first->second = ambiguousColumn;
         }
 
         columnLookup_.swap(lookup);
@@ -163,6 +168,8 @@ void Table::decode(DecodeTarget& target) {
         }
 
         size_t pos = it->second;
+        if (pos == ambiguousColumn)
+            throw AmbiguousColumnException(nm);
         if (visitColumn[pos]) {
             std::stringstream ss;
             ss << "Duplicated column '" << nm << "' in decode specification";
@@ -389,6 +396,9 @@ Span Table::decodeSpan(const std::vector<std::string>& columns) {
             throw ODBDecodeError(ss.str(), Here());
         }
 
+        if (it->second == ambiguousColumn)
+            throw AmbiguousColumnException(columnName);
+
         visitColumn[it->second] = true;
 
         // n.b. The codec determines how much is decoded, whatever the type of the column is
-- 
2.43.0


From 224ac85f65ec29e34d4fc357e6bb36c9f05ca025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 63/75] fix: odc index and odc split -sort opened each block's
 handle twice, which eckit refuses

---
 src/odc/Indexer.cc         | 1 -
 src/odc/tools/SplitTool.cc | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/odc/Indexer.cc b/src/odc/Indexer.cc
index 3fce56b..da148cb 100644
--- a/src/odc/Indexer.cc
+++ b/src/odc/Indexer.cc
@@ -77,7 +77,6 @@ void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {
         Length blockLength(offsets[i].second);
 
         PartFileHandle h(dataFile, blockBegin, blockLength);
-        h.openForRead();
         AutoClose closer(h);
 
         int prevSeqno(-1);
diff --git a/src/odc/tools/SplitTool.cc b/src/odc/tools/SplitTool.cc
index 39be998..5d6aadc 100644
--- a/src/odc/tools/SplitTool.cc
+++ b/src/odc/tools/SplitTool.cc
@@ -127,7 +127,6 @@ void SplitTool::presortAndSplit(const PathName& inFile, const std::string& outFi
     vector<std::pair<Offset, Length> > chunks(getChunks(inFile));
     for (size_t i = 0; i < chunks.size(); ++i) {
         PartFileHandle h(inFile, chunks[i].first, chunks[i].second);
-        h.openForRead();
         AutoClose closer(h);
         odc::Select in(sql, h);
         outIt->pass1(in.begin(), in.end());
-- 
2.43.0


From 2ca38de3c950f22cb5ac73b48179191b29abaa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 64/75] fix: a frame cut off on a handle of unknown size went
 unreported when its data were skipped

---
 src/odc/core/ThreadSharedDataHandle.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/odc/core/ThreadSharedDataHandle.cc b/src/odc/core/ThreadSharedDataHandle.cc
index e1d3f38..63d4ad1 100644
--- a/src/odc/core/ThreadSharedDataHandle.cc
+++ b/src/odc/core/ThreadSharedDataHandle.cc
@@ -123,7 +123,15 @@ eckit::Offset ThreadSharedDataHandle::position() {
 }
 
 eckit::Offset ThreadSharedDataHandle::seek(const eckit::Offset& position) {
+
+    ASSERT(internal_);
+    std::lock_guard<std::mutex> lock(internal_->m_);
+
+    // n.b. A handle may end before the position requested (e.g. if the data has been truncated)
     position_ = position;
+    if (position_ != internal_->dh_->position()) {
+        position_ = internal_->dh_->seek(position);
+    }
     return position_;
 }
 
-- 
2.43.0


From 6428233aa8577b2674ca4b431a6c136934435dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 65/75] fix: encoding with no rows per frame wrote empty frames
 for ever

---
 src/odc/api/Odb.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/api/Odb.cc b/src/odc/api/Odb.cc
index d678902..e8eb489 100644
--- a/src/odc/api/Odb.cc
+++ b/src/odc/api/Odb.cc
@@ -671,6 +671,7 @@ void encode(DataHandle& out, const std::vector<ColumnInfo>& columns, const std::
         core::encodeFrame(out, columns, data, properties);
     }
     else {
+        ASSERT(maxRowsPerFrame > 0);
         std::vector<ConstStridedData> sliced;
         sliced.reserve(ncols);
         size_t start = 0;
-- 
2.43.0


From 0528da8e9186e92cffab88b5233d168d04fcb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 66/75] fix: data elements smaller than the values of their
 column are refused by the encoder

---
 src/odc/core/Encoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index 1872407..ed54e30 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -64,6 +64,7 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
 
     for (size_t col = 0; col < ncols; ++col) {
         ASSERT(data[col].nelem() == nrows);
+        ASSERT(data[col].dataSize() >= columns[col].decodedSize);
         Codec& coder(md[col]->coder());
 
         for (const char* d : data[col]) {
-- 
2.43.0


From 17a31bc41ce1facaea6fb108f6de9625bfd7feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 67/75] fix: encoding a table without rows into a file failed
 after its frame had been written

---
 src/odc/core/Encoder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/odc/core/Encoder.cc b/src/odc/core/Encoder.cc
index ed54e30..14c0a36 100644
--- a/src/odc/core/Encoder.cc
+++ b/src/odc/core/Encoder.cc
@@ -124,6 +124,8 @@ void encodeFrame(eckit::DataHandle& out, const std::vector<api::ColumnInfo>& col
     // And output the data
 
     ASSERT(out.write(encodedHeader.first, encodedHeader.second) == long(encodedHeader.second));
+    if (nrows == 0)
+        return;
     ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());
 }
 
-- 
2.43.0


From 2a011ece95b7225d654e180e9ed0145de1427cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 68/75] fix: odc import -d turned a letter used as delimiter
 into upper case

---
 src/odc/tools/ImportTool.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/ImportTool.cc b/src/odc/tools/ImportTool.cc
index f8b3001..8ddca14 100644
--- a/src/odc/tools/ImportTool.cc
+++ b/src/odc/tools/ImportTool.cc
@@ -68,8 +68,9 @@ void ImportTool::run() {
 
     Log::info() << "ImportTool::run: inFile: " << inFile << ", outFile: " << outFile << std::endl;
 
-    std::string delimiter(StringTools::upper(optionArgument("-d", defaultDelimiter())));
-    delimiter = delimiter == "TAB" ? "\t" : delimiter == "SPACE" ? " " : delimiter;
+    std::string delimiter(optionArgument("-d", defaultDelimiter()));
+    const std::string name(StringTools::upper(delimiter));
+    delimiter = name == "TAB" ? "\t" : name == "SPACE" ? " " : delimiter;
 
     std::string sql(optionArgument("-sql", std::string("select *;")));
 
-- 
2.43.0


From d2b47e31e4d3b76ee4654aeec509e44374f25b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 69/75] fix: odc sql took script names that contain the letters
 select for statements

---
 src/odc/StringTool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/StringTool.cc b/src/odc/StringTool.cc
index 61475f2..1b194df 100644
--- a/src/odc/StringTool.cc
+++ b/src/odc/StringTool.cc
@@ -184,7 +184,9 @@ std::string StringTool::patchTimeForMars(const std::string& ss) {
 }
 
 bool StringTool::isSelectStatement(const std::string& s) {
-    return StringTool::match("select", eckit::StringTools::lower(eckit::StringTools::trim(s)));
+    // n.b. The word may also be part of the name of a file, which is no statement
+    return StringTool::match("(^|[^a-z0-9_])select([^a-z0-9_./]|$)",
+                             eckit::StringTools::lower(eckit::StringTools::trim(s)));
 }
 
 }  // namespace odc
-- 
2.43.0


From a67ca6281b4f124d5b78d21269e8574378ca8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 70/75] fix: odc compact and fixrowsize rejected their own
 output when missing values occur in some frames only

---
 src/odc/tools/CompactTool.cc      | 3 ++-
 src/odc/tools/FixedSizeRowTool.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/odc/tools/CompactTool.cc b/src/odc/tools/CompactTool.cc
index 3690d66..79199fc 100644
--- a/src/odc/tools/CompactTool.cc
+++ b/src/odc/tools/CompactTool.cc
@@ -54,7 +54,8 @@ void CompactTool::run() {
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
 
-    odc::Comparator comparator;
+    // n.b. Whether columns are flagged as having missing values depends on the split into frames
+    odc::Comparator comparator(true);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
diff --git a/src/odc/tools/FixedSizeRowTool.cc b/src/odc/tools/FixedSizeRowTool.cc
index 2292be8..f984001 100644
--- a/src/odc/tools/FixedSizeRowTool.cc
+++ b/src/odc/tools/FixedSizeRowTool.cc
@@ -50,7 +50,8 @@ void FixedSizeRowTool::run() {
     odc::Reader::iterator end1 = in.end();
     odc::Reader::iterator it2  = outReader.begin();
     odc::Reader::iterator end2 = outReader.end();
-    odc::Comparator comparator;
+    // n.b. Whether columns are flagged as having missing values depends on the split into frames
+    odc::Comparator comparator(true);
     comparator.compare(it1, end1, it2, end2, inFile, outFile);
 }
 
-- 
2.43.0


From ac36c0ae6d4de0402797fee15433838a9fbac092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 71/75] fix: odc sql -o with a template left an empty file of
 the template's name

---
 src/odc/tools/SQLTool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/SQLTool.cc b/src/odc/tools/SQLTool.cc
index a15821d..2cb8e2b 100644
--- a/src/odc/tools/SQLTool.cc
+++ b/src/odc/tools/SQLTool.cc
@@ -106,7 +106,9 @@ void SQLTool::run() {
 
 
     std::unique_ptr<std::ofstream> outStream;
-    if (optionIsSet("-o") && sqlOutputConfig_->outputFormat() != "odb") {
+    // n.b. ODB data, which is what is written to a file by default, do not go through the stream
+    const std::string format(sqlOutputConfig_->outputFormat());
+    if (optionIsSet("-o") && format != "odb" && format != "default") {
         outStream.reset(new std::ofstream(optionArgument("-o", std::string("")).c_str()));
         sqlOutputConfig_->setOutputStream(*outStream);
     }
-- 
2.43.0


From 31add8d1f6d7c5908474217326ace7bafd142754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 72/75] fix: odc set made a row out of a file without rows

---
 src/odc/ODAUpdatingIterator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/odc/ODAUpdatingIterator.cc b/src/odc/ODAUpdatingIterator.cc
index 2e8ba91..52a73cd 100644
--- a/src/odc/ODAUpdatingIterator.cc
+++ b/src/odc/ODAUpdatingIterator.cc
@@ -32,6 +32,12 @@ ODAUpdatingIterator<T>::ODAUpdatingIterator(T& ii, const T& end, const std::vect
     ASSERT(columns.size() == values.size());
 
     updateIndices();
+
+    // n.b. There may be no rows at all
+    noMore_ = !(ii_ != end_);
+    if (noMore_)
+        return;
+
     std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
     update();
 }
-- 
2.43.0


From efbc02e40023fbe8ec44365c3975023ac71dc4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 73/75] fix: odc mdset failed on frames without rows

---
 src/odc/tools/MDSetTool.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/tools/MDSetTool.cc b/src/odc/tools/MDSetTool.cc
index 9e13b8f..4a2b37d 100644
--- a/src/odc/tools/MDSetTool.cc
+++ b/src/odc/tools/MDSetTool.cc
@@ -118,7 +118,9 @@ void MDSetTool::run() {
                 core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
             outHandle->write(encodedHeader.first, encodedHeader.second);
         }
-        outHandle->write(encodedData.data(), sizeOfEncodedData);
+        // n.b. A frame without rows has no data
+        if (sizeOfEncodedData != 0)
+            outHandle->write(encodedData.data(), sizeOfEncodedData);
     }
 }
 
-- 
2.43.0


From b7da1f73a2fd5c406baa2af3cc0fe5e84d480f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 74/75] fix: SQL over a file whose frames have no rows failed

---
 src/odc/sql/TODATableIterator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/odc/sql/TODATableIterator.cc b/src/odc/sql/TODATableIterator.cc
index b576e22..28e8bae 100644
--- a/src/odc/sql/TODATableIterator.cc
+++ b/src/odc/sql/TODATableIterator.cc
@@ -66,8 +66,8 @@ TODATableIterator<READER>::TODATableIterator(
     firstRow_(true),
     rewound_(false) {
 
-    if (it_ != end_)
-        updateMetaData();
+    // n.b. The columns are known even if there are no rows
+    updateMetaData();
 }
 
 template <typename READER>
-- 
2.43.0


From b2b52cca203809e83fc6fea6a346d12600990603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:58 +0000
Subject: [PATCH 75/75] fix: files without rows were reported to differ if one
 has no frames

---
 src/odc/Comparator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/odc/Comparator.h b/src/odc/Comparator.h
index a8c0a29..95544e0 100644
--- a/src/odc/Comparator.h
+++ b/src/odc/Comparator.h
@@ -112,7 +112,9 @@ bool Comparator::compare(T1& it1, const T1& end1, T2& it2, const T2& end2, const
     std::set<std::string> excludedColumnsTypesSet(excludedColumnsTypes.begin(), excludedColumnsTypes.end());
     std::set<std::string> excludedColumnsSet(excludedColumns.begin(), excludedColumns.end());
 
-    compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);
+    // n.b. A file without any frames has no columns, but may have the same rows as one with empty frames only: none
+    if (it1->columns().size() != 0 && it2->columns().size() != 0)
+        compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);
 
     for (; it1 != end1 && it2 != end2; ++it1, ++it2) {
         ++nRow_;
-- 
2.43.0

