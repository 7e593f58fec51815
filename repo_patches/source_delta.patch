From 1b6283b72f249abacd818eae4e0adc3b53a4636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 01/31] fix: NUL-terminate the point received by
 NpBaseObliviousTransfer

receivePoint() terminated the hex string with a newline instead of a NUL, so
EC_POINT_hex2point read past the end of the buffer (and, since OpenSSL 3
rejects the newline, no base OT could complete).
---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From 41c4bf1630956c8e752b17e0f5951544f07bbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 02/31] fix: size of a lazily batched-up wire comes from the
 expected batch sizes

GateKeeper::batchingUp read the values of its operands when the gate was
scheduled; an operand whose gate has not executed yet has none, so the
new wire reported a batch size that was too small.
---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From ab3d7b31e622af0e544a152e30cb2e1736540610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 03/31] fix: an empty batch AND/MULT has no scheduled result to
 collect

The gates skip scheduling for an empty batch but still looked up an
uninitialised result index afterwards.
---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 4 ++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6a5af23 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,10 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..7f7b8d7 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,10 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From a90704e3993ed8e3239eab36ce5bcdfbdc14c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 04/31] fix: reject a lazy unbatching that asks for more values
 than the batch has

The eager and plaintext schedulers already do; the lazy gate read past
the end of the batch.
---
 fbpcf/scheduler/gate_keeper/RebatchingGate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/RebatchingGate.h b/fbpcf/scheduler/gate_keeper/RebatchingGate.h
index cbbea7c..b721770 100644
--- a/fbpcf/scheduler/gate_keeper/RebatchingGate.h
+++ b/fbpcf/scheduler/gate_keeper/RebatchingGate.h
@@ -153,6 +153,10 @@ class RebatchingBooleanGate : public IGate {
     auto& src = wireKeeper_.getBatchBooleanValue(batchWireID_);
     for (size_t i = 0; i < unbatchingStrategy_->size(); i++) {
       std::vector<bool> dst(unbatchingStrategy_->at(i));
+      if (batchIndex + dst.size() > src.size()) {
+        throw std::runtime_error(
+            "Failed to unbatch, you are unbatching to more values than the input has.");
+      }
       std::copy(
           src.begin() + batchIndex,
           src.begin() + batchIndex + dst.size(),
-- 
2.43.0


From 651cd7a0a84e918d4c3f297100a85edcdd483cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 05/31] fix: the engine returns a result for every scheduled
 gate, also when all batches are empty

---
 fbpcf/engine/SecretShareEngine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..ea96b12 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -524,8 +524,8 @@ SecretShareEngine::computeAllScheduledOperations(
       openedSecretCount += batchSize * (1 + compositeSize);
     }
 
-    if (normalTupleCount == 0 && compositeTupleCount.empty() &&
-        integerTupleCount == 0) {
+    if (ands.empty() && batchAnds.empty() && compositeAnds.empty() &&
+        batchCompositeAnds.empty() && mults.empty() && batchMults.empty()) {
       return {
           std::vector<bool>(),
           std::vector<std::vector<bool>>(),
@@ -591,7 +591,8 @@ SecretShareEngine::computeAllScheduledOperations(
       normalTupleCount += compositeSize * batchSize;
     }
 
-    if (normalTupleCount == 0 && integerTupleCount == 0) {
+    if (ands.empty() && batchAnds.empty() && compositeAnds.empty() &&
+        batchCompositeAnds.empty() && mults.empty() && batchMults.empty()) {
       return {
           std::vector<bool>(),
           std::vector<std::vector<bool>>(),
-- 
2.43.0


From 65752d6caaff1ab76001290a1a7828fedc15e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 06/31] fix: assigning a Bit to itself keeps its wire

---
 fbpcf/frontend/Bit_impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..0ac1413 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // acquire before releasing: src may be *this
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
@@ -89,7 +90,9 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     Bit<isSecret, schedulerId, usingBatch>&& src) {
-  moveId(id_, src.id_);
+  if (this != &src) {
+    moveId(id_, src.id_);
+  }
   return *this;
 }
 
-- 
2.43.0


From 98c090439f7175075ce1c68262aa627feb4d3a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 07/31] fix: addition and subtraction of one-bit integers wrap

---
 fbpcf/frontend/Int_impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..e07fc58 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +180,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From e0c15d337ba05687a13d71f069ea7609000a2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 08/31] fix: in-memory agent consumes the part of a message it
 delivers

A receive smaller than the message at the head of the queue computed the
number of bytes to erase after appending them to the result, when it is
zero, so the same bytes were delivered again by the next receive.
---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..6e9b92b 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      auto end = buf.begin() + (size - result.size());
+      result.insert(result.end(), buf.begin(), end);
+      buf.erase(buf.begin(), end);
     }
   }
   return result;
-- 
2.43.0


From 71535d0cd4856b29cbe7296d9e8712dcd049a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 09/31] fix: socket agent reports a failed or short read or
 write

A closed or broken connection was only noticed by assert(), so with NDEBUG
receive() returned a zero padded message (and with TLS never returned), and
send() dropped data silently.
---
 .../SocketPartyCommunicationAgent.cpp         | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..3dcdd03 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -122,17 +122,23 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
 }
 
 void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
-  size_t bytesWritten;
+  if (nBytes == 0) {
+    return;
+  }
+  size_t bytesWritten = 0;
   if (!ssl_) {
     bytesWritten = fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
+    if (bytesWritten != nBytes || fflush(outgoingPort_) != 0) {
+      throw std::runtime_error("error on sending data to peer");
+    }
   } else {
-    bytesWritten = SSL_write(ssl_, data, nBytes);
+    auto written = SSL_write(ssl_, data, nBytes);
+    if (written != nBytes) {
+      throw std::runtime_error("error on sending data to peer with TLS");
+    }
+    bytesWritten = written;
   }
-  assert(bytesWritten == nBytes);
   recorder_->addSentData(bytesWritten);
-  if (!ssl_) {
-    fflush(outgoingPort_);
-  }
 }
 
 void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
@@ -140,19 +146,26 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
 
   if (!ssl_) {
     bytesRead = fread(data, sizeof(unsigned char), nBytes, incomingPort_);
+    if (bytesRead != nBytes) {
+      throw std::runtime_error("connection ended before all data was received");
+    }
   } else {
     // fread is blocking, but SSL_read is nonblocking. This discrepancy
     // can cause issues at the application level. We need to make sure that
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
     while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+      auto read = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (read <= 0) {
+        throw std::runtime_error(
+            "TLS connection ended before all data was received");
+      }
+      bytesRead += read;
     }
   }
-  assert(bytesRead == nBytes);
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From 9d52edc4ff489335a1d7e7fa685b2c3f2283b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 10/31] fix: wrap-around of Intp subtraction and negation for
 every width, no bit beyond the width

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 35 ++++++++++--------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..6d7d353 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -59,11 +59,7 @@ class Intp {
   }
 
   Intp<isSigned, width> operator-() const {
-    if constexpr (isSigned) {
-      return v_ == kMin ? v_ : -v_;
-    } else {
-      return kOffSet - v_;
-    }
+    return Intp<isSigned, width>(subtract(0, v_));
   }
 
   Intp<isSigned, width> operator-(const Intp<isSigned, width>& other) const {
@@ -111,28 +107,21 @@ class Intp {
     }
   }
 
-  static NativeType add(NativeType a, NativeType b) {
-    if constexpr (
-        isSigned &&
-        ((width == 8) || (width == 16) || (width == 32) || (width == 64))) {
-      // special handling is needed only for signed integer with some special
-      // width (e.g. overflow is possible).
-      return round(uint64_t(a) + uint64_t(b));
+  // keep the lowest "width" bits, i.e. wrap around at 2^width
+  static NativeType wrapAround(uint64_t v) {
+    if constexpr (isSigned) {
+      return static_cast<int64_t>(v << (64 - width)) >> (64 - width);
     } else {
-      return round(a + b);
+      return v & kMax;
     }
   }
 
+  static NativeType add(NativeType a, NativeType b) {
+    return wrapAround(uint64_t(a) + uint64_t(b));
+  }
+
   static NativeType subtract(NativeType a, NativeType b) {
-    if constexpr (
-        isSigned &&
-        ((width == 8) || (width == 16) || (width == 32) || (width == 64))) {
-      // special handling is needed only for signed integer with some special
-      // width (e.g. overflow is possible).
-      return round(uint64_t(a) - uint64_t(b));
-    } else {
-      return round(a - b);
-    }
+    return wrapAround(uint64_t(a) - uint64_t(b));
   }
 
   NativeType v_;
@@ -157,7 +146,7 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    for (size_t t = 0; t < width; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From 0cdc1dd0ee60a081ffbbaba157c2ae030478288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 11/31] fix: LocalFileReader::close reports success after the
 file was read to its end

---
 fbpcf/io/api/LocalFileReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbpcf/io/api/LocalFileReader.cpp b/fbpcf/io/api/LocalFileReader.cpp
index 9fcf0be..0ff2180 100644
--- a/fbpcf/io/api/LocalFileReader.cpp
+++ b/fbpcf/io/api/LocalFileReader.cpp
@@ -31,6 +31,9 @@ int LocalFileReader::close() {
     return 0;
   }
   isClosed_ = true;
+  // reading up to the end of the file leaves eofbit and failbit set, which says
+  // nothing about whether closing succeeds
+  inputStream_->clear();
   inputStream_->close();
 
   return inputStream_->fail() ? -1 : 0;
-- 
2.43.0


From 9d5317bd591db1007420adf9e5d90b009ee1a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 12/31] fix: FileIOWrappers report a failing close instead of
 dropping the data silently

---
 fbpcf/io/api/FileIOWrappers.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..f84dbb0 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 
 #include "fbpcf/io/api/BufferedReader.h"
@@ -17,6 +18,17 @@
 
 namespace fbpcf::io {
 
+namespace {
+// the data may only reach the file when the writer is closed, so a failing
+// close means that the content is not (completely) there
+void closeWriter(BufferedWriter& writer) {
+  if (writer.close() != 0) {
+    throw std::runtime_error(
+        "Failed to write all the content of " + writer.getFilePath());
+  }
+}
+} // namespace
+
 std::string FileIOWrappers::readFile(const std::string& srcPath) {
   auto reader = std::make_unique<fbpcf::io::FileReader>(srcPath);
   auto bufferedReader =
@@ -38,7 +50,7 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  closeWriter(*bufferedWriter);
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -60,7 +72,7 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  closeWriter(*bufferedWriter);
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From 35723d2926fe700baf8c6f8489651142beee79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 13/31] fix: S3FileUploader never completes an upload which
 lost a part

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 9 +++++++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..d0f09d0 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -46,6 +46,10 @@ void S3FileUploader::init() {
   }
 }
 int S3FileUploader::upload(std::vector<char>& buf) {
+  if (isAborted_) {
+    XLOG(ERR) << "Upload was aborted. Upload ID: " << uploadId_;
+    return 0;
+  }
   XLOG(INFO) << "Start uploading part:" << "Part number: " << partNumber_
              << "\nBucket: " << bucket_ << "\nKey: " << key_;
   Aws::S3::Model::UploadPartRequest request;
@@ -83,6 +87,10 @@ int S3FileUploader::upload(std::vector<char>& buf) {
   }
 }
 int S3FileUploader::complete() {
+  if (isAborted_) {
+    XLOG(ERR) << "File " << filePath_ << " failed to upload.";
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
@@ -104,6 +112,7 @@ int S3FileUploader::complete() {
 }
 
 void S3FileUploader::abortUpload() {
+  isAborted_ = true;
   Aws::S3::Model::AbortMultipartUploadRequest abortRequest;
   abortRequest.SetBucket(bucket_);
   abortRequest.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..09aff3d 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -34,6 +34,9 @@ class S3FileUploader : public IFileUploader {
   std::string key_;
   std::string uploadId_;
   std::size_t partNumber_ = 1;
+  // a part is missing for good, so the object must never be completed (the
+  // request to abort the upload may itself have failed)
+  bool isAborted_ = false;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
 };
 
-- 
2.43.0


From 036992b541415f3fa68eb3d2cf76728a298906f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 14/31] fix: LocalFileManager::write accepts a file name
 without a directory

---
 fbpcf/io/LocalFileManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..6762a79 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -42,7 +42,9 @@ void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
-- 
2.43.0


From 6acc47a774d0f05a24cd43e28b4cd22f789ec1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 15/31] fix: LocalFileManager::write reports data that could
 not be written

---
 fbpcf/io/LocalFileManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 6762a79..8b30a0a 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -51,6 +51,10 @@ void LocalFileManager::write(
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
-- 
2.43.0


From a5774636e41639a5c78ebcf426b736fbbe163f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 16/31] fix: LocalFileManager::readBytes returns bytes after a
 NUL

---
 fbpcf/io/LocalFileManager.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 8b30a0a..0ac0860 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -87,19 +87,16 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string s(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  if (bufferLength > 0 && !is.read(s.data(), bufferLength)) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
   return s;
 }
 } // namespace fbpcf
-- 
2.43.0


From 413fd6661d2f844099a51949c39560eda52e679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 17/31] fix: GCS addresses keep the dots of the bucket name

---
 fbpcf/gcp/GCSUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..9bd96b6 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,8 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    // the bucket name may itself contain dots
+    bucket = host.substr(0, host.find(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
-- 
2.43.0


From a09d372b1a8dc9dbe41f0dc1c037a266b6998147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 18/31] fix: S3FileManager::copy refuses a source file it
 cannot open

---
 fbpcf/io/S3FileManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..1aa574b 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -86,6 +86,9 @@ void S3FileManager::copy(
     const std::string& destination) {
   std::shared_ptr<std::iostream> sourceData = std::make_shared<std::fstream>(
       sourceFile.c_str(), std::ios_base::in | std::ios_base::binary);
+  if (sourceData->fail()) {
+    throw AwsException{"Failed to open file " + sourceFile};
+  }
   writeDataStream(destination, sourceData);
 }
 
-- 
2.43.0


From ad43e378b5e532172ba2ce7d4074c34a323ea7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 19/31] fix: forget the unmatched indexes of the previous UDP
 session

---
 .../unified_data_process/data_processor/UdpEncryption.cpp        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index 1e8ed73..f464404 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -62,6 +62,7 @@ void UdpEncryption::prepareToProcessPeerData(
   }
   statusOfProcessingPeerData_ = Status::inProgress;
 
+  indexToOrderMap_.clear();
   for (size_t i = 0; i < indexes.size(); i++) {
     indexToOrderMap_.emplace(indexes.at(i), i);
   }
-- 
2.43.0


From 57684401e1d8205255d362b8d1ee28d654b1764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 20/31] fix: UDP row indexes are 64 bits wide

---
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From cebcc6396f5825db43e78af0bed0157001ce73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 21/31] fix: refuse UDP rows of a different width anywhere in
 the batch

---
 .../data_processor/UdpEncryption.cpp                   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
index f464404..99e7015 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.cpp
@@ -38,10 +38,12 @@ void UdpEncryption::processMyData(
   if (plaintextData.size() == 0) {
     throw std::invalid_argument("can't use empty inputs");
   }
-  if (plaintextData.at(0).size() != myDataWidth_) {
-    throw std::invalid_argument(
-        "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
-        " but get " + std::to_string(plaintextData.at(0).size()));
+  for (const auto& row : plaintextData) {
+    if (row.size() != myDataWidth_) {
+      throw std::invalid_argument(
+          "Inconsistent data width, expecting " + std::to_string(myDataWidth_) +
+          " but get " + std::to_string(row.size()));
+    }
   }
 
   auto [ciphertext, nonce] =
-- 
2.43.0


From 4594e0583852e7995990c42a581a85227471d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 22/31] fix: localEncryption honours its index offset

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From ba04bbffb736813f74de04988419228736c70bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 23/31] fix: S2V doubles its mask for padded texts only

---
 fbpcf/primitive/mac/S2v.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index 8d687b6..d89ab8a 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -21,21 +21,23 @@ std::vector<unsigned char> S2v::getMac128(
 
   __m128i initalMac = mac_->getMacM128i(initialBlock);
 
-  // dbl
-  bool msb = engine::util::getMsb(initalMac);
-  engine::util::lShiftByBitsInPlace(initalMac, 1);
-  if (msb) {
-    initalMac = _mm_xor_si128(initalMac, rb);
-  }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
-
-  // pad
+  // a text of at least one block is masked with the MAC itself, so that it can
+  // never be confused with a padded shorter one
   if (textCopy.size() < 16) {
+    // dbl
+    bool msb = engine::util::getMsb(initalMac);
+    engine::util::lShiftByBitsInPlace(initalMac, 1);
+    if (msb) {
+      initalMac = _mm_xor_si128(initalMac, rb);
+    }
+
+    // pad
     textCopy.push_back(0x80);
     while (textCopy.size() < 16) {
       textCopy.push_back(0x00);
     }
   }
+  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
 
   // xor or xorend
   for (size_t i = 0; i < 16; ++i) {
-- 
2.43.0


From 848e863b2c956725ce53cefb33a45780ac96dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 24/31] fix: S2V doubles in the byte order of RFC 5297

---
 fbpcf/primitive/mac/S2v.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index d89ab8a..af2217e 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -15,20 +15,21 @@ __m128i S2v::getMacM128i(const std::vector<unsigned char>& text) const {
 
 std::vector<unsigned char> S2v::getMac128(
     const std::vector<unsigned char>& text) const {
-  __m128i rb = _mm_set_epi64x(0, rb_nonce);
   std::vector<unsigned char> textCopy(text);
-  std::vector<unsigned char> initialBlock(16);
-
-  __m128i initalMac = mac_->getMacM128i(initialBlock);
+  std::vector<unsigned char> initialBlock =
+      mac_->getMac128(std::vector<unsigned char>(16));
 
   // a text of at least one block is masked with the MAC itself, so that it can
   // never be confused with a padded shorter one
   if (textCopy.size() < 16) {
-    // dbl
-    bool msb = engine::util::getMsb(initalMac);
-    engine::util::lShiftByBitsInPlace(initalMac, 1);
+    // dbl, the first byte is the most significant one
+    bool msb = initialBlock.at(0) >> 7;
+    for (size_t i = 0; i < 16; ++i) {
+      initialBlock.at(i) = (initialBlock.at(i) << 1) |
+          (i < 15 ? initialBlock.at(i + 1) >> 7 : 0);
+    }
     if (msb) {
-      initalMac = _mm_xor_si128(initalMac, rb);
+      initialBlock.at(15) ^= rb_nonce;
     }
 
     // pad
@@ -37,7 +38,6 @@ std::vector<unsigned char> S2v::getMac128(
       textCopy.push_back(0x00);
     }
   }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
 
   // xor or xorend
   for (size_t i = 0; i < 16; ++i) {
-- 
2.43.0


From 0785910f0eda88286e15c8b7f008d0035ba1ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 25/31] fix: OT-based multiplication refuses columns of
 different sizes

---
 .../walr_multiplication/OTBasedMatrixMultiplication_impl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
index efa1987..c092ef6 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
@@ -43,6 +43,12 @@ std::vector<double> OTBasedMatrixMultiplication<schedulerId, FixedPointType>::
         "with less than " +
         std::to_string(std::numeric_limits<uint32_t>::max()) + " rows.");
   }
+  for (const auto& column : features) {
+    if (column.size() != nFeatures) {
+      throw std::invalid_argument(
+          "Columns of the feature matrix have different sizes.");
+    }
+  }
 
   // Extracting label before running COTwRM to help the other party
   // extract its label share, which will be used as choice bit
-- 
2.43.0


From f0bb2daccb2c0ab58678a3c9dfeb8213c50ae357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 26/31] fix: the OT-based multiplication factory keeps its PRG
 factory for later products

---
 .../walr_multiplication/OTBasedMatrixMultiplication.h         | 4 ++--
 .../walr_multiplication/OTBasedMatrixMultiplicationFactory.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
index eec5f8f..53e093d 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication.h
@@ -68,7 +68,7 @@ class OTBasedMatrixMultiplication final
       bool isFeatureOwner,
       uint64_t divisor, // The precision loss will be roughly 1 / divisor
       std::unique_ptr<engine::communication::IPartyCommunicationAgent> agent,
-      std::unique_ptr<engine::util::IPrgFactory> prgFactory,
+      std::shared_ptr<engine::util::IPrgFactory> prgFactory,
       std::unique_ptr<util::COTWithRandomMessage> cotWRM,
       std::shared_ptr<OTBasedMatrixMultiplicationMetricRecorder> recorder)
       : myId_(myId),
@@ -107,7 +107,7 @@ class OTBasedMatrixMultiplication final
   bool isFeatureOwner_;
   util::NumberMapper<FixedPointType> numberMapper_;
   std::unique_ptr<engine::communication::IPartyCommunicationAgent> agent_;
-  std::unique_ptr<engine::util::IPrgFactory> prgFactory_;
+  std::shared_ptr<engine::util::IPrgFactory> prgFactory_;
   std::unique_ptr<util::COTWithRandomMessage> cotWRM_;
   std::shared_ptr<OTBasedMatrixMultiplicationMetricRecorder> recorder_;
 };
diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
index 86b645f..7eb8602 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplicationFactory.h
@@ -106,7 +106,7 @@ class OTBasedMatrixMultiplicationFactory final
             partnerId_,
             "walr_matrix_multiplication_traffic_to_party " +
                 std::to_string(partnerId_)),
-        std::move(prgFactory_),
+        prgFactory_,
         std::move(cotWRM),
         recorder);
   }
@@ -117,7 +117,7 @@ class OTBasedMatrixMultiplicationFactory final
   bool isFeatureOwner_;
   uint64_t divisor_;
   engine::communication::IPartyCommunicationAgentFactory& agentFactory_;
-  std::unique_ptr<engine::util::IPrgFactory> prgFactory_;
+  std::shared_ptr<engine::util::IPrgFactory> prgFactory_;
   std::unique_ptr<util::COTWithRandomMessageFactory> cotWRMFactory_;
 };
 
-- 
2.43.0


From e9a6bb34cb7986b590683702dfcff3c6293681f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 27/31] fix: a metric collector keeps recorders that share a
 name

---
 fbpcf/util/MetricCollector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fbpcf/util/MetricCollector.h b/fbpcf/util/MetricCollector.h
index fce655d..8b91904 100644
--- a/fbpcf/util/MetricCollector.h
+++ b/fbpcf/util/MetricCollector.h
@@ -22,7 +22,11 @@ class MetricCollector {
   void addNewRecorder(
       std::string name,
       std::shared_ptr<IMetricRecorder> recorder) {
-    recorders_.emplace(name, recorder);
+    // a name that is taken already gets a number, so that no recorder is lost
+    auto key = name;
+    for (size_t i = 2; !recorders_.emplace(key, recorder).second; ++i) {
+      key = name + "_" + std::to_string(i);
+    }
   }
 
   folly::dynamic collectMetrics() const {
-- 
2.43.0


From cbf8e902b1da7090a298213badf7a9b885e9f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 28/31] fix: Int and BitString of public batched values can be
 batched with others

---
 fbpcf/frontend/BitString_impl.h | 2 +-
 fbpcf/frontend/Int_impl.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbpcf/frontend/BitString_impl.h b/fbpcf/frontend/BitString_impl.h
index d403772..b3d68bc 100644
--- a/fbpcf/frontend/BitString_impl.h
+++ b/fbpcf/frontend/BitString_impl.h
@@ -177,7 +177,7 @@ BitString<isSecret, schedulerId, usingBatch>::batchingWith(
 
   BitString<isSecret, schedulerId, usingBatch> rst(data_.size());
   size_t batchSize = others.size();
-  std::vector<Bit<true, schedulerId, usingBatch>> bits(batchSize);
+  std::vector<Bit<isSecret, schedulerId, usingBatch>> bits(batchSize);
   for (size_t i = 0; i < data_.size(); i++) {
     for (size_t j = 0; j < batchSize; j++) {
       bits[j] = others.at(j).data_.at(i);
diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index e07fc58..f0dc28f 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -695,7 +695,7 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::batchingWith(
   static_assert(usingBatch, "Only batch values needs to rebatch!");
   Int<isSigned, width, isSecret, schedulerId, usingBatch> rst;
   size_t batchSize = others.size();
-  std::vector<Bit<true, schedulerId, usingBatch>> bits(batchSize);
+  std::vector<Bit<isSecret, schedulerId, usingBatch>> bits(batchSize);
   for (size_t i = 0; i < width; i++) {
     for (size_t j = 0; j < batchSize; j++) {
       bits[j] = others.at(j).data_.at(i);
-- 
2.43.0


From d50ae3b0d7faad441712d9a567a34e30b5014504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 29/31] fix: I03 refuse cloud addresses of hosts that are not
 the service they name

---
 fbpcf/aws/S3Util.cpp  |  2 +-
 fbpcf/gcp/GCSUtil.cpp | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fbpcf/aws/S3Util.cpp b/fbpcf/aws/S3Util.cpp
index 4f3c5ec..c55eb4f 100644
--- a/fbpcf/aws/S3Util.cpp
+++ b/fbpcf/aws/S3Util.cpp
@@ -54,7 +54,7 @@ S3ObjectReference uriToObjectReference(std::string url) {
     // Matches "bucket.s3.region.amazonaws.com" or
     // "bucket.s3-region.amazonaws.com"
     static const re2::RE2 endpoint_pattern(
-        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws.com");
+        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws\\.com");
 
     // Sub-match 1: (bucket).s3.region.amazonaws.com
     // Sub-match 2: bucket.s3.(region).amazonaws.com
diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index 9bd96b6..fe9ed44 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -39,10 +39,13 @@ GCSObjectReference uriToObjectReference(std::string url) {
 
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
-  } else if (host.find(".storage.googleapis.com") != std::string::npos) {
+  } else if (boost::iends_with(host, ".storage.googleapis.com")) {
     // the bucket name may itself contain dots
-    bucket = host.substr(0, host.find(".storage.googleapis.com"));
-  } else {
+    bucket = host.substr(
+        0, host.length() - std::string(".storage.googleapis.com").length());
+  } else if (
+      boost::iequals(host, "storage.cloud.google.com") ||
+      boost::iequals(host, "storage.googleapis.com")) {
     // Remove the first character '/' in path
     path = path.substr(1);
     pos = path.find("/");
@@ -53,6 +56,11 @@ GCSObjectReference uriToObjectReference(std::string url) {
           url)};
     }
     bucket = path.substr(0, pos);
+  } else {
+    throw GcpException{folly::sformat(
+        "Incorrect GCS URI format: {}"
+        "not an address of GCS",
+        url)};
   }
 
   // path.substr(pos+1) to remove the first character '/'
-- 
2.43.0


From 518e763267fb7203fdecf6e2d36467e408f7e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 30/31] fix: an engine without boolean tuples reports its
 traffic

NullTupleGenerator::getTrafficStatistics threw, so that an integer-only
engine could neither report its traffic nor be given up by its scheduler.
---
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0


From ac9524a50add5c170e4c08e755363e4baffb47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 31/31] fix: engine traffic includes the generation of integer
 tuples

SecretShareEngine::getTrafficStatistics left out what its arithmetic tuple
generator sent and received.
---
 fbpcf/engine/SecretShareEngine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..faf9d26 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
-- 
2.43.0

