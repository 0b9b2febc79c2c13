From 83fd06bb5b9cbcd571fa5f3138bd6f539aec78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 01/37] fix: in-memory channel consumed nothing when a receive
 took part of a message

---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..2cd5aa3 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      auto taken = size - result.size();
+      result.insert(result.end(), buf.begin(), buf.begin() + taken);
+      buf.erase(buf.begin(), buf.begin() + taken);
     }
   }
   return result;
-- 
2.43.0


From 5ed3a6161afee5907c4cf9c4e76e79de69570060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 02/37] fix: report failed sends and receives of the socket
 channel to the caller

---
 .../SocketPartyCommunicationAgent.cpp         | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..c206579 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -122,17 +122,21 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
 }
 
 void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
-  size_t bytesWritten;
-  if (!ssl_) {
-    bytesWritten = fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
-  } else {
-    bytesWritten = SSL_write(ssl_, data, nBytes);
+  if (nBytes == 0) {
+    return;
   }
-  assert(bytesWritten == nBytes);
-  recorder_->addSentData(bytesWritten);
   if (!ssl_) {
-    fflush(outgoingPort_);
+    size_t bytesWritten =
+        fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
+    if (bytesWritten != nBytes || fflush(outgoingPort_) != 0) {
+      throw std::runtime_error("error on sending data to the other party");
+    }
+  } else {
+    if (SSL_write(ssl_, data, nBytes) != nBytes) {
+      throw std::runtime_error("error on sending data to the other party");
+    }
   }
+  recorder_->addSentData(nBytes);
 }
 
 void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
@@ -146,13 +150,19 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
     while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+      auto rst = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (rst <= 0) {
+        break;
+      }
+      bytesRead += rst;
     }
   }
-  assert(bytesRead == nBytes);
+  if (bytesRead != nBytes) {
+    throw std::runtime_error("error on receiving data from the other party");
+  }
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From e4282bffc3daaf075b2f11f6168a1373cacb84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 03/37] fix: size of a joined batch is taken from pending
 operands too

GateKeeper::batchingUp summed the sizes of the values present so far, so a
batch that is not computed yet counted as empty and the joined wire reported a
wrong batch size.
---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From adc1f17ac7a9b8207b3a389860edaeca8abf1e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 04/37] fix: deferred AND and multiplication of empty batches

Nothing is scheduled for an empty batch, but its result was still collected
with an index that was never set.
---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 4 ++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6a5af23 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,10 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..7f7b8d7 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,10 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From c569b6eed3c2999968704fac9d682787323ee70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 05/37] fix: integer-only engines report their traffic

NullTupleGenerator threw from getTrafficStatistics, so asking an integer-only
engine for its traffic, or deleting it through a scheduler, failed. It moves
no data, like NullArithmeticTupleGenerator.
---
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0


From 3b4d0a4303653835925fe45455b8e23e119c4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 06/37] fix: order the two sides' sends in the RCOT based
 bidirectional OT

Both parties sent all their messages before receiving any. Once the messages
outgrow what the network buffers (20 MB each way for the integer tuples at the
default buffer size), both parties block forever. Let the party with the larger
id send first, as the secret share communication agent does.
---
 .../RcotBasedBidirectionObliviousTransfer.cpp | 38 ++++++++++++-------
 .../RcotBasedBidirectionObliviousTransfer.h   | 13 ++++++-
 ...BasedBidirectionObliviousTransferFactory.h |  3 +-
 3 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp
index 50191f6..6583e48 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.cpp
@@ -18,12 +18,28 @@ RcotBasedBidirectionObliviousTransfer::RcotBasedBidirectionObliviousTransfer(
     std::unique_ptr<communication::IPartyCommunicationAgent> agent,
     __m128i delta,
     std::unique_ptr<IRandomCorrelatedObliviousTransfer> senderRcot,
-    std::unique_ptr<IRandomCorrelatedObliviousTransfer> receiverRcot)
+    std::unique_ptr<IRandomCorrelatedObliviousTransfer> receiverRcot,
+    bool sendFirst)
     : hashFromAes_(util::Aes::getFixedKey()),
       agent_(std::move(agent)),
       delta_(delta),
       senderRcot_(std::move(senderRcot)),
-      receiverRcot_(std::move(receiverRcot)) {}
+      receiverRcot_(std::move(receiverRcot)),
+      sendFirst_(sendFirst) {}
+
+template <typename T>
+std::vector<T> RcotBasedBidirectionObliviousTransfer::exchange(
+    const std::vector<T>& messages) {
+  std::vector<T> received;
+  if (sendFirst_) {
+    agent_->sendT<T>(messages);
+    received = agent_->receiveT<T>(messages.size());
+  } else {
+    received = agent_->receiveT<T>(messages.size());
+    agent_->sendT<T>(messages);
+  }
+  return received;
+}
 
 /**
  * From rcot to ot:
@@ -67,9 +83,8 @@ std::vector<bool> RcotBasedBidirectionObliviousTransfer::biDirectionOT(
     maskedChoice[i] = util::getLsb(rcotReceiverMessages[i]) ^ choice[i];
   }
 
-  agent_->sendBool(maskedChoice);
   // p + choice2 / r + choice1
-  auto flipIndicator = agent_->receiveBool(otSize);
+  auto flipIndicator = exchange<bool>(maskedChoice);
 
   assert(flipIndicator.size() == otSize);
   // h(k0) / h(l0)
@@ -102,14 +117,12 @@ std::vector<bool> RcotBasedBidirectionObliviousTransfer::biDirectionOT(
         flipIndicator[i] ? rcotSender0Messages[i] : rcotSender1Messages[i]);
   }
 
-  agent_->sendT<bool>(maskedInput0);
-  agent_->sendT<bool>(maskedInput1);
   // c0 = y0 + h((r + choice1) * delta2 + l0, |y0|) /
   // c0 = x0 + h((p + choice2) * delta1 + k0, |x0|)
-  auto correction0 = agent_->receiveT<bool>(maskedInput0.size());
+  auto correction0 = exchange<bool>(maskedInput0);
   // c1 = y1 + h((r + choice1) * delta2 + l1, |y1|) /
   // c1 = x1 + h((p + choice2) * delta1 + k1, |x1|)
-  auto correction1 = agent_->receiveT<bool>(maskedInput1.size());
+  auto correction1 = exchange<bool>(maskedInput1);
 
   assert(correction0.size() == otSize);
   assert(correction1.size() == otSize);
@@ -172,9 +185,8 @@ std::vector<uint64_t> RcotBasedBidirectionObliviousTransfer::biDirectionOT(
     maskedChoice[i] = util::getLsb(rcotReceiverMessages[i]) ^ choice[i];
   }
 
-  agent_->sendBool(maskedChoice);
   // p + choice2 / r + choice1
-  auto flipIndicator = agent_->receiveBool(otSize);
+  auto flipIndicator = exchange<bool>(maskedChoice);
 
   assert(flipIndicator.size() == otSize);
   // h(k0) / h(l0)
@@ -207,14 +219,12 @@ std::vector<uint64_t> RcotBasedBidirectionObliviousTransfer::biDirectionOT(
         flipIndicator[i] ? rcotSender0Messages[i] : rcotSender1Messages[i]);
   }
 
-  agent_->sendT<uint64_t>(maskedInput0);
-  agent_->sendT<uint64_t>(maskedInput1);
   // c0 = y0 + h((r + choice1) * delta2 + l0, |y0|) /
   // c0 = x0 + h((p + choice2) * delta1 + k0, |x0|)
-  auto correction0 = agent_->receiveT<uint64_t>(maskedInput0.size());
+  auto correction0 = exchange<uint64_t>(maskedInput0);
   // c1 = y1 + h((r + choice1) * delta2 + l1, |y1|) /
   // c1 = x1 + h((p + choice2) * delta1 + k1, |x1|)
-  auto correction1 = agent_->receiveT<uint64_t>(maskedInput1.size());
+  auto correction1 = exchange<uint64_t>(maskedInput1);
 
   assert(correction0.size() == otSize);
   assert(correction1.size() == otSize);
diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h
index 04ec530..0fe4da3 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h
@@ -23,11 +23,17 @@ namespace fbpcf::engine::tuple_generator::oblivious_transfer {
 class RcotBasedBidirectionObliviousTransfer final
     : public IBidirectionObliviousTransfer {
  public:
+  /**
+   * @param sendFirst exactly one of the two parties must send before it
+   * receives; otherwise both could block on sending once the messages exceed
+   * what the network is able to buffer.
+   */
   RcotBasedBidirectionObliviousTransfer(
       std::unique_ptr<communication::IPartyCommunicationAgent> agent,
       __m128i delta,
       std::unique_ptr<IRandomCorrelatedObliviousTransfer> senderRcot,
-      std::unique_ptr<IRandomCorrelatedObliviousTransfer> receiverRcot);
+      std::unique_ptr<IRandomCorrelatedObliviousTransfer> receiverRcot,
+      bool sendFirst);
 
   /**
    * @inherit doc
@@ -48,6 +54,10 @@ class RcotBasedBidirectionObliviousTransfer final
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override;
 
  private:
+  // send the messages to the peer and receive as many from it
+  template <typename T>
+  std::vector<T> exchange(const std::vector<T>& messages);
+
   // this cipher is merely used for instantiate a hash h(x) = \pi(x) xor x
   util::Aes hashFromAes_;
 
@@ -55,6 +65,7 @@ class RcotBasedBidirectionObliviousTransfer final
   __m128i delta_;
   std::unique_ptr<IRandomCorrelatedObliviousTransfer> senderRcot_;
   std::unique_ptr<IRandomCorrelatedObliviousTransfer> receiverRcot_;
+  bool sendFirst_;
 };
 
 } // namespace fbpcf::engine::tuple_generator::oblivious_transfer
diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h
index 6bf0d52..653ca07 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h
@@ -52,7 +52,8 @@ class RcotBasedBidirectionObliviousTransferFactory final
         agentFactory_.create(id, "bidirection_ot_traffic"),
         delta,
         std::move(senderRcot),
-        std::move(receiverRcot));
+        std::move(receiverRcot),
+        id < myid_);
   }
 
  private:
-- 
2.43.0


From 5bc6d7461bbad0882600741432bb714a03d7c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 07/37] fix: count the traffic of the arithmetic tuple
 generator in the engine's statistics

---
 fbpcf/engine/SecretShareEngine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..faf9d26 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
-- 
2.43.0


From c08d6a25b191e8d5a0267b143f4e7e90779e9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 08/37] fix: keep every metric recorder when several share a
 name

Channels to different parties are created under the same name; all recorders
but the first were dropped, and their traffic was missing from the metrics.
---
 fbpcf/util/MetricCollector.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fbpcf/util/MetricCollector.h b/fbpcf/util/MetricCollector.h
index fce655d..7eee1b6 100644
--- a/fbpcf/util/MetricCollector.h
+++ b/fbpcf/util/MetricCollector.h
@@ -22,7 +22,13 @@ class MetricCollector {
   void addNewRecorder(
       std::string name,
       std::shared_ptr<IMetricRecorder> recorder) {
-    recorders_.emplace(name, recorder);
+    // recorders may share a name (e.g. channels to different parties): all of
+    // them are kept, told apart by a number.
+    auto uniqueName = name;
+    for (int i = 2; recorders_.count(uniqueName) > 0; i++) {
+      uniqueName = name + "_" + std::to_string(i);
+    }
+    recorders_.emplace(uniqueName, recorder);
   }
 
   folly::dynamic collectMetrics() const {
-- 
2.43.0


From 09f189c52cf983f0cf65c459dc98290dc68bbffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 09/37] fix: failed two-party tuple generation must not leave
 the other generator waiting

A failed generation stayed at the head of the queue, so that the generation
scheduled behind it waited forever, and the buffer's destructor rethrew the
failure (or asked an invalid future), terminating the program.
---
 .../TwoPartyTupleGenerator.cpp                | 57 +++++++++++--------
 .../tuple_generator/TwoPartyTupleGenerator.h  |  8 +++
 fbpcf/engine/util/AsyncBuffer.h               |  6 +-
 3 files changed, 45 insertions(+), 26 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
index ddef570..21d8ff7 100644
--- a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
+++ b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
@@ -97,24 +97,44 @@ TwoPartyTupleGenerator::getNormalAndCompositeBooleanTuples(
   return std::make_pair(std::move(normalTuples), std::move(compositeTuples));
 }
 
-std::vector<ITupleGenerator::BooleanTuple>
-TwoPartyTupleGenerator::generateNormalTuples(uint64_t size) {
-  {
-    std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
-    cv_.wait(scheduleLock, [this] { return toGenerate_.front() == Boolean; });
+void TwoPartyTupleGenerator::waitForTurn(ScheduledTupleType type) {
+  std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
+  cv_.wait(scheduleLock, [this, type] {
+    return generationFailed_ || toGenerate_.front() == type;
+  });
+  if (generationFailed_) {
+    throw std::runtime_error("An earlier tuple generation has failed.");
   }
+}
 
-  auto receiverMessagesFuture =
-      std::async([size, this]() { return receiverRcot_->rcot(size); });
+std::pair<std::vector<__m128i>, std::vector<__m128i>>
+TwoPartyTupleGenerator::generateInTurn(uint64_t size) {
+  try {
+    auto receiverMessagesFuture =
+        std::async([size, this]() { return receiverRcot_->rcot(size); });
 
-  auto sender0Messages = senderRcot_->rcot(size);
-  auto receiverMessages = receiverMessagesFuture.get();
+    auto sender0Messages = senderRcot_->rcot(size);
+    auto receiverMessages = receiverMessagesFuture.get();
 
-  {
     std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
     toGenerate_.pop_front();
     cv_.notify_one();
+    return {std::move(sender0Messages), std::move(receiverMessages)};
+  } catch (...) {
+    // the channels can't be used any more: a generation waiting for its turn
+    // has to fail instead of waiting forever.
+    std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
+    generationFailed_ = true;
+    cv_.notify_all();
+    throw;
   }
+}
+
+std::vector<ITupleGenerator::BooleanTuple>
+TwoPartyTupleGenerator::generateNormalTuples(uint64_t size) {
+  waitForTurn(Boolean);
+
+  auto [sender0Messages, receiverMessages] = generateInTurn(size);
   recorder_->addTuplesGenerated(size);
 
   return expandRCOTResults<false>(
@@ -123,21 +143,8 @@ TwoPartyTupleGenerator::generateNormalTuples(uint64_t size) {
 
 std::vector<std::pair<__m128i, __m128i>>
 TwoPartyTupleGenerator::generateRcotResults(uint64_t size) {
-  {
-    std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
-    cv_.wait(scheduleLock, [this] { return toGenerate_.front() == Composite; });
-  }
-  auto receiverMessagesFuture =
-      std::async([size, this]() { return receiverRcot_->rcot(size); });
-
-  auto sender0Messages = senderRcot_->rcot(size);
-  auto receiverMessages = receiverMessagesFuture.get();
-
-  {
-    std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
-    toGenerate_.pop_front();
-    cv_.notify_one();
-  }
+  waitForTurn(Composite);
+  auto [sender0Messages, receiverMessages] = generateInTurn(size);
 
   std::vector<std::pair<__m128i, __m128i>> rcotMessages(size);
 
diff --git a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
index 4c43730..d5c219f 100644
--- a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
@@ -82,6 +82,13 @@ class TwoPartyTupleGenerator final : public ITupleGenerator {
     Composite,
   };
 
+  // wait until it's the turn of a generation of this type
+  void waitForTurn(ScheduledTupleType type);
+
+  // run both RCOTs, then hand over to the next scheduled generation
+  std::pair<std::vector<__m128i>, std::vector<__m128i>> generateInTurn(
+      uint64_t size);
+
   util::Aes hashFromAes_;
 
   std::unique_ptr<oblivious_transfer::IRandomCorrelatedObliviousTransfer>
@@ -95,6 +102,7 @@ class TwoPartyTupleGenerator final : public ITupleGenerator {
   std::mutex scheduleMutex_;
   std::condition_variable cv_;
   std::deque<ScheduledTupleType> toGenerate_;
+  bool generationFailed_ = false;
 
   util::AsyncBuffer<BooleanTuple> booleanTupleBuffer_;
   util::AsyncBuffer<std::pair<__m128i, __m128i>> rcotBuffer_;
diff --git a/fbpcf/engine/util/AsyncBuffer.h b/fbpcf/engine/util/AsyncBuffer.h
index b8927f8..2f7bd1c 100644
--- a/fbpcf/engine/util/AsyncBuffer.h
+++ b/fbpcf/engine/util/AsyncBuffer.h
@@ -31,7 +31,11 @@ class AsyncBuffer {
   }
 
   ~AsyncBuffer() {
-    futureBuffer_.get();
+    // only wait for the generation to finish: its data, or its failure, is of no
+    // interest any more, and the future is not valid after a failed generation.
+    if (futureBuffer_.valid()) {
+      futureBuffer_.wait();
+    }
   }
 
   std::vector<T> getData(uint64_t size) {
-- 
2.43.0


From ff43c25600cc28dbee1d5da15acc253676085042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 10/37] fix: NP base OT must terminate the string it converts
 to a point

The buffer ended with a newline instead of a NUL: OpenSSL 3 reads past it and
rejects the point, so that no base OT could be run.
---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From a0a87c3b08e629fa4c6f5c1e2dcc232aa401c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 11/37] fix: composite AND of empty batches without composite
 tuple support

The engine returned no result at all for such a gate, so that fetching its
result failed.
---
 fbpcf/engine/SecretShareEngine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..4f1c4e0 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -591,7 +591,9 @@ SecretShareEngine::computeAllScheduledOperations(
       normalTupleCount += compositeSize * batchSize;
     }
 
-    if (normalTupleCount == 0 && integerTupleCount == 0) {
+    // composite ANDs without any element still have (empty) results
+    if (normalTupleCount == 0 && integerTupleCount == 0 &&
+        compositeAnds.empty() && batchCompositeAnds.empty()) {
       return {
           std::vector<bool>(),
           std::vector<std::vector<bool>>(),
-- 
2.43.0


From f06eed7b5c06d7767378052934ae0a42a883d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 12/37] fix: close listening sockets when a party gives up
 connecting

A party that failed to reach one peer left its listening sockets open, so that
another peer, already waiting to be accepted, waited forever for data.
---
 .../SocketPartyCommunicationAgent.cpp         | 22 ++++++++++++++++++-
 .../SocketPartyCommunicationAgentFactory.cpp  | 21 +++++++++++++++++-
 .../SocketPartyCommunicationAgentFactory.h    |  1 +
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index c206579..f514fa0 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -33,6 +33,19 @@ const std::string CERT_FILE = "cert.pem";
 const std::string PRIVATE_KEY_FILE = "key.pem";
 const std::string PASSPHRASE_FILE = "passphrase.pem";
 
+namespace {
+// closes a socket on leaving the scope
+struct SocketCloser {
+  explicit SocketCloser(int socket) : fd(socket) {}
+  SocketCloser(const SocketCloser&) = delete;
+  SocketCloser& operator=(const SocketCloser&) = delete;
+  ~SocketCloser() {
+    close(fd);
+  }
+  const int fd;
+};
+} // namespace
+
 /*
 Per openSSL documentation, this callback is used to provide
 the passphrase to open the private key file. See
@@ -54,6 +67,9 @@ SocketPartyCommunicationAgent::SocketPartyCommunicationAgent(
     : recorder_(recorder),
       ssl_(nullptr),
       timeoutInSec_(1800 /* use a defaule value to avoid error*/) {
+  // nobody else is expected to connect; on failure, a client that is already
+  // waiting to be accepted must not wait forever.
+  SocketCloser listeningSocket(sockFd);
   if (useTls) {
     openServerPortWithTls(sockFd, portNo, tlsDir);
   } else {
@@ -71,6 +87,9 @@ SocketPartyCommunicationAgent::SocketPartyCommunicationAgent(
       ssl_(nullptr),
       tlsInfo_(tlsInfo),
       timeoutInSec_(timeoutInSec) {
+  // nobody else is expected to connect; on failure, a client that is already
+  // waiting to be accepted must not wait forever.
+  SocketCloser listeningSocket(sockFd);
   if (tlsInfo.useTls) {
     openServerPortWithTls(sockFd, portNo, tlsInfo);
   } else {
@@ -173,6 +192,7 @@ void SocketPartyCommunicationAgent::openServerPort(int sockFd, int portNo) {
 
   auto duplicatedConnection = dup(acceptedConnection);
   if (duplicatedConnection < 0) {
+    close(acceptedConnection);
     throw std::runtime_error("error on duplicate socket");
   }
 
@@ -193,6 +213,7 @@ void SocketPartyCommunicationAgent::openClientPort(
 
   auto duplicatedConnection = dup(sockfd);
   if (duplicatedConnection < 0) {
+    close(sockfd);
     throw std::runtime_error("error on duplicate socket");
   }
   incomingPort_ = fdopen(sockfd, "r");
@@ -537,7 +558,6 @@ int SocketPartyCommunicationAgent::receiveFromClient(int sockfd) {
     } else {
       XLOGF(INFO, "Client connected from {}", client_ip);
     }
-    close(sockfd);
     return acceptedConnection;
   } else {
     throw std::runtime_error(
diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
index ef804f0..a1b74aa 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
+#include <unistd.h>
 #include <stdexcept>
 #include <string>
 
@@ -144,6 +145,21 @@ void SocketPartyCommunicationAgentFactory::setupInitialSockets(
 
 void SocketPartyCommunicationAgentFactory::setupInitialConnection(
     const std::map<int, PartyInfo>& partyInfos) {
+  // a party that is waiting to be accepted must not wait forever if this one
+  // gives up
+  try {
+    connectToAllParties(partyInfos);
+  } catch (...) {
+    for (const auto& [partyId, socket] : sockets_) {
+      close(socket);
+    }
+    sockets_.clear();
+    throw;
+  }
+}
+
+void SocketPartyCommunicationAgentFactory::connectToAllParties(
+    const std::map<int, PartyInfo>& partyInfos) {
   for (const auto& [partyId, partyInfo] : partyInfos) {
     if (myId_ < partyId) {
       auto recorder =
@@ -151,12 +167,15 @@ void SocketPartyCommunicationAgentFactory::setupInitialConnection(
       metricCollector_->addNewRecorder(
           "Port_number_sync_traffic_with_party_" + std::to_string(partyId),
           recorder);
+      // the agent closes this socket
+      auto socket = sockets_.at(partyId);
+      sockets_.erase(partyId);
       initialConnections_.insert(
           {partyId,
            std::make_pair(
                partyInfo,
                std::make_unique<SocketPartyCommunicationAgent>(
-                   sockets_.at(partyId),
+                   socket,
                    partyInfo.portNo,
                    tlsInfo_,
                    recorder,
diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h
index 62c4b6c..0fcd759 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h
@@ -202,6 +202,7 @@ establishing multiple connections (>3) between each party pair.
 
   void setupInitialSockets(const std::map<int, PartyInfo>& partyInfos);
   void setupInitialConnection(const std::map<int, PartyInfo>& partyInfos);
+  void connectToAllParties(const std::map<int, PartyInfo>& partyInfos);
 
   int myId_;
   std::map<int, int> sockets_;
-- 
2.43.0


From 57b5bda20c4829d00a3c9811e987cbe74f4e2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 13/37] fix: a failing read of a local file is not its end

peek() returns EOF on I/O errors as well, so LocalFileReader::eof() turned an
error of the file system into a silently truncated file.
---
 fbpcf/io/api/LocalFileReader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/LocalFileReader.cpp b/fbpcf/io/api/LocalFileReader.cpp
index 9fcf0be..ffcf024 100644
--- a/fbpcf/io/api/LocalFileReader.cpp
+++ b/fbpcf/io/api/LocalFileReader.cpp
@@ -53,8 +53,10 @@ size_t LocalFileReader::read(std::vector<char>& buf) {
 
 bool LocalFileReader::eof() {
   // eof() returns true only if we have already attempted to read past the end
-  // of the file
-  return inputStream_->eof() || inputStream_->peek() == EOF;
+  // of the file. peek() also returns EOF when reading fails; that is not the
+  // end of the file, the next read() reports it.
+  return inputStream_->eof() ||
+      (inputStream_->peek() == EOF && !inputStream_->bad());
 }
 
 LocalFileReader::~LocalFileReader() {
-- 
2.43.0


From 20aa378593f32c6d7cc853c54eae794187628ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 14/37] fix: a failing flush in ~BufferedWriter must not end
 the process

close() throws when the remaining bytes cannot be written; letting that leave
the destructor calls std::terminate.
---
 fbpcf/io/api/BufferedWriter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/BufferedWriter.cpp b/fbpcf/io/api/BufferedWriter.cpp
index a73a831..e6cd08d 100644
--- a/fbpcf/io/api/BufferedWriter.cpp
+++ b/fbpcf/io/api/BufferedWriter.cpp
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <exception>
 #include <vector>
 
 #include "fbpcf/io/api/BufferedWriter.h"
@@ -53,7 +54,11 @@ size_t BufferedWriter::writeString(const std::string& line) {
 }
 
 BufferedWriter::~BufferedWriter() {
-  close();
+  try {
+    close();
+  } catch (const std::exception&) {
+    // nothing may leave a destructor; a caller who wants to know calls close()
+  }
 }
 
 void BufferedWriter::flush() {
-- 
2.43.0


From 091ab058b37fd5547bc7c3543a80e6d61b18c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 15/37] fix: report a failed close when writing or transferring
 a file

The last bytes of a local file, and the whole of an object in the cloud, are
only stored by close(); its result was ignored.
---
 fbpcf/io/api/FileIOWrappers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..e2c861d 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 
 #include "fbpcf/io/api/BufferedReader.h"
@@ -38,7 +39,9 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -60,7 +63,9 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From 61e431ad1251136067f2d6fdb07df1bf323e9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 16/37] fix: LocalFileManager reports failed reads and writes

A full disk or an I/O error went unnoticed in write(), read() and copy(), which
returned as if the data had been stored or completely read. Also accept a file
name without a directory.
---
 fbpcf/io/LocalFileManager.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..9618793 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -32,23 +32,37 @@ std::unique_ptr<IInputStream> LocalFileManager::getInputStream(
 
 std::string LocalFileManager::read(const std::string& fileName) {
   auto stream = getInputStream(fileName);
-  std::stringstream ss;
-  ss << stream->get().rdbuf();
+  auto& is = stream->get();
+  std::string data;
+  char buffer[4096];
+  while (is.good()) {
+    is.read(buffer, sizeof(buffer));
+    data.append(buffer, is.gcount());
+  }
+  if (is.bad()) {
+    throw PcfException{folly::sformat("Failed to read file {}", fileName)};
+  }
 
-  return ss.str();
+  return data;
 }
 
 void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
-- 
2.43.0


From b6a63d7a6748a7a37529671f27e4650f45133f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 17/37] fix: LocalFileManager::readBytes returns all bytes of
 the range

The result ended at the first zero byte, and large ranges overflowed the stack.
---
 fbpcf/io/LocalFileManager.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 9618793..6fde815 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -95,19 +95,17 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string s(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  is.read(s.data(), bufferLength);
+  if (static_cast<size_t>(is.gcount()) != bufferLength) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
   return s;
 }
 } // namespace fbpcf
-- 
2.43.0


From f257fb3aec727285a34313d830a7659d6b372ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 18/37] fix: an empty range of an S3 object has no bytes

The request for [n, n) became "bytes=n-(n-1)", which the service ignores and
answers with the whole object.
---
 fbpcf/io/S3FileManager.cpp           | 4 ++++
 fbpcf/io/cloud_util/S3FileReader.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..7fd85a4 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -42,6 +42,10 @@ std::string S3FileManager::readBytes(
     const std::string& fileName,
     std::size_t start,
     std::size_t end) {
+  if (start >= end) {
+    // there is no way to ask the service for an empty range
+    return "";
+  }
   const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
diff --git a/fbpcf/io/cloud_util/S3FileReader.cpp b/fbpcf/io/cloud_util/S3FileReader.cpp
index e6f5ec1..ee4f8cd 100644
--- a/fbpcf/io/cloud_util/S3FileReader.cpp
+++ b/fbpcf/io/cloud_util/S3FileReader.cpp
@@ -18,6 +18,10 @@ std::string S3FileReader::readBytes(
     const std::string& filePath,
     std::size_t start,
     std::size_t end) {
+  if (start >= end) {
+    // there is no way to ask the service for an empty range
+    return "";
+  }
   const auto& ref = fbpcf::aws::uriToObjectReference(filePath);
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
-- 
2.43.0


From fbd6729a1071431f260237f0d43fd1b684ec6274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 19/37] fix: an interrupted GCS download is an error, not a
 shorter object

Copying the stream buffer swallows the error the client library reports in the
middle of a download; the bytes received so far were returned as the content.
---
 fbpcf/io/GCSFileManager.h             | 19 ++++++++++++++++---
 fbpcf/io/cloud_util/GCSFileReader.cpp |  4 ++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/fbpcf/io/GCSFileManager.h b/fbpcf/io/GCSFileManager.h
index 9a3e68b..135434c 100644
--- a/fbpcf/io/GCSFileManager.h
+++ b/fbpcf/io/GCSFileManager.h
@@ -77,15 +77,28 @@ std::string GCSFileManager<ClientCls>::readBytes(
   }
   std::stringstream ss;
   ss << outcome.rdbuf();
+  if (!outcome.status().ok()) {
+    // the download broke off
+    throw GcpException{outcome.status().message()};
+  }
   return ss.str();
 }
 
 template <class ClientCls>
 std::string GCSFileManager<ClientCls>::read(const std::string& fileName) {
   auto stream = getInputStream(fileName);
-  std::stringstream ss;
-  ss << stream->get().rdbuf();
-  return ss.str();
+  auto& is = stream->get();
+  std::string data;
+  char buffer[4096];
+  while (is.good()) {
+    is.read(buffer, sizeof(buffer));
+    data.append(buffer, is.gcount());
+  }
+  if (is.bad()) {
+    // the download broke off
+    throw GcpException{"Failed to read " + fileName};
+  }
+  return data;
 }
 
 template <class ClientCls>
diff --git a/fbpcf/io/cloud_util/GCSFileReader.cpp b/fbpcf/io/cloud_util/GCSFileReader.cpp
index 53a5bdb..4f95842 100644
--- a/fbpcf/io/cloud_util/GCSFileReader.cpp
+++ b/fbpcf/io/cloud_util/GCSFileReader.cpp
@@ -25,6 +25,10 @@ std::string GCSFileReader::readBytes(
   }
   std::stringstream ss;
   ss << outcome.rdbuf();
+  if (!outcome.status().ok()) {
+    // the download broke off
+    throw GcpException{outcome.status().message()};
+  }
   return ss.str();
 }
 
-- 
2.43.0


From a1ec65e27ead4061a14f9cb1e7c11db6832cb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 20/37] fix: an S3 upload with a lost part cannot be completed

When a part failed and aborting the upload failed as well, later parts took the
number of the lost one and complete() published an object with a gap.
---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 9 +++++++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..56bcbeb 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -46,6 +46,10 @@ void S3FileUploader::init() {
   }
 }
 int S3FileUploader::upload(std::vector<char>& buf) {
+  if (failed_) {
+    XLOG(ERR) << "An earlier part of " << filePath_ << " was not stored.";
+    return 0;
+  }
   XLOG(INFO) << "Start uploading part:" << "Part number: " << partNumber_
              << "\nBucket: " << bucket_ << "\nKey: " << key_;
   Aws::S3::Model::UploadPartRequest request;
@@ -78,11 +82,16 @@ int S3FileUploader::upload(std::vector<char>& buf) {
     return str.size();
   } else {
     XLOG(INFO) << "Upload part " << partNumber_ << " failed. Aborting...";
+    failed_ = true;
     abortUpload();
     return 0;
   }
 }
 int S3FileUploader::complete() {
+  if (failed_) {
+    XLOG(ERR) << "File " << filePath_ << " failed to upload.";
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..8a745c7 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -35,6 +35,8 @@ class S3FileUploader : public IFileUploader {
   std::string uploadId_;
   std::size_t partNumber_ = 1;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
+  // some part could not be stored: the object must never become visible
+  bool failed_ = false;
 };
 
 } // namespace fbpcf::cloudio
-- 
2.43.0


From a2d211c4d654c3eacf89f07055265e627c0ec0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 21/37] fix: CloudFileReader with a given reader knows its file

That constructor left the path empty, so every read asked for the object "".
---
 fbpcf/io/api/CloudFileReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/CloudFileReader.h b/fbpcf/io/api/CloudFileReader.h
index 3d243f1..819bcb0 100644
--- a/fbpcf/io/api/CloudFileReader.h
+++ b/fbpcf/io/api/CloudFileReader.h
@@ -31,7 +31,8 @@ class CloudFileReader : public IReaderCloser {
 
   explicit CloudFileReader(
       const std::string& filePath,
-      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader) {
+      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader)
+      : filePath_{filePath} {
     cloudFileReader_ = cloudFileReader;
     init(filePath);
   }
-- 
2.43.0


From ceb759a62388d54a3e15cb4ea223838610a34f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 22/37] fix: GCS buckets may have dots in their names

https://my.bucket.storage.googleapis.com/key was taken for bucket "my", so data
was written to and read from the wrong place.
---
 fbpcf/gcp/GCSUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..9324912 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,7 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    bucket = host.substr(0, host.find(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
-- 
2.43.0


From be98bc46d698a9931d4f266d2fea400dbab8f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 23/37] fix: assigning a frontend bit to itself must not
 release its value

---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..fd3e923 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // src may be this very object, and hold the last reference
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From 432b441eec476917c9bf85855ad04aa08a727694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:35 +0000
Subject: [PATCH 24/37] fix: sum and difference of one-bit integers

---
 fbpcf/frontend/Int_impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..17dc164 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  // a one-bit sum is its least significant bit
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +181,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  // a one-bit difference is its least significant bit
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From 3a925198a9072e7bf919b30ceb430e5b460155b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 25/37] fix: compaction of rows none of which is labeled
 returns an empty batch instead of failing

---
 fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
index 596f58c..e4dedf3 100644
--- a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
+++ b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
@@ -89,6 +89,18 @@ class ShuffleBasedCompactor final
       }
     }
 
+    if (compactifiedLabel.empty()) {
+      // nothing was labeled as 1: the result is an empty batch.
+      auto emptyFirst = std::make_shared<std::vector<uint32_t>>(
+          std::vector<uint32_t>({0, size}));
+      return {
+          util::MpcAdapters<T, schedulerId>::unbatching(shuffledSrc, emptyFirst)
+              .at(0),
+          util::MpcAdapters<LabelT, schedulerId>::unbatching(
+              shuffledLabel, emptyFirst)
+              .at(0)};
+    }
+
     // rebatch
     auto rstLabel = util::MpcAdapters<LabelT, schedulerId>::batchingWith(
         compactifiedLabel.at(0),
-- 
2.43.0


From a1ce7f1d71b987c9de897d513245a48b2c4563e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 26/37] fix: permuting an empty batch recursed without end

---
 .../permuter/AsWaksmanPermuterForBitString_impl.h           | 6 ++++++
 fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h         | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
index c4878f9..9b18c93 100644
--- a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
+++ b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterForBitString_impl.h
@@ -91,6 +91,9 @@ AsWaksmanPermuter<std::vector<bool>, schedulerId>::permute_impl(
     throw std::runtime_error("empty input!");
   }
   auto length = vectorOfVectors.at(0).size();
+  if (length == 0) {
+    return src;
+  }
   std::vector<std::vector<bool>> dummyChoice;
 
   permute_impl(
@@ -111,6 +114,9 @@ AsWaksmanPermuter<std::vector<bool>, schedulerId>::permute_impl(
     throw std::runtime_error("empty input!");
   }
   auto length = vectorOfVectors.at(0).size();
+  if (length == 0) {
+    return src;
+  }
   std::vector<std::vector<bool>> rst;
   if (order.size() > 2) {
     rst.reserve(2 * (std::ceil(log2(order.size()))) - 1);
diff --git a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
index c58363d..ed17b42 100644
--- a/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
+++ b/fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter_impl.h
@@ -18,7 +18,7 @@ typename AsWaksmanPermuter<T, schedulerId>::SecBatchType
 AsWaksmanPermuter<T, schedulerId>::permute_impl(
     const SecBatchType& src,
     size_t size) const {
-  if (size == 1) {
+  if (size <= 1) {
     return src;
   }
   if (size == 2) {
@@ -53,7 +53,7 @@ AsWaksmanPermuter<T, schedulerId>::permute_impl(
     const SecBatchType& src,
     size_t size,
     const std::vector<uint32_t>& order) const {
-  if (size == 1) {
+  if (size <= 1) {
     return src;
   }
   if (size == 2) {
-- 
2.43.0


From 6ed6b2d4340c4957c9736b1b713ab6245893c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 27/37] fix: negation and difference of unsigned Intp values
 whose width is not that of a native type

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..3d1817c 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return round(-v_);
     }
   }
 
@@ -83,14 +83,17 @@ class Intp {
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
   inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
+    if constexpr (!isSigned) {
+      // kMax has all of the lowest width bits set
+      return v & kMax;
+    } else {
+      if (v > kMax) {
+        return v - kOffSet;
+      } else if (v < kMin) {
         return v + kOffSet;
       }
+      return v;
     }
-    return v;
   }
 
  private:
-- 
2.43.0


From 01db3a6abfaeacee6940b8f0e582964e3a5e028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 28/37] fix: UdpEncryption kept only the low 32 bits of the
 matched identifiers

---
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From 8aba1a9071a96002c4cf91582b4537559ae84fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 29/37] fix: UdpUtil::localEncryption ignored its index offset

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From 124c6d5b8229b4ea1ec253d54e15217d658347ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 30/37] fix: BufferedReader took a base reader's error return
 for data

---
 fbpcf/io/api/BufferedReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/io/api/BufferedReader.cpp b/fbpcf/io/api/BufferedReader.cpp
index 05e5100..0107137 100644
--- a/fbpcf/io/api/BufferedReader.cpp
+++ b/fbpcf/io/api/BufferedReader.cpp
@@ -112,6 +112,10 @@ std::string BufferedReader::readLine() {
 
 void BufferedReader::loadNextChunk() {
   auto bytesRead = baseReader_->read(buffer_);
+  if (bytesRead > buffer_.size()) {
+    // the base reader reports an error as -1
+    throw std::runtime_error("Failed to read the next chunk of the file.");
+  }
 
   lastPosition_ = bytesRead;
   currentPosition_ = 0;
-- 
2.43.0


From 3de9354052bab464fc3f5f0ce723394ee0af1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 31/37] fix: channels left sockets open when destroyed or not
 set up

---
 .../SocketPartyCommunicationAgent.cpp         | 25 +++++++++++++--
 .../SocketPartyCommunicationAgentFactory.cpp  | 31 +++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index f514fa0..226a155 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -21,6 +21,7 @@
 #include <chrono>
 #include <fstream>
 #include <istream>
+#include <memory>
 #include <stdexcept>
 #include <thread>
 
@@ -135,8 +136,11 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
     fclose(outgoingPort_);
     fclose(incomingPort_);
   } else {
+    // freeing the ssl object doesn't close its socket
+    auto socket = SSL_get_fd(ssl_);
     SSL_shutdown(ssl_);
     SSL_free(ssl_);
+    close(socket);
   }
 }
 
@@ -238,6 +242,10 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
 
+  // sessions are never resumed. A ticket that a client doesn't read would reset
+  // the connection when the client closes it, with its last data undelivered.
+  SSL_CTX_set_num_tickets(ctx, 0);
+
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
@@ -281,6 +289,8 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   if (SSL_accept(ssl) <= 0) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
+    SSL_free(ssl);
+    close(acceptedConnection);
     throw std::runtime_error("Error on accepting ssl " + errorMsg);
   }
 
@@ -303,6 +313,10 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   // ensure we use TLS 1.3
   SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
 
+  // sessions are never resumed. A ticket that a client doesn't read would reset
+  // the connection when the client closes it, with its last data undelivered.
+  SSL_CTX_set_num_tickets(ctx, 0);
+
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
 
@@ -347,6 +361,8 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   if (SSL_accept(ssl) <= 0) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
+    SSL_free(ssl);
+    close(acceptedConnection);
     throw std::runtime_error("Error on accepting ssl " + errorMsg);
   }
 
@@ -393,6 +409,8 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
   if (status != 1) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
+    SSL_free(ssl);
+    close(sockfd);
     throw std::runtime_error("could not complete tls handshake " + errorMsg);
   }
 
@@ -460,6 +478,8 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
   if (status != 1) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
+    SSL_free(ssl);
+    close(sockfd);
     throw std::runtime_error("could not complete tls handshake " + errorMsg);
   }
 
@@ -505,6 +525,8 @@ int SocketPartyCommunicationAgent::connectToHost(
         "Can't get address info " + std::string(serverAddress.data()) + " " +
         portString.data());
   }
+  std::unique_ptr<struct addrinfo, decltype(&freeaddrinfo)> addrsOwner(
+      addrs, freeaddrinfo);
   auto sockfd = socket(AF_INET, SOCK_STREAM, 0);
   if (sockfd < 0) {
     throw std::runtime_error("error opening socket");
@@ -523,13 +545,12 @@ int SocketPartyCommunicationAgent::connectToHost(
     close(sockfd);
     sockfd = socket(AF_INET, SOCK_STREAM, 0);
     if (retryCount-- < 0) {
+      close(sockfd);
       throw std::runtime_error(
           "Timeout when trying to establish a connection as client.");
     }
   }
 
-  freeaddrinfo(addrs);
-
   return sockfd;
 }
 
diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
index a1b74aa..8f17036 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.cpp
@@ -56,7 +56,12 @@ SocketPartyCommunicationAgentFactory::create(int id, std::string name) {
       // case, we will tell the client which port to use.
       auto assignedPortNo = ++iter->second.first.portNo;
       auto [socket, portNo] = createSocketFromMaybeFreePort(assignedPortNo);
-      iter->second.second->sendSingleT<int>(portNo);
+      try {
+        iter->second.second->sendSingleT<int>(portNo);
+      } catch (...) {
+        close(socket);
+        throw;
+      }
       return std::make_unique<SocketPartyCommunicationAgent>(
           socket, portNo, tlsInfo_, recorder, timeoutInSec_);
     } else {
@@ -105,6 +110,7 @@ SocketPartyCommunicationAgentFactory::createSocketFromMaybeFreePort(
             sockfd, (struct sockaddr*)&servAddr, sizeof(struct sockaddr_in)) <
         0) {
       // throw when failed to bind to a random free port.
+      close(sockfd);
       throw std::runtime_error("error on binding to a free port");
     }
   }
@@ -116,7 +122,12 @@ SocketPartyCommunicationAgentFactory::createSocketFromMaybeFreePort(
     return {sockfd, portNo};
   }
 
-  return {sockfd, getPortFromSocket(sockfd)};
+  try {
+    return {sockfd, getPortFromSocket(sockfd)};
+  } catch (...) {
+    close(sockfd);
+    throw;
+  }
 }
 
 int SocketPartyCommunicationAgentFactory::getPortFromSocket(int sockfd) {
@@ -135,11 +146,19 @@ int SocketPartyCommunicationAgentFactory::getPortFromSocket(int sockfd) {
 
 void SocketPartyCommunicationAgentFactory::setupInitialSockets(
     const std::map<int, PartyInfo>& partyInfos) {
-  for (const auto& [partyId, partyInfo] : partyInfos) {
-    if (myId_ < partyId) {
-      auto [socket, port] = createSocketFromMaybeFreePort(partyInfo.portNo);
-      sockets_.insert({partyId, socket});
+  try {
+    for (const auto& [partyId, partyInfo] : partyInfos) {
+      if (myId_ < partyId) {
+        auto [socket, port] = createSocketFromMaybeFreePort(partyInfo.portNo);
+        sockets_.insert({partyId, socket});
+      }
     }
+  } catch (...) {
+    for (const auto& [partyId, socket] : sockets_) {
+      close(socket);
+    }
+    sockets_.clear();
+    throw;
   }
 }
 
-- 
2.43.0


From 01ed853d2fdfc698c52be0310acdd36d0711235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 32/37] fix: channels used streams that could not be opened

---
 .../SocketPartyCommunicationAgent.cpp         | 21 +++++++++++++++----
 .../SocketPartyCommunicationAgent.h           |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 226a155..125854f 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -189,6 +189,21 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
   recorder_->addReceivedData(bytesRead);
 }
 
+void SocketPartyCommunicationAgent::openStreams(int outgoing, int incoming) {
+  outgoingPort_ = fdopen(outgoing, "w");
+  if (outgoingPort_ == nullptr) {
+    close(outgoing);
+    close(incoming);
+    throw std::runtime_error("error on opening the outgoing stream");
+  }
+  incomingPort_ = fdopen(incoming, "r");
+  if (incomingPort_ == nullptr) {
+    fclose(outgoingPort_);
+    close(incoming);
+    throw std::runtime_error("error on opening the incoming stream");
+  }
+}
+
 void SocketPartyCommunicationAgent::openServerPort(int sockFd, int portNo) {
   XLOG(INFO) << "try to connect as server at port " << portNo;
 
@@ -200,8 +215,7 @@ void SocketPartyCommunicationAgent::openServerPort(int sockFd, int portNo) {
     throw std::runtime_error("error on duplicate socket");
   }
 
-  outgoingPort_ = fdopen(acceptedConnection, "w");
-  incomingPort_ = fdopen(duplicatedConnection, "r");
+  openStreams(acceptedConnection, duplicatedConnection);
 
   XLOG(INFO) << "connected as server at port " << portNo;
   return;
@@ -220,8 +234,7 @@ void SocketPartyCommunicationAgent::openClientPort(
     close(sockfd);
     throw std::runtime_error("error on duplicate socket");
   }
-  incomingPort_ = fdopen(sockfd, "r");
-  outgoingPort_ = fdopen(duplicatedConnection, "w");
+  openStreams(duplicatedConnection, sockfd);
 
   XLOG(INFO) << "connected as client to " << serverAddress << " at port "
              << portNo;
diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.h b/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
index b69a426..328b088 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.h
@@ -77,6 +77,9 @@ class SocketPartyCommunicationAgent final : public IPartyCommunicationAgent {
   void sendImpl(const void* data, int nBytes) override;
 
  private:
+  // closes both sockets when this fails
+  void openStreams(int outgoing, int incoming);
+
   void openServerPort(int sockFd, int portNo);
   void openClientPort(const std::string& serverAddress, int portNo);
 
-- 
2.43.0


From 1c9ed8dc7763eeebc4ce4d8a8461700753d3ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 33/37] fix: encrypted channels were set up with failed TLS
 calls

A minimum version or a host name that could not be set was ignored, a missing
context or connection object was used, and contexts, certificates and accepted
connections were left behind on errors.
---
 .../SocketPartyCommunicationAgent.cpp         | 185 +++++++++++-------
 1 file changed, 111 insertions(+), 74 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 125854f..be65984 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -45,6 +45,36 @@ struct SocketCloser {
   }
   const int fd;
 };
+
+struct TlsDeleter {
+  void operator()(SSL_CTX* ctx) const {
+    SSL_CTX_free(ctx);
+  }
+  void operator()(SSL* ssl) const {
+    SSL_free(ssl);
+  }
+  void operator()(X509* cert) const {
+    X509_free(cert);
+  }
+  void operator()(char* text) const {
+    OPENSSL_free(text);
+  }
+};
+
+template <typename T>
+using TlsPointer = std::unique_ptr<T, TlsDeleter>;
+
+// null when the context can't be created
+TlsPointer<SSL_CTX> createTlsContext(const SSL_METHOD* method) {
+  TlsPointer<SSL_CTX> ctx(SSL_CTX_new(method));
+
+  // ensure we use TLS 1.3
+  if (ctx != nullptr &&
+      SSL_CTX_set_min_proto_version(ctx.get(), TLS1_3_VERSION) != 1) {
+    return nullptr;
+  }
+  return ctx;
+}
 } // namespace
 
 /*
@@ -246,18 +276,19 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
     int portNo,
     std::string tlsDir) {
   XLOG(INFO) << "try to connect as server at port " << portNo << " with TLS";
-  const SSL_METHOD* method;
-  SSL_CTX* ctx;
-
-  method = TLS_server_method();
-  ctx = SSL_CTX_new(method);
-
-  // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  const auto context = createTlsContext(TLS_server_method());
+  const auto ctx = context.get();
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("Could not create tls context " + errorMsg);
+  }
 
   // sessions are never resumed. A ticket that a client doesn't read would reset
   // the connection when the client closes it, with its last data undelivered.
-  SSL_CTX_set_num_tickets(ctx, 0);
+  if (SSL_CTX_set_num_tickets(ctx, 0) != 1) {
+    throw std::runtime_error("could not turn off session tickets");
+  }
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
@@ -269,12 +300,6 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   file_ptr.close();
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("Could not create tls context " + errorMsg);
-  }
-
   // Load the certificate file
   if (SSL_CTX_use_certificate_file(
           ctx, (tlsDir + "/" + CERT_FILE).c_str(), SSL_FILETYPE_PEM) <= 0) {
@@ -294,22 +319,26 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   auto acceptedConnection = receiveFromClient(sockFd);
 
-  const auto ssl = SSL_new(ctx);
-  SSL_CTX_free(ctx);
-  SSL_set_fd(ssl, acceptedConnection);
+  TlsPointer<SSL> sslHolder(SSL_new(ctx));
+  const auto ssl = sslHolder.get();
+  if (ssl == nullptr || SSL_set_fd(ssl, acceptedConnection) != 1) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    close(acceptedConnection);
+    throw std::runtime_error("could not create tls object " + errorMsg);
+  }
 
   // Accept handshake from client
   if (SSL_accept(ssl) <= 0) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
-    SSL_free(ssl);
     close(acceptedConnection);
     throw std::runtime_error("Error on accepting ssl " + errorMsg);
   }
 
   XLOG(INFO) << "connected as server at port " << portNo << " with TLS";
 
-  ssl_ = ssl;
+  ssl_ = sslHolder.release();
 }
 
 void SocketPartyCommunicationAgent::openServerPortWithTls(
@@ -317,18 +346,19 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
     int portNo,
     TlsInfo tlsInfo) {
   XLOG(INFO) << "try to connect as server at port " << portNo << " with TLS";
-  const SSL_METHOD* method;
-  SSL_CTX* ctx;
-
-  method = TLS_server_method();
-  ctx = SSL_CTX_new(method);
-
-  // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  const auto context = createTlsContext(TLS_server_method());
+  const auto ctx = context.get();
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("Could not create tls context " + errorMsg);
+  }
 
   // sessions are never resumed. A ticket that a client doesn't read would reset
   // the connection when the client closes it, with its last data undelivered.
-  SSL_CTX_set_num_tickets(ctx, 0);
+  if (SSL_CTX_set_num_tickets(ctx, 0) != 1) {
+    throw std::runtime_error("could not turn off session tickets");
+  }
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
@@ -340,12 +370,6 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   file_ptr.close();
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("Could not create tls context " + errorMsg);
-  }
-
   // Load the certificate file
   XLOGF(INFO, "Using certificate file at: {}", tlsInfo.certPath);
   if (SSL_CTX_use_certificate_file(
@@ -366,22 +390,26 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   auto acceptedConnection = receiveFromClient(sockFd);
 
-  const auto ssl = SSL_new(ctx);
-  SSL_CTX_free(ctx);
-  SSL_set_fd(ssl, acceptedConnection);
+  TlsPointer<SSL> sslHolder(SSL_new(ctx));
+  const auto ssl = sslHolder.get();
+  if (ssl == nullptr || SSL_set_fd(ssl, acceptedConnection) != 1) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    close(acceptedConnection);
+    throw std::runtime_error("could not create tls object " + errorMsg);
+  }
 
   // Accept handshake from client
   if (SSL_accept(ssl) <= 0) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
-    SSL_free(ssl);
     close(acceptedConnection);
     throw std::runtime_error("Error on accepting ssl " + errorMsg);
   }
 
   XLOG(INFO) << "connected as server at port " << portNo << " with TLS";
 
-  ssl_ = ssl;
+  ssl_ = sslHolder.release();
 }
 
 void SocketPartyCommunicationAgent::openClientPortWithTls(
@@ -393,20 +421,16 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
       "try to connect as client to {} at port {} with TLS",
       serverAddress,
       portNo);
-  const SSL_METHOD* method = TLS_client_method();
-  SSL_CTX* ctx = SSL_CTX_new(method);
-
-  // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
-
+  const auto context = createTlsContext(TLS_client_method());
+  const auto ctx = context.get();
   if (ctx == nullptr) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
     throw std::runtime_error("could not create tls context " + errorMsg);
   }
 
-  SSL* ssl = SSL_new(ctx);
-  SSL_CTX_free(ctx);
+  TlsPointer<SSL> sslHolder(SSL_new(ctx));
+  const auto ssl = sslHolder.get();
   if (ssl == nullptr) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
@@ -415,21 +439,25 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
 
   const auto sockfd = connectToHost(serverAddress, portNo);
 
-  SSL_set_fd(ssl, sockfd);
+  if (SSL_set_fd(ssl, sockfd) != 1) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    close(sockfd);
+    throw std::runtime_error("could not attach tls to the socket " + errorMsg);
+  }
 
   // initiate handshake with server
   const int status = SSL_connect(ssl);
   if (status != 1) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
-    SSL_free(ssl);
     close(sockfd);
     throw std::runtime_error("could not complete tls handshake " + errorMsg);
   }
 
   XLOGF(INFO, "connected as client to {} at port {}", serverAddress, portNo);
 
-  ssl_ = ssl;
+  ssl_ = sslHolder.release();
 }
 
 void SocketPartyCommunicationAgent::openClientPortWithTls(
@@ -441,11 +469,13 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
       "try to connect as client to {} at port {} with TLS",
       serverAddress,
       portNo);
-  const SSL_METHOD* method = TLS_client_method();
-  SSL_CTX* ctx = SSL_CTX_new(method);
-
-  // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  const auto context = createTlsContext(TLS_client_method());
+  const auto ctx = context.get();
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("could not create tls context " + errorMsg);
+  }
 
   // specify the trusted root CA
   XLOGF(INFO, "Using root CA cert file at: {}", tlsInfo.rootCaCertPath);
@@ -456,22 +486,18 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
     }
   }
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("could not create tls context " + errorMsg);
-  }
-
   // make sure to verify server cert
   SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, nullptr);
 
   // and verify the domain name
   auto params = SSL_CTX_get0_param(ctx);
-  X509_VERIFY_PARAM_set1_host(
-      params, serverAddress.c_str(), serverAddress.size());
+  if (X509_VERIFY_PARAM_set1_host(
+          params, serverAddress.c_str(), serverAddress.size()) != 1) {
+    throw std::runtime_error("failed to set the host name to verify");
+  }
 
-  SSL* ssl = SSL_new(ctx);
-  SSL_CTX_free(ctx);
+  TlsPointer<SSL> sslHolder(SSL_new(ctx));
+  const auto ssl = sslHolder.get();
   if (ssl == nullptr) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
@@ -480,26 +506,37 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
 
   const auto sockfd = connectToHost(serverAddress, portNo);
 
-  SSL_set_fd(ssl, sockfd);
+  if (SSL_set_fd(ssl, sockfd) != 1) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    close(sockfd);
+    throw std::runtime_error("could not attach tls to the socket " + errorMsg);
+  }
 
   // initiate handshake with server
   const int status = SSL_connect(ssl);
-  X509* cert = SSL_get_peer_certificate(ssl);
+  TlsPointer<X509> cert(SSL_get_peer_certificate(ssl));
   auto result = X509_verify_cert_error_string(SSL_get_verify_result(ssl));
   XLOGF(INFO, "verify result: {}", result);
 
   if (status != 1) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
-    SSL_free(ssl);
     close(sockfd);
     throw std::runtime_error("could not complete tls handshake " + errorMsg);
   }
 
-  auto line = X509_NAME_oneline(X509_get_subject_name(cert), nullptr, 0);
-  XLOGF(INFO, "Server certificate: {}", line);
-  line = X509_NAME_oneline(X509_get_issuer_name(cert), nullptr, 0);
-  XLOGF(INFO, "Server certificate issuer: {}", line);
+  if (cert != nullptr) {
+    TlsPointer<char> subject(
+        X509_NAME_oneline(X509_get_subject_name(cert.get()), nullptr, 0));
+    TlsPointer<char> issuer(
+        X509_NAME_oneline(X509_get_issuer_name(cert.get()), nullptr, 0));
+    XLOGF(
+        INFO,
+        "Server certificate: {}, issuer: {}",
+        subject ? subject.get() : "unknown",
+        issuer ? issuer.get() : "unknown");
+  }
 
   XLOGF(
       INFO,
@@ -507,7 +544,7 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
       serverAddress,
       portNo);
 
-  ssl_ = ssl;
+  ssl_ = sslHolder.release();
 }
 
 int SocketPartyCommunicationAgent::connectToHost(
-- 
2.43.0


From 9e15603a95199e90eb4e838ae6870b2f6cd6f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 34/37] fix: NP base OT used a point that could not be
 allocated

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index 1954a08..6011e82 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -286,6 +286,9 @@ NpBaseObliviousTransfer::send(size_t size) {
   t[1].reserve(size);
 
   PointPointer tmp(EC_POINT_new(group_.get()), EC_POINT_free);
+  if (tmp == nullptr) {
+    throw std::runtime_error("Failed to create point.");
+  }
   for (size_t i = 0; i < size; i++) {
     t[0].push_back(PointPointer(EC_POINT_new(group_.get()), EC_POINT_free));
     t[1].push_back(PointPointer(EC_POINT_new(group_.get()), EC_POINT_free));
-- 
2.43.0


From 6f1418b28407653b2325796e2d71ed15d9f1858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 35/37] fix: drawing a permutation leaked its context on errors

---
 fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp b/fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp
index 43b94a2..79f8954 100644
--- a/fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp
+++ b/fbpcf/mpc_std_lib/util/secureRandomPermutation.cpp
@@ -7,6 +7,8 @@
 
 #include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
 
+#include <memory>
+
 namespace fbpcf::mpc_std_lib::util {
 std::vector<uint32_t> secureRandomPermutation(
     uint32_t size,
@@ -16,7 +18,7 @@ std::vector<uint32_t> secureRandomPermutation(
     rst[i] = i;
   }
 
-  BN_CTX* ctx = BN_CTX_new();
+  std::unique_ptr<BN_CTX, void (*)(BN_CTX*)> ctx(BN_CTX_new(), BN_CTX_free);
   if (ctx == nullptr) {
     throw std::runtime_error(
         "BN_CTX initialization failed: " + std::to_string(ERR_get_error()));
@@ -26,10 +28,9 @@ std::vector<uint32_t> secureRandomPermutation(
     // Max permutation size + 128 bit security parameter
     auto randomBytes = prg.getRandomBytes(
         sizeof(uint32_t) + RANDOM_PERMUTATION_SECURITY_BITS / 8);
-    auto position = engine::util::mod(randomBytes, i, ctx);
+    auto position = engine::util::mod(randomBytes, i, ctx.get());
     std::swap(rst[position], rst[i - 1]);
   }
-  BN_CTX_free(ctx);
   return rst;
 }
 } // namespace fbpcf::mpc_std_lib::util
-- 
2.43.0


From ace6cee9f8d23c64470bffc2c9eb2fd3aeddde98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 36/37] fix: messages of 2 GiB and more did not fit the int
 sizes of channels

---
 .../communication/IPartyCommunicationAgent.h  | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/fbpcf/engine/communication/IPartyCommunicationAgent.h b/fbpcf/engine/communication/IPartyCommunicationAgent.h
index 3808fe5..54b2085 100644
--- a/fbpcf/engine/communication/IPartyCommunicationAgent.h
+++ b/fbpcf/engine/communication/IPartyCommunicationAgent.h
@@ -68,7 +68,7 @@ class IPartyCommunicationAgent {
    * @param data the data to be sent
    */
   void send(const std::vector<unsigned char>& data) {
-    sendImpl(static_cast<const void*>(data.data()), data.size());
+    sendPieces(static_cast<const void*>(data.data()), data.size());
   }
 
   /**
@@ -78,7 +78,7 @@ class IPartyCommunicationAgent {
    */
   std::vector<unsigned char> receive(size_t size) {
     std::vector<unsigned char> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size);
+    recvPieces(static_cast<void*>(rst.data()), size);
     return rst;
   }
 
@@ -96,7 +96,7 @@ class IPartyCommunicationAgent {
    * @param data the data to be sent
    */
   void sendInt64(const std::vector<uint64_t>& data) {
-    sendImpl(static_cast<const void*>(data.data()), data.size() * 8);
+    sendPieces(static_cast<const void*>(data.data()), data.size() * 8);
   }
 
   /**
@@ -119,19 +119,19 @@ class IPartyCommunicationAgent {
    */
   std::vector<uint64_t> receiveInt64(size_t size) {
     std::vector<uint64_t> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size * 8);
+    recvPieces(static_cast<void*>(rst.data()), size * 8);
     return rst;
   }
 
   template <typename T>
   void sendT(const std::vector<T>& src) {
-    sendImpl(static_cast<const void*>(src.data()), src.size() * sizeof(T));
+    sendPieces(static_cast<const void*>(src.data()), src.size() * sizeof(T));
   }
 
   template <typename T>
-  std::vector<T> receiveT(int size) {
+  std::vector<T> receiveT(size_t size) {
     std::vector<T> rst(size);
-    recvImpl(static_cast<void*>(rst.data()), size * sizeof(T));
+    recvPieces(static_cast<void*>(rst.data()), size * sizeof(T));
     return rst;
   }
 
@@ -191,6 +191,30 @@ class IPartyCommunicationAgent {
     return bits;
   }
 
+  // recvImpl and sendImpl take sizes that fit in an int, so larger messages are
+  // transferred in several pieces.
+  static constexpr size_t kMaxPieceSize = 1 << 30;
+
+  void recvPieces(void* data, size_t nBytes) {
+    auto bytes = static_cast<unsigned char*>(data);
+    do {
+      auto piece = nBytes < kMaxPieceSize ? nBytes : kMaxPieceSize;
+      recvImpl(bytes, piece);
+      bytes += piece;
+      nBytes -= piece;
+    } while (nBytes > 0);
+  }
+
+  void sendPieces(const void* data, size_t nBytes) {
+    auto bytes = static_cast<const unsigned char*>(data);
+    do {
+      auto piece = nBytes < kMaxPieceSize ? nBytes : kMaxPieceSize;
+      sendImpl(bytes, piece);
+      bytes += piece;
+      nBytes -= piece;
+    } while (nBytes > 0);
+  }
+
   virtual void recvImpl(void* data, int nBytes) = 0;
 
   virtual void sendImpl(const void* data, int nBytes) = 0;
@@ -208,12 +232,12 @@ inline void IPartyCommunicationAgent::sendT(const std::vector<bool>& src) {
 }
 
 template <>
-inline std::vector<unsigned char> IPartyCommunicationAgent::receiveT(int size) {
+inline std::vector<unsigned char> IPartyCommunicationAgent::receiveT(size_t size) {
   return receive(size);
 }
 
 template <>
-inline std::vector<bool> IPartyCommunicationAgent::receiveT(int size) {
+inline std::vector<bool> IPartyCommunicationAgent::receiveT(size_t size) {
   return receiveBool(size);
 }
 
-- 
2.43.0


From 71d8d07c8aa5ce85674395825d4c4dc8facfc0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 37/37] fix: the tree aggregation opened half of the index bits
 and the lowest bit of every value

The lowest bits of both sums of children served as indicators, and one of them
was opened a second time as part of delta. With independent lowest bits, whenever the two opened
corrections differ, the one that delta agrees with tells the secret index bit. Besides, the lowest bit of the
difference of the leaf keys, which masks the value, was the sum of the corrections.
---
 .../oram/SinglePointArrayGenerator.cpp        | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp b/fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp
index f39ed1f..d44ffe1 100644
--- a/fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp
+++ b/fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.cpp
@@ -51,6 +51,16 @@ SinglePointArrayGenerator::generateSinglePointArrays(
     }
   }
 
+  // The difference of the lsbs of the last level is public, so the keys are
+  // derived from that level and not taken from it.
+  for (auto& item : rst) {
+    auto expanded = expander_->expand(std::move(item.second));
+    item.second = std::vector<__m128i>(item.first.size());
+    for (size_t j = 0; j < item.second.size(); j++) {
+      item.second[j] = expanded.at(2 * j);
+    }
+  }
+
   return rst;
 }
 
@@ -69,6 +79,18 @@ ISinglePointArrayGenerator::ArrayType SinglePointArrayGenerator::expandArray(
   for (size_t i = 0; i < batchSize; i++) {
     rst[i].second = expander_->expand(std::move(src[i].second));
     for (size_t j = 0; j < rst.at(i).second.size(); j += 2) {
+      // The lsb of a child is its indicator before the correction. The one of
+      // the right child is set such that the two corrections and the lsb of
+      // delta are always the same random bit: if the lsbs were independent,
+      // these three opened bits would tell the indicator share's secret
+      // whenever the corrections differ.
+      auto& right = rst[i].second[j + 1];
+      if (engine::util::getLsb(rst.at(i).second.at(j)) ^
+          src.at(i).first.at(j >> 1)) {
+        engine::util::setLsbTo1(right);
+      } else {
+        engine::util::setLsbTo0(right);
+      }
       delta0[i] = _mm_xor_si128(delta0.at(i), rst.at(i).second.at(j));
       delta1[i] = _mm_xor_si128(delta1.at(i), rst.at(i).second.at(j + 1));
     }
-- 
2.43.0

