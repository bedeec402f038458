From 349b3bd5394c05866d803df0e24463ea9886a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 01/74] fix: handle the filters of one SUBSCRIBE in order, so
 that the last duplicate wins

---
 mqttpacket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d48228e..6eb9b2b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1778,7 +1778,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
 
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::forward_list<SubscriptionTuple> deferredSubscribes;
+    std::list<SubscriptionTuple> deferredSubscribes;
 
     std::list<ReasonCodes> subs_reponse_codes;
     while (remainingAfterPos() > 0)
@@ -1869,7 +1869,7 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
         if (authResult == AuthResult::success || authResult == AuthResult::success_without_retained_delivery || authResult == AuthResult::success_but_drop)
         {
             const uint32_t subscr_id = settings->subscriptionIdentifierEnabled ? subscription_identifier : 0;
-            deferredSubscribes.emplace_front(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
+            deferredSubscribes.emplace_back(topic, subtopics, qos, noLocal, retainedAsPublished, shareName, authResult, subscr_id, retainHandling);
             subs_reponse_codes.push_back(static_cast<ReasonCodes>(qos));
         }
         else
-- 
2.43.0


From d4b0b467d3b9b83cdd55b3ff79ffa8803044bdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 02/74] fix: apply deferred retained messages in the order they
 were published

---
 threaddata.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index c1916ab..1354caa 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -627,7 +627,7 @@ void ThreadData::queueSettingRetainedMessage(const Publish &p, const std::vector
 {
     assert(pthread_self() == thread_id);
     const bool wakeup_required = priv->queuedRetainedMessages.empty();
-    priv->queuedRetainedMessages.emplace_front(p, subtopics, limit);
+    priv->queuedRetainedMessages.emplace_back(p, subtopics, limit);
     this->deferredRetainedMessagesSet.inc(1);
 
     if (wakeup_required)
-- 
2.43.0


From 1ac685e56bc76130be7bb6dcb0d8975f2f1f1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 03/74] fix: keep the subscription tree locked while changing a
 node, so that purging cannot drop a new subscription

---
 subscriptionstore.cpp | 17 +++++++++++------
 subscriptionstore.h   |  4 +++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 2be5635..cc1627b 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -136,9 +136,12 @@ SubscriptionStore::SubscriptionStore() :
  * @brief SubscriptionStore::getDeepestNode gets the node in the tree walking the path of 'the/subscription/topic/path', making new nodes as required.
  * @param topic
  * @param subtopics
+ * @param rlock and wlock: unlocked, on subscriptions_lock. One of them is locked on return, so that the node can't be purged
+ * from the tree while the caller uses it.
  * @return
  */
-std::shared_ptr<SubscriptionNode> SubscriptionStore::getDeepestNode(const std::vector<std::string> &subtopics, bool abort_on_dead_end)
+std::shared_ptr<SubscriptionNode> SubscriptionStore::getDeepestNode(
+    const std::vector<std::string> &subtopics, std::shared_lock<std::shared_mutex> &rlock, std::unique_lock<std::shared_mutex> &wlock, bool abort_on_dead_end)
 {
     const std::shared_ptr<SubscriptionNode> *start = &root;
     if (!subtopics.empty())
@@ -155,12 +158,10 @@ std::shared_ptr<SubscriptionNode> SubscriptionStore::getDeepestNode(const std::v
     {
         assert(i < 1 || retry_mode);
 
-        std::shared_lock rlock(subscriptions_lock, std::defer_lock);
-        std::unique_lock wlock(subscriptions_lock, std::defer_lock);
-
         if (retry_mode)
         {
             assert(!abort_on_dead_end);
+            rlock.unlock();
             wlock.lock();
         }
         else
@@ -259,7 +260,9 @@ AddSubscriptionType SubscriptionStore::addSubscription(
 {
     if (!session) return AddSubscriptionType::Invalid;
 
-    const std::shared_ptr<SubscriptionNode> deepestNode = getDeepestNode(subtopics);
+    std::shared_lock rlock(subscriptions_lock, std::defer_lock);
+    std::unique_lock wlock(subscriptions_lock, std::defer_lock);
+    const std::shared_ptr<SubscriptionNode> deepestNode = getDeepestNode(subtopics, rlock, wlock);
 
     if (!deepestNode)
         return AddSubscriptionType::Invalid;
@@ -273,7 +276,9 @@ void SubscriptionStore::removeSubscription(
     if (!session)
         return;
 
-    std::shared_ptr<SubscriptionNode> node = getDeepestNode(subtopics, true);
+    std::shared_lock rlock(subscriptions_lock, std::defer_lock);
+    std::unique_lock wlock(subscriptions_lock, std::defer_lock);
+    std::shared_ptr<SubscriptionNode> node = getDeepestNode(subtopics, rlock, wlock, true);
 
     if (!node)
         return;
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 9ea3fcb..0ee49bf 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -199,7 +199,9 @@ class SubscriptionStore
         RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
         std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter);
 
-    std::shared_ptr<SubscriptionNode> getDeepestNode(const std::vector<std::string> &subtopics, bool abort_on_dead_end=false);
+    std::shared_ptr<SubscriptionNode> getDeepestNode(
+        const std::vector<std::string> &subtopics, std::shared_lock<std::shared_mutex> &rlock, std::unique_lock<std::shared_mutex> &wlock,
+        bool abort_on_dead_end=false);
 
     void sendWill(const std::shared_ptr<WillPublish> will, const std::shared_ptr<Session> session, const std::string &log);
 
-- 
2.43.0


From 50e04f65256cb9dce34777d28e12644becc4a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 04/74] fix: don't index past the end of the property buffer
 when a string is empty

---
 mqtt5properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqtt5properties.cpp b/mqtt5properties.cpp
index c050e9f..08422c5 100644
--- a/mqtt5properties.cpp
+++ b/mqtt5properties.cpp
@@ -221,7 +221,7 @@ void Mqtt5PropertyBuilder::writeStr(Mqtt5Properties prop, const std::string &str
     bytes[pos++] = a;
     bytes[pos++] = b;
 
-    std::memcpy(&bytes[pos], str.c_str(), strlen);
+    std::memcpy(bytes.data() + pos, str.c_str(), strlen);
 }
 
 void Mqtt5PropertyBuilder::write2Str(Mqtt5Properties prop, const std::string &one, const std::string &two)
@@ -249,7 +249,7 @@ void Mqtt5PropertyBuilder::write2Str(Mqtt5Properties prop, const std::string &on
         bytes[pos++] = a;
         bytes[pos++] = b;
 
-        std::memcpy(&bytes[pos], str->c_str(), strlen);
+        std::memcpy(bytes.data() + pos, str->c_str(), strlen);
         pos += strlen;
     }
 }
-- 
2.43.0


From 5f2362b8144b05cdb20114aa0d525bae67518caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 05/74] fix: queued wills and retained messages carry the
 subscription identifier

---
 publishcopyfactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/publishcopyfactory.cpp b/publishcopyfactory.cpp
index 80d96fe..d17a7ac 100644
--- a/publishcopyfactory.cpp
+++ b/publishcopyfactory.cpp
@@ -162,6 +162,7 @@ Publish PublishCopyFactory::getNewPublish(uint8_t new_max_qos, bool retainAsPubl
     Publish p(*publish);
     p.qos = actualQos;
     p.retain = getEffectiveRetain(retainAsPublished);
+    p.subscriptionIdentifier = subscriptionIdentifier;
     return p;
 }
 
-- 
2.43.0


From 60fce6e45b06d4d21e64bbc36576b6e4cff8dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 06/74] fix: don't write publishes to a connection before its
 CONNACK and session queue

While a session was being resumed, other threads could already write to the
new connection: before its CONNACK, ahead of older queued messages, and a
second time from the queue. Publishes are now held in the queue until it is
sent.
---
 mqttpacket.cpp |   2 +-
 session.cpp    | 126 +++++++++++++++++++++++++------------------------
 session.h      |   9 +++-
 threaddata.cpp |   2 +-
 4 files changed, 75 insertions(+), 64 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 6eb9b2b..d6bf3ee 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1489,7 +1489,7 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
 
     ThreadGlobals::getThreadData()->publishBridgeState(bridgeState, true, {});
 
-    session->sendAllPendingQosData();
+    session->sendAllPendingQosData(sender);
 }
 
 AuthPacketData MqttPacket::parseAuthData()
diff --git a/session.cpp b/session.cpp
index 29310b8..16b769e 100644
--- a/session.cpp
+++ b/session.cpp
@@ -157,6 +157,11 @@ void Session::QoSData::releasePacketId(const uint16_t id)
     usedIds.erase(id);
 }
 
+bool Session::QoSData::packetIdInUse(const uint16_t id) const
+{
+    return usedIds.contains(id);
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
@@ -177,7 +182,12 @@ std::shared_ptr<Client> Session::makeSharedClient()
 
 void Session::assignActiveConnection(const std::shared_ptr<Client> &client)
 {
-    this->client = client;
+    {
+        MutexLocked<QoSData> qos_locked = qos.lock();
+        this->awaitingPendingQosData = true;
+        this->client = client;
+    }
+
     this->willPublish = client->getWill();
     this->removalQueued = false;
 }
@@ -228,8 +238,6 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
         return PacketDropReason::AuthDenied;
     }
 
-    const std::shared_ptr<Client> c = makeSharedClient();
-
     std::optional<std::string> topic_override;
 
     {
@@ -248,11 +256,19 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     }
 
     std::optional<uint16_t> pack_id;
+    std::shared_ptr<Client> c; // Must be destroyed after the lock is released.
+    MutexLocked<QoSData> qos_locked;
+
+    // For QoS, we keep the lock until after writing, so that we don't pass packets from sendAllPendingQosData(), or duplicate them.
+    if (__builtin_expect(effectiveQos > 0, 0))
+        qos_locked = qos.lock();
+
+    c = makeSharedClient();
+    const bool awaiting = awaitingPendingQosData;
 
     if (__builtin_expect(effectiveQos > 0, 0))
     {
         const Settings *settings = ThreadGlobals::getSettings();
-        MutexLocked<QoSData> qos_locked = qos.lock();
 
         // We don't clear expired messages for online clients. It would slow down the 'happy flow' and those packets are already in the output
         // buffer, so we can't clear them anyway.
@@ -290,11 +306,11 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
             return PacketDropReason::QoSTODOSomethingSomething;
         }
 
-        if (!destroyOnDisconnect)
+        if (!destroyOnDisconnect || awaiting)
             qos_locked->queuePublish(copyFactory, pack_id.value(), effectiveQos, effectiveRetain, subscriptionIdentifier, topic_override);
     }
 
-    if (!c)
+    if (!c || awaiting)
         return PacketDropReason::ClientOffline;
 
     if (!c->isRetainedAvailable())
@@ -311,19 +327,16 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
  */
 bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
 {
-    bool result = false;
-
     MutexLocked<QoSData> qos_locked = qos.lock();
 
     if (logger->wouldLog(LOG_PUBLISH))
         logger->logf(LOG_PUBLISH, "Clearing QoS message for '%s', packet id '%d'. Left in queue: %d", client_id.c_str(), packet_id, qos_locked->getQueuedCount());
 
-    if (!destroyOnDisconnect)
-        result = qos_locked->eraseQueuedPublish(packet_id);
-    else
-    {
-        result = true;
-    }
+    bool result = qos_locked->eraseQueuedPublish(packet_id);
+
+    // Publishes of these sessions are normally not in the queue.
+    if (destroyOnDisconnect)
+        result = qos_locked->packetIdInUse(packet_id);
 
     if (qosHandshakeEnds && result)
     {
@@ -347,68 +360,59 @@ bool Session::clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds)
  * never know that, because IT will have received the PUBACK from FlashMQ. The QoS system is not between publisher
  * and subscriber. Users are required to implement something themselves.
  */
-void Session::sendAllPendingQosData()
+void Session::sendAllPendingQosData(const std::shared_ptr<Client> &client)
 {
     Authentication &authentication = ThreadGlobals::getThreadData()->authentication;
 
-    std::shared_ptr<Client> c = makeSharedClient();
-    if (c)
-    {
-        std::vector<std::tuple<Publish, std::optional<std::string>, uint16_t>> copiedPublishes;
-        std::vector<uint16_t> copiedQoS2Ids;
-
-        {
-            MutexLocked<QoSData> qos_locked = qos.lock();
-
-            std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
-            while (qp_)
-            {
-                std::shared_ptr<QueuedPublish> qp = qp_;
-                qp_ = qp_->next.lock();
-
-                Publish &pub = qp->getPublish();
+    std::shared_ptr<Client> c;
 
-                if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
-                {
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+    // Kept locked while writing, to keep the order with writePacket().
+    MutexLocked<QoSData> qos_locked = qos.lock();
 
-                if (qos_locked->flowControlExhausted())
-                {
-                    logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
-                    qos_locked->eraseQueuedPublish(qp->getPacketId());
-                    qos_locked->releasePacketId(qp->getPacketId());
-                    continue;
-                }
+    c = makeSharedClient();
 
-                qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+    // Another client may have taken over already.
+    if (!c || c != client)
+        return;
 
-                copiedPublishes.emplace_back(pub, qp->getTopicOverride(), qp->getPacketId());
-            }
+    std::shared_ptr<QueuedPublish> qp_ = qos_locked->getQoSQueueTail();
+    while (qp_)
+    {
+        std::shared_ptr<QueuedPublish> qp = qp_;
+        qp_ = qp->next.lock();
 
-            for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
-            {
-                copiedQoS2Ids.push_back(packet_id);
-            }
-        }
+        Publish &pub = qp->getPublish();
 
-        for(std::tuple<Publish, std::optional<std::string>, uint16_t> &p : copiedPublishes)
+        if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
         {
-            Publish &pub = std::get<Publish>(p);
-            PublishCopyFactory fac(&pub);
-            const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-            c->writeMqttPacketAndBlameThisClient(fac, pub.qos, std::get<uint16_t>(p), retain, pub.subscriptionIdentifier, std::get<std::optional<std::string>>(p));
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->releasePacketId(qp->getPacketId());
+            continue;
         }
 
-        for(uint16_t id : copiedQoS2Ids)
+        if (qos_locked->flowControlExhausted())
         {
-            PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, id);
-            MqttPacket packet(pubRel);
-            c->writeMqttPacketAndBlameThisClient(packet);
+            logger->logf(LOG_WARNING, "Dropping QoS message(s) for client '%s', because it exceeds its receive maximum.", client_id.c_str());
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->releasePacketId(qp->getPacketId());
+            continue;
         }
+
+        qos_locked->decreaseFlowControlQuotaAgain(qp->getPacketId());
+
+        PublishCopyFactory fac(&pub);
+        const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
+        c->writeMqttPacketAndBlameThisClient(fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
     }
+
+    for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
+    {
+        PubResponse pubRel(c->getProtocolVersion(), PacketType::PUBREL, ReasonCodes::Success, packet_id);
+        MqttPacket packet(pubRel);
+        c->writeMqttPacketAndBlameThisClient(packet);
+    }
+
+    awaitingPendingQosData = false;
 }
 
 bool Session::hasActiveClient()
diff --git a/session.h b/session.h
index 6dbcbac..838d1dd 100644
--- a/session.h
+++ b/session.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef SESSION_H
 #define SESSION_H
 
+#include <atomic>
 #include <memory>
 #include <list>
 #include <mutex>
@@ -80,6 +81,7 @@ class Session
         std::optional<uint16_t> getNextPacketId();
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
+        bool packetIdInUse(const uint16_t id) const;
     };
 
     friend class SessionsAndSubscriptionsDB;
@@ -92,6 +94,11 @@ class Session
      */
 
     LockedWeakPtr<Client> client;
+
+    // A connection was assigned, but it's not ready for publishes until sendAllPendingQosData() sent the queue. Cleared with
+    // QoSData locked, so that QoS messages are either in what that sends, or written after it.
+    std::atomic<bool> awaitingPendingQosData {false};
+
     const std::string client_id;
     const std::string username;
     const std::optional<std::string> fmq_client_group_id;
@@ -127,7 +134,7 @@ public:
                                 uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start);
     PacketDropReason writePacket(PublishCopyFactory &copyFactory, const uint8_t max_qos, bool retainAsPublished, const uint32_t subscriptionIdentifier);
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
-    void sendAllPendingQosData();
+    void sendAllPendingQosData(const std::shared_ptr<Client> &client);
     bool hasActiveClient();
     void clearWill();
     std::shared_ptr<WillPublish> getWill();
diff --git a/threaddata.cpp b/threaddata.cpp
index 1354caa..0882bc3 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -222,7 +222,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
-            client->getSession()->sendAllPendingQosData();
+            client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
         else // Reauth (to authenticated clients) sends AUTH on success.
-- 
2.43.0


From c7b335b79ffb5d85814d4bc80f6787913b91e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 07/74] fix: a refused QoS 2 publish ends the exchange, so that
 its packet id can be used again

---
 mqttpacket.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d6bf3ee..d9d9858 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2328,6 +2328,10 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
         else
         {
             ackSender.setAckCode(ReasonCodes::NotAuthorized);
+
+            // A PUBREC with an error ends the exchange; the next publish with this packet ID is a new one. MQTT3 has no error codes.
+            if (qos_org == 2 && this->protocolVersion >= ProtocolVersion::Mqtt5)
+                sender->getSession()->removeIncomingQoS2MessageId(_packet_id);
         }
     }
 
-- 
2.43.0


From dcca497335733cf8e3b1fde0dac066052ec011b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:25 +0000
Subject: [PATCH 08/74] fix: a PUBREC for an unknown packet id must not start
 an outgoing QoS 2 exchange

---
 mqttpacket.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d9d9858..89e29b3 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2419,7 +2419,9 @@ void MqttPacket::handlePubRec(std::shared_ptr<Client> &sender)
     // that contains that Packet Identifier as being a new Application Message."
     if (!publishTerminatesHere)
     {
-        sender->getSession()->addOutgoingQoS2MessageId(packet_id);
+        // A PUBREC for something we're not sending, perhaps processed late, must not start an exchange.
+        if (foundAndRemoved)
+            sender->getSession()->addOutgoingQoS2MessageId(packet_id);
 
         // MQTT5: "[The sender] MUST send a PUBREL packet when it receives a PUBREC packet from the receiver with a Reason Code value less than 0x80"
         const ReasonCodes reason = foundAndRemoved ? ReasonCodes::Success : ReasonCodes::PacketIdentifierNotFound;
-- 
2.43.0


From 0359a6e620068b714411a393ee278b50f3da26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 09/74] fix: don't search forever for a packet id when all of
 them are in use

---
 session.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/session.cpp b/session.cpp
index 16b769e..c62f2ef 100644
--- a/session.cpp
+++ b/session.cpp
@@ -129,16 +129,11 @@ std::optional<uint16_t> Session::QoSData::getNextPacketId()
     {
         nextPacketId++;
 
-        if (nextPacketId == 0)
-            continue;
-
-        if (usedIds.contains(nextPacketId))
-            continue;
+        if (nextPacketId != 0 && !usedIds.contains(nextPacketId))
+            break;
 
         if (nextPacketId == end)
             return {};
-
-        break;
     }
 
     flowControlQuota--;
-- 
2.43.0


From 5f59851c96818296382f05ccd04c12a0cd68a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 10/74] fix: a QoS message that is too big for the client
 doesn't keep its place in the receive window

---
 session.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/session.cpp b/session.cpp
index c62f2ef..0bbf1d0 100644
--- a/session.cpp
+++ b/session.cpp
@@ -311,7 +311,17 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     if (!c->isRetainedAvailable())
         effectiveRetain = false;
 
-    return c->writeMqttPacketAndBlameThisClient(copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+    const PacketDropReason drop_reason = c->writeMqttPacketAndBlameThisClient(
+        copyFactory, effectiveQos, pack_id.value_or(0), effectiveRetain, subscriptionIdentifier, topic_override);
+
+    // MQTT-3.1.2-25: behave as if the message was sent and acknowledged.
+    if (drop_reason == PacketDropReason::BiggerThanPacketLimit && pack_id)
+    {
+        qos_locked->eraseQueuedPublish(pack_id.value());
+        qos_locked->increaseFlowControlQuota(pack_id.value());
+    }
+
+    return drop_reason;
 }
 
 /**
@@ -397,7 +407,14 @@ void Session::sendAllPendingQosData(const std::shared_ptr<Client> &client)
 
         PublishCopyFactory fac(&pub);
         const bool retain = !c->isRetainedAvailable() ? false : pub.retain;
-        c->writeMqttPacketAndBlameThisClient(fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
+        const PacketDropReason drop_reason = c->writeMqttPacketAndBlameThisClient(
+            fac, pub.qos, qp->getPacketId(), retain, pub.subscriptionIdentifier, qp->getTopicOverride());
+
+        if (drop_reason == PacketDropReason::BiggerThanPacketLimit)
+        {
+            qos_locked->eraseQueuedPublish(qp->getPacketId());
+            qos_locked->increaseFlowControlQuota(qp->getPacketId());
+        }
     }
 
     for (const uint16_t packet_id : qos_locked->outgoingQoS2MessageIds)
-- 
2.43.0


From 7d32ff135417b4716df17b8118ea9d6a6052ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 11/74] fix: no assertion failure when a publish is refused
 with an exception before it is acknowledged

---
 acksender.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acksender.cpp b/acksender.cpp
index ca27df1..2cb9ab4 100644
--- a/acksender.cpp
+++ b/acksender.cpp
@@ -8,6 +8,9 @@ it under the terms of The Open Software License 3.0 (OSL-3.0).
 See LICENSE for license details.
 */
 
+#include <cassert>
+#include <exception>
+
 #include "acksender.h"
 
 #include "mqttpacket.h"
@@ -23,7 +26,8 @@ AckSender::AckSender(uint8_t qos, uint16_t packetId, ProtocolVersion protocolVer
 
 AckSender::~AckSender()
 {
-    assert(sent);
+    // When the publish is refused with an exception, the connection ends and there is no ack.
+    assert(sent || std::uncaught_exceptions() > 0);
 }
 
 void AckSender::sendNow(Client *client)
-- 
2.43.0


From ba6e12a5f90b31fc22f3246a2699a9545093f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:53 +0000
Subject: [PATCH 12/74] fix: a reconnect renews the session expiry, also when
 the removal for an earlier disconnect is still scheduled

---
 session.cpp           |  9 +++++++++
 session.h             |  1 +
 subscriptionstore.cpp | 11 ++++-------
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/session.cpp b/session.cpp
index 0bbf1d0..86211c6 100644
--- a/session.cpp
+++ b/session.cpp
@@ -580,6 +580,15 @@ void Session::setQueuedRemovalAt()
     this->removalQueued = true;
 }
 
+/**
+ * @brief Session::getRemovalDueAt is when the session expires after the last time its removal was queued, in seconds of the steady clock.
+ */
+std::chrono::seconds Session::getRemovalDueAt() const
+{
+    const auto due = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    return std::chrono::duration_cast<std::chrono::seconds>(due.time_since_epoch());
+}
+
 uint32_t Session::getSessionExpiryInterval() const
 {
     return this->sessionExpiryInterval;
diff --git a/session.h b/session.h
index 838d1dd..ca6fccb 100644
--- a/session.h
+++ b/session.h
@@ -156,6 +156,7 @@ public:
     void setSessionProperties(uint16_t clientReceiveMax, uint32_t sessionExpiryInterval, bool clean_start, ProtocolVersion protocol_version);
     void setSessionExpiryInterval(uint32_t newVal);
     void setQueuedRemovalAt();
+    std::chrono::seconds getRemovalDueAt() const;
     uint32_t getSessionExpiryInterval() const;
     uint32_t getCurrentSessionExpiryInterval();
 
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index cc1627b..d7713f5 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1302,8 +1302,8 @@ void SubscriptionStore::removeExpiredSessionsClients()
             {
                 std::shared_ptr<Session> lockedSession = ses.lock();
 
-                // A session could have been picked up again, so we have to verify its expiration status.
-                if (lockedSession && !lockedSession->hasActiveClient())
+                // A session could have been picked up again (and left again), so we have to verify its expiration status.
+                if (lockedSession && !lockedSession->hasActiveClient() && lockedSession->getRemovalDueAt() <= secondsSinceEpoch)
                 {
                     sessionsToRemove.push_back(lockedSession);
                 }
@@ -1445,12 +1445,9 @@ void SubscriptionStore::queueSessionRemoval(const std::shared_ptr<Session> &sess
     if (!session)
         return;
 
-    std::chrono::time_point<std::chrono::steady_clock> removeAt = std::chrono::steady_clock::now() + std::chrono::seconds(session->getSessionExpiryInterval());
-    std::chrono::seconds secondsSinceEpoch = std::chrono::duration_cast<std::chrono::seconds>(removeAt.time_since_epoch());
-    session->setQueuedRemovalAt();
-
     std::lock_guard<std::mutex> locker(this->queuedSessionRemovalsMutex);
-    queuedSessionRemovals[secondsSinceEpoch].push_back(session);
+    session->setQueuedRemovalAt();
+    queuedSessionRemovals[session->getRemovalDueAt()].push_back(session);
 }
 
 size_t SubscriptionStore::getRetainedMessageCount() const
-- 
2.43.0


From 53a6fe5f313f85bb5b761c4a3c3e81793e7d63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:33 +0000
Subject: [PATCH 13/74] fix: DISCONNECT with session expiry interval 0 ends the
 session immediately

---
 session.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session.cpp b/session.cpp
index 86211c6..f6ad313 100644
--- a/session.cpp
+++ b/session.cpp
@@ -572,6 +572,7 @@ void Session::setSessionExpiryInterval(uint32_t newVal)
     }
 
     this->sessionExpiryInterval = newVal;
+    this->destroyOnDisconnect = newVal == 0;
 }
 
 void Session::setQueuedRemovalAt()
-- 
2.43.0


From cca388ee667a04dba2638ec155e1846af929d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:13 +0000
Subject: [PATCH 14/74] fix: the end of a taken-over connection doesn't remove
 the session of the new connection

---
 threaddata.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 0882bc3..39ae9f4 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -437,7 +437,11 @@ void ThreadData::clientDisconnectActions(
         store->queueOrSendWillMessage(willPublish, session);
     }
 
-    if (session && session->getDestroyOnDisconnect())
+    // When another connection has taken over the session, the property is the new connection's. Reading it first is necessary, because
+    // a new connection never takes over a session that has it set.
+    const bool destroySession = session && session->getDestroyOnDisconnect();
+
+    if (destroySession && !session->hasActiveClient())
     {
         store->removeSession(session);
     }
-- 
2.43.0


From 2cb9e4673ff4fcd60b2368f10e3db4a701078a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 15/74] fix: the will of a taken-over connection doesn't clear
 the will of the new connection

---
 client.cpp            |  6 +++---
 lockedsharedptr.h     | 10 ++++++++++
 session.cpp           |  7 +++++--
 session.h             |  2 +-
 subscriptionstore.cpp |  2 +-
 5 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/client.cpp b/client.cpp
index 840fda6..5ff7524 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1217,11 +1217,11 @@ const std::optional<std::string> &Client::getRemotePrefix() const
 
 void Client::clearWill()
 {
+    if (session)
+        session->clearWill(willPublish);
+
     willPublish.reset();
     stagedWillPublish.reset();
-
-    if (session)
-        session->clearWill();
 }
 
 std::string Client::getClientIdOrPrefix() const
diff --git a/lockedsharedptr.h b/lockedsharedptr.h
index b38ddd5..9a78869 100644
--- a/lockedsharedptr.h
+++ b/lockedsharedptr.h
@@ -25,6 +25,16 @@ public:
         p.reset();
     }
 
+    /**
+     * @brief Reset, but only when it still holds the given object.
+     */
+    void resetIf(const std::shared_ptr<T> &r)
+    {
+        std::lock_guard<std::mutex> l(m);
+        if (p == r)
+            p.reset();
+    }
+
     std::shared_ptr<T> getCopy()
     {
         std::lock_guard<std::mutex> l(m);
diff --git a/session.cpp b/session.cpp
index f6ad313..26e36d2 100644
--- a/session.cpp
+++ b/session.cpp
@@ -432,9 +432,12 @@ bool Session::hasActiveClient()
     return !client.expired();
 }
 
-void Session::clearWill()
+/**
+ * @brief Session::clearWill removes the will, unless it has been replaced by that of a newer connection.
+ */
+void Session::clearWill(const std::shared_ptr<WillPublish> &will)
 {
-    this->willPublish.reset();
+    this->willPublish.resetIf(will);
 }
 
 std::shared_ptr<WillPublish> Session::getWill()
diff --git a/session.h b/session.h
index ca6fccb..5e4bd8e 100644
--- a/session.h
+++ b/session.h
@@ -136,7 +136,7 @@ public:
     bool clearQosMessage(uint16_t packet_id, bool qosHandshakeEnds);
     void sendAllPendingQosData(const std::shared_ptr<Client> &client);
     bool hasActiveClient();
-    void clearWill();
+    void clearWill(const std::shared_ptr<WillPublish> &will);
     std::shared_ptr<WillPublish> getWill();
     void setWill(WillPublish &&pub);
     ClientType getClientType() const { return clientType; }
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index d7713f5..3ce596a 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -404,7 +404,7 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
      * Session is null when you're destroying a client before a session is assigned, or
      * when an old client has no session anymore after a client with the same ID connects.
      */
-    session->clearWill();
+    session->clearWill(will);
 
     const Settings *settings = ThreadGlobals::getSettings();
 
-- 
2.43.0


From 1f154be9793bdd1b1c994c120d63a8089770bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 16/74] fix: publish a delayed will when a clean start ends its
 session, and no will twice

---
 subscriptionstore.cpp | 10 ++++++++++
 threaddata.cpp        |  5 ++++-
 types.cpp             | 12 ++++++++++++
 types.h               |  2 ++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 3ce596a..758da7b 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -332,6 +332,7 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
+    std::shared_ptr<Session> replacedSession;
 
     if (client->getClientId().empty())
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
@@ -366,6 +367,8 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
         if (!session || session->getDestroyOnDisconnect() || clean_start)
         {
+            replacedSession = std::move(session);
+
             // Don't use sdt::make_shared to avoid the weak pointers from retaining the size of session in the control block.
             session = std::shared_ptr<Session>(new Session(client->getClientId(), client->getUsername(), client->getFmqClientGroupId()));
 
@@ -373,6 +376,10 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         }
     }
 
+    // A will with delay is due when its session ends. If it still has a client, its will is dealt with when that client is removed.
+    if (replacedSession && !replacedSession->hasActiveClient())
+        queueOrSendWillMessage(replacedSession->getWill(), replacedSession, true);
+
     session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
 }
 
@@ -399,6 +406,9 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
     if (!will || !session)
         return;
 
+    if (!will->markSent())
+        return;
+
     /*
      * Avoid sending two immediate wills when a session is destroyed with the client disconnect.
      * Session is null when you're destroying a client before a session is assigned, or
diff --git a/threaddata.cpp b/threaddata.cpp
index 39ae9f4..1e23cae 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -434,7 +434,10 @@ void ThreadData::clientDisconnectActions(
 
     if (willPublish)
     {
-        store->queueOrSendWillMessage(willPublish, session);
+        // With a clean start, another connection has ended our session, so there is nothing to wait for.
+        const bool sessionReplaced = session && !session->hasActiveClient() && store->lockSession(clientid) != session;
+
+        store->queueOrSendWillMessage(willPublish, session, sessionReplaced);
     }
 
     // When another connection has taken over the session, the property is the new connection's. Reading it first is necessary, because
diff --git a/types.cpp b/types.cpp
index bac5fa9..cfc7682 100644
--- a/types.cpp
+++ b/types.cpp
@@ -8,6 +8,7 @@ it under the terms of The Open Software License 3.0 (OSL-3.0).
 See LICENSE for license details.
 */
 
+#include <atomic>
 #include <cassert>
 
 #include "types.h"
@@ -329,6 +330,17 @@ void WillPublish::setQueuedAt()
     this->queuedAt = std::chrono::steady_clock::now();
 }
 
+/**
+ * @brief WillPublish::markSent marks the will as sent. Thread-safe.
+ * @return whether the caller is the first, and must therefore send it.
+ *
+ * The end of a connection, the end of its session and the passing of the will delay can happen at the same time, in different threads.
+ */
+bool WillPublish::markSent()
+{
+    return !std::atomic_ref<bool>(this->sent).exchange(true);
+}
+
 /**
  * @brief WillPublish::getQueuedAtAge gets the time ago in seconds when this will was queued. The time is set externally by the queue action.
  * @return
diff --git a/types.h b/types.h
index 1044692..fad328a 100644
--- a/types.h
+++ b/types.h
@@ -286,12 +286,14 @@ public:
 class WillPublish : public Publish
 {
     bool isQueued = false;
+    bool sent = false;
     std::chrono::time_point<std::chrono::steady_clock> queuedAt;
 public:
     uint32_t will_delay = 0;
     WillPublish() = default;
     WillPublish(const Publish &other);
     void setQueuedAt();
+    bool markSent();
     uint32_t getQueuedAtAge() const;
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
-- 
2.43.0


From fc9bc88e8b7e0a3ab03050ec3ec0915fc1a6d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:57 +0000
Subject: [PATCH 17/74] fix: simultaneous connections with the same client ID
 can't both stay, or end up with a removed session

---
 subscriptionstore.cpp | 28 ++++++++++++++++++++++++----
 subscriptionstore.h   |  3 ++-
 threaddata.cpp        |  2 +-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 758da7b..afc41a6 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -338,6 +338,10 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
         throw ProtocolError("Trying to store client without an ID.", ReasonCodes::ProtocolError);
 
     {
+        // A session only becomes visible as having a client when assigning it. Without this, two simultaneous connections with the
+        // same ID would not see each other.
+        std::lock_guard<std::mutex> registration_locker(registrationMutex);
+
         std::unique_lock ses_locker(sessions_lock);
 
         auto session_it = sessionsById.find(client->getClientId());
@@ -374,13 +378,15 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 
             sessionsById[client->getClientId()] = session;
         }
+
+        ses_locker.unlock();
+
+        session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
     }
 
     // A will with delay is due when its session ends. If it still has a client, its will is dealt with when that client is removed.
     if (replacedSession && !replacedSession->hasActiveClient())
         queueOrSendWillMessage(replacedSession->getWill(), replacedSession, true);
-
-    session->assignActiveConnection(session, client, clientReceiveMax, sessionExpiryInterval, clean_start);
 }
 
 /**
@@ -1237,7 +1243,11 @@ bool SubscriptionNode::empty() const
     return children.empty() && subscribers.empty() && sharedSubscribers.empty() && !childrenPlus && !childrenPound;
 }
 
-void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
+/**
+ * @brief SubscriptionStore::removeSession
+ * @param onlyIfDisconnected Don't remove it when it has been picked up by a new connection in the mean time.
+ */
+void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session, bool onlyIfDisconnected)
 {
     if (!session)
         return;
@@ -1249,6 +1259,16 @@ void SubscriptionStore::removeSession(const std::shared_ptr<Session> &session)
     std::list<std::shared_ptr<Session>> sessionsToRemove;
 
     {
+        std::unique_lock<std::mutex> registration_locker(registrationMutex, std::defer_lock);
+
+        if (onlyIfDisconnected)
+        {
+            registration_locker.lock();
+
+            if (session->hasActiveClient())
+                return;
+        }
+
         std::unique_lock session_locker(sessions_lock);
 
         auto session_it = sessionsById.find(clientid);
@@ -1328,7 +1348,7 @@ void SubscriptionStore::removeExpiredSessionsClients()
 
     for(std::shared_ptr<Session> &session : sessionsToRemove)
     {
-        removeSession(session);
+        removeSession(session, true);
         removedSessions++;
     }
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 0ee49bf..808d0f3 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -137,6 +137,7 @@ class SubscriptionStore
     std::atomic<size_t> subscriber_reserve = 1024;
     std::shared_mutex subscriptions_lock;
     std::shared_mutex sessions_lock;
+    std::mutex registrationMutex;
     std::unordered_map<std::string, std::shared_ptr<Session>> sessionsById;
     const std::unordered_map<std::string, std::shared_ptr<Session>> &sessionsByIdConst;
 
@@ -235,7 +236,7 @@ public:
     void trySetRetainedMessages(const Publish &publish, const std::vector<std::string> &subtopics);
     bool setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail=false);
 
-    void removeSession(const std::shared_ptr<Session> &session);
+    void removeSession(const std::shared_ptr<Session> &session, bool onlyIfDisconnected = false);
     void removeExpiredSessionsClients();
     bool hasDeferredSubscriptionTreeNodesForPurging();
     bool purgeSubscriptionTree();
diff --git a/threaddata.cpp b/threaddata.cpp
index 1e23cae..daa69cf 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -446,7 +446,7 @@ void ThreadData::clientDisconnectActions(
 
     if (destroySession && !session->hasActiveClient())
     {
-        store->removeSession(session);
+        store->removeSession(session, true);
     }
     else
     {
-- 
2.43.0


From 9d3b3e747948e48081e87872a8e6969f80b48fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 18/74] fix: a retained message that was set deferred doesn't
 replace a newer one set by another thread

---
 subscriptionstore.cpp | 13 ++++++++++---
 subscriptionstore.h   |  6 ++++--
 threaddata.cpp        |  2 +-
 threaddata.h          |  1 +
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index afc41a6..4a24755 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1008,7 +1008,8 @@ bool SubscriptionStore::setRetainedLimitReached(const Settings *settings, const
     return result;
 }
 
-bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail)
+bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail,
+                                           const std::chrono::time_point<std::chrono::steady_clock> publishedAt)
 {
     assert(!subtopics.empty());
 
@@ -1131,7 +1132,7 @@ bool SubscriptionStore::setRetainedMessage(const Publish &publish, const std::ve
 
     if (publish.payload.size() <= settings->retainedMessageMaxPayloadSize)
     {
-        const ssize_t diff = selected_node->addPayload(publish);
+        const ssize_t diff = selected_node->addPayload(publish, publishedAt);
 
         if (diff != 0)
             this->retainedMessageCount.fetch_add(diff);
@@ -1841,10 +1842,16 @@ void SubscriptionStore::loadSessionsAndSubscriptions(const std::string &filePath
     }
 }
 
-ssize_t RetainedMessageNode::addPayload(const Publish &publish)
+ssize_t RetainedMessageNode::addPayload(const Publish &publish, const std::chrono::time_point<std::chrono::steady_clock> publishedAt)
 {
     std::lock_guard<std::mutex> locker(this->messageSetMutex);
 
+    // When setting was deferred, another thread may have set a newer message already.
+    if (publishedAt < lastPublishAt)
+        return 0;
+
+    lastPublishAt = publishedAt;
+
     const bool retained_found = message.operator bool();
     ssize_t result = 0;
 
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 808d0f3..74c3efe 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -84,9 +84,10 @@ class RetainedMessageNode
     std::mutex messageSetMutex;
     std::unique_ptr<RetainedMessage> message;
     std::chrono::time_point<std::chrono::steady_clock> messageSetAt;
+    std::chrono::time_point<std::chrono::steady_clock> lastPublishAt;
     ssize_t recursiveChildCount {};
 
-    ssize_t addPayload(const Publish &publish);
+    ssize_t addPayload(const Publish &publish, const std::chrono::time_point<std::chrono::steady_clock> publishedAt);
     std::shared_ptr<RetainedMessageNode> getChildren(const std::string &subtopic) const;
     bool isOrphaned() const;
     const std::chrono::time_point<std::chrono::steady_clock> getMessageSetAt() const;
@@ -234,7 +235,8 @@ public:
                                                     const uint32_t subscription_identifier);
 
     void trySetRetainedMessages(const Publish &publish, const std::vector<std::string> &subtopics);
-    bool setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail=false);
+    bool setRetainedMessage(const Publish &publish, const std::vector<std::string> &subtopics, bool try_lock_fail=false,
+                            const std::chrono::time_point<std::chrono::steady_clock> publishedAt=std::chrono::steady_clock::now());
 
     void removeSession(const std::shared_ptr<Session> &session, bool onlyIfDisconnected = false);
     void removeExpiredSessionsClients();
diff --git a/threaddata.cpp b/threaddata.cpp
index daa69cf..0f14cc7 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -902,7 +902,7 @@ void ThreadData::setQueuedRetainedMessages()
             deferredRetainedMessagesSetTimeout.inc(1);
         }
 
-        if (store->setRetainedMessage(cur->p, cur->subtopics, try_lock_fail))
+        if (store->setRetainedMessage(cur->p, cur->subtopics, try_lock_fail, cur->publishedAt))
         {
             priv->queuedRetainedMessages.erase(cur);
             continue;
diff --git a/threaddata.h b/threaddata.h
index 31a7ab8..0c4a089 100644
--- a/threaddata.h
+++ b/threaddata.h
@@ -54,6 +54,7 @@ struct QueuedRetainedMessage
     const Publish p;
     const std::vector<std::string> subtopics;
     const std::chrono::time_point<std::chrono::steady_clock> limit;
+    const std::chrono::time_point<std::chrono::steady_clock> publishedAt = std::chrono::steady_clock::now();
 
     QueuedRetainedMessage(const Publish &p, const std::vector<std::string> &subtopics, const std::chrono::time_point<std::chrono::steady_clock> limit);
 };
-- 
2.43.0


From 8805b5a8d5f6bd98153298a85cafbd37cd5277ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:29 +0000
Subject: [PATCH 19/74] fix: lock the message of a retained message node when
 expiring it

---
 subscriptionstore.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 4a24755..db5be41 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1647,13 +1647,18 @@ void SubscriptionStore::expireRetainedMessages(
     RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
     std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter)
 {
-    if (this_node->message && this_node->message->hasExpired())
     {
-        this_node->message.reset();
-    }
+        // Messages are set outside of the lock on the tree.
+        std::lock_guard<std::mutex> locker(this_node->messageSetMutex);
 
-    if (this_node->message)
-        real_message_counter++;
+        if (this_node->message && this_node->message->hasExpired())
+        {
+            this_node->message.reset();
+        }
+
+        if (this_node->message)
+            real_message_counter++;
+    }
 
     for (auto _ = this_node->children.begin(); _ != this_node->children.end(); )
     {
-- 
2.43.0


From fe0f685d311e3d606babfbc0616de368aafe5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:04 +0000
Subject: [PATCH 20/74] fix: the message expiry interval of a will starts when
 the will is published

---
 sessionsandsubscriptionsdb.cpp |  2 +-
 subscriptionstore.cpp          | 12 +++++++-----
 types.cpp                      | 13 +++++++++++++
 types.h                        |  1 +
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 0ef33e5..af16619 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -413,7 +413,7 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
 
             if (hasWillThatShouldSurviveRestart)
             {
-                MqttPacket willpacket(ProtocolVersion::Mqtt5, *will);
+                MqttPacket willpacket(ProtocolVersion::Mqtt5, will->withLifetimeStartingNow());
 
                 // Dummy, to please the parser on reading.
                 if (will->qos > 0)
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index db5be41..c0e69cd 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -429,19 +429,21 @@ void SubscriptionStore::sendWill(const std::shared_ptr<WillPublish> will, const
 
     logger->log(LOG_DEBUG) << log << " " << will->topic;
 
+    Publish publish = will->withLifetimeStartingNow();
+
     Authentication &auth = ThreadGlobals::getThreadData()->authentication;
-    const AuthResult authResult = auth.aclCheck(*will, will->payload, AclAccess::write);
+    const AuthResult authResult = auth.aclCheck(publish, publish.payload, AclAccess::write);
 
     if (authResult == AuthResult::success || authResult == AuthResult::success_without_setting_retained)
     {
-        PublishCopyFactory factory(will.get());
+        PublishCopyFactory factory(&publish);
 
         // Not having a stored fmq_client_group_id to pass. Theoretically, it should not be needed,
         // because a client cannot get its own will.
-        queuePacketAtSubscribers(factory, will->client_id, {});
+        queuePacketAtSubscribers(factory, publish.client_id, {});
 
-        if (will->retain && authResult == AuthResult::success)
-            setRetainedMessage(*will, will->getSubtopics());
+        if (publish.retain && authResult == AuthResult::success)
+            setRetainedMessage(publish, publish.getSubtopics());
     }
 }
 
diff --git a/types.cpp b/types.cpp
index cfc7682..8c64f51 100644
--- a/types.cpp
+++ b/types.cpp
@@ -336,6 +336,19 @@ void WillPublish::setQueuedAt()
  *
  * The end of a connection, the end of its session and the passing of the will delay can happen at the same time, in different threads.
  */
+/**
+ * @brief The message expiry interval of a will starts when the will is published, not when the client connects.
+ */
+Publish WillPublish::withLifetimeStartingNow() const
+{
+    Publish result(*this);
+
+    if (result.expireInfo)
+        result.expireInfo->createdAt = std::chrono::steady_clock::now();
+
+    return result;
+}
+
 bool WillPublish::markSent()
 {
     return !std::atomic_ref<bool>(this->sent).exchange(true);
diff --git a/types.h b/types.h
index fad328a..069cfc5 100644
--- a/types.h
+++ b/types.h
@@ -293,6 +293,7 @@ public:
     WillPublish() = default;
     WillPublish(const Publish &other);
     void setQueuedAt();
+    Publish withLifetimeStartingNow() const;
     bool markSent();
     uint32_t getQueuedAtAge() const;
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
-- 
2.43.0


From e20538b5f0e7a91310600808c26cedab03991a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:45 +0000
Subject: [PATCH 21/74] fix: concurrent senders don't lose messages of a shared
 subscription with empty places

---
 sharedsubscribers.cpp | 9 +++++++--
 sharedsubscribers.h   | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sharedsubscribers.cpp b/sharedsubscribers.cpp
index 9b2e6dc..c16b74e 100644
--- a/sharedsubscribers.cpp
+++ b/sharedsubscribers.cpp
@@ -62,10 +62,13 @@ const Subscription *SharedSubscribers::getNext()
 {
     const Subscription *result = nullptr;
 
+    // This counter use is not atomic as a whole, but it doesn't matter much. We do need our own position in the loop, because
+    // otherwise with concurrent senders, we would not see all members, and possibly find none.
+    size_t pos = roundRobinCounter.load(std::memory_order_relaxed);
+
     for (size_t i = 0; i < members.size(); i++)
     {
-        // This counter use is not thread safe / atomic, but it doesn't matter much.
-        const Subscription &s = members[roundRobinCounter++ % members.size()];
+        const Subscription &s = members[pos++ % members.size()];
 
         if (!s.session.expired())
         {
@@ -74,6 +77,8 @@ const Subscription *SharedSubscribers::getNext()
         }
     }
 
+    roundRobinCounter.store(pos, std::memory_order_relaxed);
+
     return result;
 }
 
diff --git a/sharedsubscribers.h b/sharedsubscribers.h
index 772ec91..59ad218 100644
--- a/sharedsubscribers.h
+++ b/sharedsubscribers.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef SHAREDSUBSCRIBERS_H
 #define SHAREDSUBSCRIBERS_H
 
+#include <atomic>
 #include <string>
 #include <vector>
 #include <unordered_map>
@@ -28,7 +29,7 @@ class SharedSubscribers
 #endif
     std::vector<Subscription> members;
     std::unordered_map<std::string, int> index;
-    int roundRobinCounter = 0;
+    std::atomic<size_t> roundRobinCounter{0};
 
 public:
     const std::string shareName;
-- 
2.43.0


From d4296c1809d4dba9498de747a682b3c1c8db77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:07 +0000
Subject: [PATCH 22/74] fix: don't count the age of saved messages twice when
 loading them

---
 retainedmessagesdb.cpp         | 6 +++---
 sessionsandsubscriptionsdb.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 7755667..0c4988a 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -194,12 +194,12 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         to_read_count--;
 
         const uint16_t fixed_header_length = readUint16(eofFound);
-        uint32_t originalPubAge = 0;
         if (readVersion >= ReadVersion::v4)
         {
-            originalPubAge = readUint32(eofFound);
+            // The age the publish had. We don't add it, because the expiry interval in the saved packet has been reduced by it already.
+            readUint32(eofFound);
         }
-        const uint32_t newPubAge = persistence_state_age + originalPubAge;
+        const uint32_t newPubAge = persistence_state_age;
         const uint32_t packlen = readUint32(eofFound);
 
         const std::string client_id = readString(eofFound);
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index af16619..02d9e2e 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -164,7 +164,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 {
                     const uint16_t fixed_header_length = readUint16(eofFound);
                     const uint16_t id = readUint16(eofFound);
-                    const uint32_t originalPubAge = readUint32(eofFound);
+                    readUint32(eofFound); // The age the publish had.
                     const uint32_t packlen = readUint32(eofFound);
                     const std::string sender_clientid = readString(eofFound);
                     const std::string sender_username = readString(eofFound);
@@ -188,9 +188,9 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     pub.client_id = sender_clientid;
                     pub.username = sender_username;
 
-                    const uint32_t newPubAge = persistence_state_age + originalPubAge;
+                    // Without the age the publish had, because the expiry interval in the saved packet has been reduced by it already.
                     if (pub.expireInfo)
-                        pub.expireInfo->createdAt = timepointFromAge(newPubAge);
+                        pub.expireInfo->createdAt = timepointFromAge(persistence_state_age);
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
-- 
2.43.0


From a181b050839fbde87807c44454c806e508db3deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 23/74] fix: packet ids of loaded queued messages and PUBRELs
 are in use

---
 session.cpp                    | 14 ++++++++++++++
 session.h                      |  1 +
 sessionsandsubscriptionsdb.cpp |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/session.cpp b/session.cpp
index 26e36d2..e1ade49 100644
--- a/session.cpp
+++ b/session.cpp
@@ -157,6 +157,20 @@ bool Session::QoSData::packetIdInUse(const uint16_t id) const
     return usedIds.contains(id);
 }
 
+/**
+ * @brief Claims the packet ID of a publish or PUBREL that is loaded from a saved state.
+ */
+void Session::QoSData::loadUsedPacketId(const uint16_t id)
+{
+    if (usedIds.contains(id))
+        return;
+
+    usedIds.insert(id);
+
+    if (flowControlQuota > 0)
+        flowControlQuota--;
+}
+
 Session::~Session()
 {
     logger->log(LOG_DEBUG) << "Session destructor of session with client ID '" << this->client_id << "'.";
diff --git a/session.h b/session.h
index 5e4bd8e..ef37b50 100644
--- a/session.h
+++ b/session.h
@@ -82,6 +82,7 @@ class Session
         uint16_t getInternalNextPacketId() const;
         void releasePacketId(const uint16_t id);
         bool packetIdInUse(const uint16_t id) const;
+        void loadUsedPacketId(const uint16_t id);
     };
 
     friend class SessionsAndSubscriptionsDB;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 02d9e2e..b543c75 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -194,6 +194,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
 
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded QoS %d message for topic '%s' for session '%s'.", pub.qos, pub.topic.c_str(), ses->getClientId().c_str());
+                    qos_locked->loadUsedPacketId(id);
                     qos_locked->queuePublish(std::move(pub), id, topic_override);
                 }
 
@@ -214,6 +215,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     assert(id > 0);
                     if (logger->wouldLog(LOG_DEBUG))
                         logger->logf(LOG_DEBUG, "Loaded outgoing QoS2 message id %d.", id);
+                    qos_locked->loadUsedPacketId(id);
                     qos_locked->outgoingQoS2MessageIds.insert(id);
                 }
 
-- 
2.43.0


From d00a387a128b76677e6105e446ad0a512c9b2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 24/74] fix: retained messages through a small receive window
 were given up after 100 rounds despite progress

---
 subscriptionstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index c0e69cd..8499c5b 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -880,6 +880,10 @@ void SubscriptionStore::giveClientRetainedMessagesInitiateDeferred(const std::we
         RWLockGuard locker(&retainedMessagesRwlock);
         locker.rdlock();
         giveClientRetainedMessagesRecursively(d.cur, d.end, node, d.poundMode, session, max_qos, subscription_identifier, new_limit, *deferred, drop_count, processed_nodes);
+
+        // Deferred nodes themselves are not in 'processed_nodes', but are progress too.
+        if (drop_count == 0)
+            requeue_count = 0;
     }
 
     total_node_count += processed_nodes;
-- 
2.43.0


From 58b0fc218654c55e073af591d7f07dd65e6f0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 25/74] fix: ACL pattern placeholders aren't literal levels,
 and %u doesn't match anonymous clients

---
 acltree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acltree.cpp b/acltree.cpp
index d0952b9..986593c 100644
--- a/acltree.cpp
+++ b/acltree.cpp
@@ -195,13 +195,17 @@ void AclTree::findPermissionRecursive(std::vector<std::string>::const_iterator c
 
     const auto next_subtopic_it = ++cur_published_subtopic_it;
 
-    if (this_node->hasChild(cur_published_subtop))
+    // The placeholders of patterns are not literal subtopics.
+    const bool is_placeholder =
+        (this_node->hasUserWildcard() && cur_published_subtop == "%u") || (this_node->hasClientidWildcard() && cur_published_subtop == "%c");
+
+    if (!is_placeholder && this_node->hasChild(cur_published_subtop))
     {
         const AclNode *sub_node = this_node->getChildren(cur_published_subtop);
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
     }
 
-    if (this_node->hasUserWildcard() && cur_published_subtop == username)
+    if (this_node->hasUserWildcard() && !username.empty() && cur_published_subtop == username)
     {
         const AclNode *sub_node = this_node->getChildren("%u");
         findPermissionRecursive(next_subtopic_it, end, sub_node, collectedPermissions, username, clientid);
-- 
2.43.0


From 7492466602e9db4de9f3d31040be2fb8707e2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 26/74] fix: user names with spaces in ACL files gave their
 rights to the first word

---
 plugin.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index cc678da..3f9fbe2 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -864,7 +864,9 @@ void Authentication::loadMosquittoAclFile()
             }
             else if (firstWord == "user")
             {
-                currentUser = fields[1];
+                // User names can have spaces.
+                currentUser = line.substr(fields[0].size());
+                trim(currentUser);
             }
             else
             {
-- 
2.43.0


From 471a7e20846aab30f9b101eff605c70719801a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 27/74] fix: registering a will was checked as reading in the
 ACL file

---
 plugin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index 3f9fbe2..3d3af82 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -896,7 +896,8 @@ AuthResult Authentication::aclCheckFromMosquittoAclFile(const std::string &clien
     if (access == AclAccess::subscribe)
         return AuthResult::success;
 
-    AclGrant ag = access == AclAccess::write ? AclGrant::Write : AclGrant::Read;
+    // A will is going to be written.
+    AclGrant ag = access == AclAccess::write || access == AclAccess::register_will ? AclGrant::Write : AclGrant::Read;
     AuthResult result = aclTree.findPermission(subtopics, ag, username, clientid);
     return result;
 }
-- 
2.43.0


From c6597e96ad68a5028bd13b93ea2eff7877cd3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 28/74] fix: odd lines in the password file crashed the broker

---
 plugin.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin.cpp b/plugin.cpp
index 3d3af82..41cb8d5 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -742,7 +742,7 @@ void Authentication::loadMosquittoPasswordFile()
                 {
                     if (field.size() == 0)
                     {
-                        throw std::runtime_error(formatString("An empty field was found in '%'", line.c_str()));
+                        throw std::runtime_error(formatString("An empty field was found in '%s'", line.c_str()));
                     }
                 }
 
@@ -753,6 +753,9 @@ void Authentication::loadMosquittoPasswordFile()
                 int hashField = -1;
                 PasswordHashType type = PasswordHashType::SHA512;
 
+                if (fields2.empty())
+                    throw std::runtime_error("Password fields must start with $6$ or $7$");
+
                 if (fields2[0] == "6")
                 {
                     if (fields2.size() != 3)
-- 
2.43.0


From 8272875400973adfa9d6b5dff1326861abb05dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 29/74] fix: changes of password and ACL files within the
 second of the previous change weren't seen

---
 plugin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugin.cpp b/plugin.cpp
index 41cb8d5..da75d8d 100644
--- a/plugin.cpp
+++ b/plugin.cpp
@@ -711,7 +711,7 @@ void Authentication::loadMosquittoPasswordFile()
     check<std::runtime_error>(stat(mosquittoPasswordFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec)
+    if (ctime.tv_sec == this->mosquittoPasswordFileLastLoad.tv_sec && ctime.tv_nsec == this->mosquittoPasswordFileLastLoad.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoPasswordFile.c_str());
@@ -815,7 +815,7 @@ void Authentication::loadMosquittoAclFile()
     check<std::runtime_error>(stat(mosquittoAclFile.c_str(), &statbuf));
     struct timespec ctime = statbuf.st_ctim;
 
-    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec)
+    if (ctime.tv_sec == this->mosquittoAclFileLastChange.tv_sec && ctime.tv_nsec == this->mosquittoAclFileLastChange.tv_nsec)
         return;
 
     logger->logf(LOG_NOTICE, "Change detected in '%s'. Reloading.", this->mosquittoAclFile.c_str());
-- 
2.43.0


From f1080b1e811fa1c48bdb659b830a72417d03ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 30/74] fix: wills of clients with extended authentication had
 the username of the CONNECT packet instead of the authenticated one

---
 threaddata.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/threaddata.cpp b/threaddata.cpp
index 0f14cc7..12aaf85 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -214,6 +214,10 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
 
             const std::shared_ptr<WillPublish> will = client->getStagedWill();
 
+            // Extended authentication may have determined the username.
+            if (will)
+                will->username = client->getUsername();
+
             if (will && authentication.aclCheck(*will, will->payload, AclAccess::register_will) == AuthResult::success)
             {
                 client->setWillFromStaged();
-- 
2.43.0


From b748f73bf09a910e050efa2b521ad925ae1bdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 31/74] fix: client names of certificates that failed
 verification were accepted from HAProxy

---
 haproxy.cpp   | 2 +-
 iowrapper.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/haproxy.cpp b/haproxy.cpp
index ab68616..0cd4996 100644
--- a/haproxy.cpp
+++ b/haproxy.cpp
@@ -71,7 +71,7 @@ HaProxySslData read_ha_proxy_pp2_ssl(const std::vector<unsigned char> &data, int
 
     for (int shift = 24; shift >= 0; shift -= 8)
     {
-        result.verify = (data.at(pos++) << shift);
+        result.verify |= (static_cast<uint32_t>(data.at(pos++)) << shift);
     }
 
     auto sub_vec = make_vector<unsigned char>(data, pos, data.size() - pos);
diff --git a/iowrapper.cpp b/iowrapper.cpp
index c2e7cfa..75682f5 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -424,8 +424,9 @@ void IoWrapper::readHaProxyAdditionalData(int fd)
         {
             HaProxySslData data = std::get<HaProxySslData>(pos->second);
 
-            // At this point, we don't use anything but the CN.
-            mHaProxySslCnName = data.ssl_cn;
+            // At this point, we don't use anything but the CN, which only means something when the certificate was verified (zero means success).
+            if (data.verify == 0)
+                mHaProxySslCnName = data.ssl_cn;
         }
     }
 }
-- 
2.43.0


From f6ec5aaeb9c49ae31a451f33aecd4defb524d700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 32/74] fix: bytes of small packets in one read buffer were all
 parsed at once, taking hundreds of times their size in memory

---
 client.cpp     |  4 ++--
 client.h       |  3 ++-
 mqttpacket.cpp |  4 ++--
 mqttpacket.h   |  4 +++-
 threadloop.cpp | 24 ++++++++++++++++--------
 threadloop.h   |  1 +
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/client.cpp b/client.cpp
index 5ff7524..f8b4ef6 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1048,9 +1048,9 @@ void Client::respondWithRedirectURL(const std::string &request)
     setDisconnectStage(DisconnectStage::SendPendingAppData);
 }
 
-void Client::bufferToMqttPackets(std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender)
+void Client::bufferToMqttPackets(std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender, size_t max_packets)
 {
-    MqttPacket::bufferToMqttPackets(readbuf, packetQueueIn, sender);
+    MqttPacket::bufferToMqttPackets(readbuf, packetQueueIn, sender, max_packets);
     setReadyForReading(readbuf.freeSpace() > 0);
 }
 
diff --git a/client.h b/client.h
index a27230b..786abc1 100644
--- a/client.h
+++ b/client.h
@@ -205,7 +205,8 @@ public:
     DisconnectStage readFdIntoBuffer();
     bool tryAcmeRedirect();
     void respondWithRedirectURL(const std::string &request);
-    void bufferToMqttPackets(std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender);
+    void bufferToMqttPackets(std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender,
+                             size_t max_packets = std::numeric_limits<size_t>::max());
     void setClientProperties(ProtocolVersion protocolVersion, const std::string &clientId, const std::optional<std::string> &fmq_client_group_id,
                              const std::string username, bool connectPacketSeen, uint16_t keepalive);
     void setClientProperties(ProtocolVersion protocolVersion, const std::string &clientId, const std::optional<std::string> &fmq_client_group_id,
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 89e29b3..9eab900 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -535,7 +535,7 @@ MqttPacket::MqttPacket(const ProtocolVersion protocolVersion, const uint16_t pac
     calculateRemainingLength();
 }
 
-void MqttPacket::bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender)
+void MqttPacket::bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender, size_t max_packets)
 {
     if (!sender)
         return;
@@ -548,7 +548,7 @@ void MqttPacket::bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packe
             throw BadClientException("Non-ACME request on ACME-only listener");
     }
 
-    while (buf.usedBytes() >= MQTT_HEADER_LENGH)
+    while (packetQueueIn.size() < max_packets && buf.usedBytes() >= MQTT_HEADER_LENGH)
     {
         // Determine the packet length by decoding the variable length
         int remaining_length_i = 1; // index of 'remaining length' field is one after start.
diff --git a/mqttpacket.h b/mqttpacket.h
index a868296..1d2e669 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -12,6 +12,7 @@ See LICENSE for license details.
 #define MQTTPACKET_H
 
 #include <unistd.h>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -136,7 +137,8 @@ public:
     MqttPacket(const ProtocolVersion protocolVersion, const uint16_t packetId, const uint32_t subscriptionIdentifier, const std::vector<Subscribe> &subscriptions);
     MqttPacket(const ProtocolVersion protocolVersion, const uint16_t packetId, const std::vector<Unsubscribe> &unsubs);
 
-    static void bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender);
+    static void bufferToMqttPackets(CirBuf &buf, std::vector<MqttPacket> &packetQueueIn, std::shared_ptr<Client> &sender,
+                                    size_t max_packets = std::numeric_limits<size_t>::max());
 
     HandleResult handle(std::shared_ptr<Client> &sender);
     AuthPacketData parseAuthData();
diff --git a/threadloop.cpp b/threadloop.cpp
index f099698..d8fbbf6 100644
--- a/threadloop.cpp
+++ b/threadloop.cpp
@@ -202,18 +202,26 @@ void do_thread_work(std::shared_ptr<ThreadData> &&threadData)
                 {
                     VectorClearGuard vectorClear(packetQueueIn);
                     const DisconnectStage disconnect = client->readFdIntoBuffer();
-                    client->bufferToMqttPackets(packetQueueIn, client);
+                    bool more_packets = true;
 
-                    for (MqttPacket &packet : packetQueueIn)
+                    // Parsed packets take a lot more memory than their bytes in the buffer, so don't parse all of it at once.
+                    while (more_packets)
                     {
+                        packetQueueIn.clear();
+                        client->bufferToMqttPackets(packetQueueIn, client, MAX_PARSED_PACKETS);
+                        more_packets = packetQueueIn.size() >= MAX_PARSED_PACKETS;
+
+                        for (MqttPacket &packet : packetQueueIn)
+                        {
 #ifdef TESTING
-                        if (client->onPacketReceived)
-                            client->onPacketReceived(packet);
-                        else
+                            if (client->onPacketReceived)
+                                client->onPacketReceived(packet);
+                            else
 #endif
-                        if (packet.handle(client) == HandleResult::Defer)
-                        {
-                            client->addPacketToAfterAsyncQueue(std::move(packet));
+                            if (packet.handle(client) == HandleResult::Defer)
+                            {
+                                client->addPacketToAfterAsyncQueue(std::move(packet));
+                            }
                         }
                     }
 
diff --git a/threadloop.h b/threadloop.h
index 3f42d79..427be5e 100644
--- a/threadloop.h
+++ b/threadloop.h
@@ -12,6 +12,7 @@ See LICENSE for license details.
 #define THREADLOOP_H
 
 #define MAX_EVENTS 65536
+#define MAX_PARSED_PACKETS 1024
 
 #include <cstdint>
 #include <vector>
-- 
2.43.0


From 52e76278b3489dd5a20a1d4a0a2be6f485161cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 33/74] fix: UTF-8 validation accepted control characters
 before a multi-byte character and code points beyond U+10FFFF

---
 threadlocalutils.cpp | 22 +++++++++++++---------
 utils.h              |  4 ++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/threadlocalutils.cpp b/threadlocalutils.cpp
index a66ab66..6b69198 100644
--- a/threadlocalutils.cpp
+++ b/threadlocalutils.cpp
@@ -92,6 +92,15 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
         int index = _mm_cmpestri(non_ascii_mask, 1, loaded_AND_non_ascii, len_left, 0);
         n += index;
 
+        // The bytes up to the first multi-byte char, if there is one.
+        const int ascii_mask = (1 << index) - 1;
+
+        if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)) & ascii_mask)
+            return false;
+
+        if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)) & ascii_mask)
+            return false;
+
         // Checking multi-byte chars one by one. With some effort, this may be done using SIMD too, but the majority of uses will
         // have a minimum of multi byte chars.
         if (index < 16)
@@ -142,6 +151,10 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             else if (total_char_len == 4 && cur_code_point < 0x10000)
                 return false;
 
+            // The last code point of Unicode.
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             if (cur_code_point >= 0xD800 && cur_code_point <= 0xDFFF) // Dec 55296-57343
                 return false;
 
@@ -157,15 +170,6 @@ bool SimdUtils::isValidUtf8(const std::string &s, bool alsoCheckInvalidPublishCh
             if (plane <= 16 && (last_16_bit == 0xFFFE || last_16_bit == 0xFFFF))
                 return false;
         }
-        else
-        {
-            if (_mm_movemask_epi8(_mm_cmplt_epi8(loaded, lowerBound)))
-                return false;
-
-            if (_mm_movemask_epi8(_mm_cmpgt_epi8(loaded, lastAsciiChar)))
-                return false;
-        }
-
     }
 
     return true;
diff --git a/utils.h b/utils.h
index 2de4ab5..68f2ceb 100644
--- a/utils.h
+++ b/utils.h
@@ -127,6 +127,10 @@ bool isValidUtf8Generic(const T &s, bool alsoCheckInvalidPublishChars = false)
             else if (total_char_len == 4 && cur_code_point < 0x10000)
                 return false;
 
+            // The last code point of Unicode.
+            if (cur_code_point > 0x10FFFF)
+                return false;
+
             if (cur_code_point <= 0x001F)
                 return false;
             if (cur_code_point >= 0x007F && cur_code_point <= 0x009F)
-- 
2.43.0


From 8f2ce3c66d448f4430846f5788671a7657c3d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 34/74] fix: reserved bits and invalid retain handling in
 subscription options were accepted

---
 mqttpacket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 9eab900..5bbdc1b 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1792,6 +1792,12 @@ void MqttPacket::handleSubscribe(std::shared_ptr<Client> &sender)
             throw ProtocolError("QoS value in subscribe is higher than 2", ReasonCodes::MalformedPacket);
         }
 
+        // Reserved bits must be 0 [MQTT-3.8.3-5], and 3 is not a valid 'retain handling'.
+        if (this->protocolVersion >= ProtocolVersion::Mqtt5 && ((qos_byte & 0b11000000) || (qos_byte & 0b00110000) == 0b00110000))
+        {
+            throw ProtocolError("Invalid subscription options", ReasonCodes::MalformedPacket);
+        }
+
         const SubscriptionOptionsByte options(qos_byte);
 
         uint8_t qos = options.getQos();
-- 
2.43.0


From 8f8e4271f84c5b069bc60aced11ca4d6324598c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 35/74] fix: payload format indicators other than 0 and 1 were
 accepted

---
 mqttpacket.cpp | 14 ++++++++++++--
 mqttpacket.h   |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 5bbdc1b..94374df 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -895,7 +895,7 @@ ConnectData MqttPacket::parseConnectData(std::shared_ptr<Client> &sender)
                     if (pcounts[1]++ > 0)
                         throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                    result.willpublish.payloadUtf8 = static_cast<bool>(readByte());
+                    result.willpublish.payloadUtf8 = readPayloadFormatIndicator();
                     break;
                 case Mqtt5Properties::ContentType:
                 {
@@ -2085,7 +2085,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
                 if (pcounts[0]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.payloadUtf8 = static_cast<bool>(readByte());
+                publishData.payloadUtf8 = readPayloadFormatIndicator();
                 break;
             case Mqtt5Properties::MessageExpiryInterval:
                 if (pcounts[1]++ > 0)
@@ -2705,6 +2705,16 @@ uint8_t MqttPacket::readUint8()
     return static_cast<uint8_t>(r);
 }
 
+bool MqttPacket::readPayloadFormatIndicator()
+{
+    const uint8_t val = readUint8();
+
+    if (val > 1)
+        throw ProtocolError("Payload format indicator must be 0 or 1", ReasonCodes::ProtocolError);
+
+    return val == 1;
+}
+
 void MqttPacket::writeByte(uint8_t b)
 {
     if (pos + 1 > bites.size())
diff --git a/mqttpacket.h b/mqttpacket.h
index 1d2e669..5e3df0d 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -67,6 +67,7 @@ class MqttPacket
     std::string_view readBytes(size_t length);
     char readByte();
     uint8_t readUint8();
+    bool readPayloadFormatIndicator();
     void writeByte(uint8_t b);
     void writeUint16(uint16_t x);
 
-- 
2.43.0


From b227bbef987da36d1993026e946281baa6311686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 36/74] fix: continuation frames of fragmented websocket
 messages were refused

---
 iowrapper.cpp | 12 ++++++++++++
 iowrapper.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index 75682f5..7a1378c 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -834,6 +834,15 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
             if (reserved != 0)
                 throw BadClientException("Reserved bytes in header must be 0.");
 
+            // A message can be fragmented: a data frame without FIN bit, followed by continuation frames. For us, they are all just bytes.
+            if (opcode == WebsocketOpcode::Continuation)
+            {
+                if (!websocketFragmentedMessage)
+                    throw BadClientException("Websocket continuation frame without a frame to continue.");
+
+                opcode = WebsocketOpcode::Binary;
+            }
+
             if (headerLength > websocketPendingBytes.usedBytes())
                 return nbytesRead;
 
@@ -868,6 +877,9 @@ ssize_t IoWrapper::websocketBytesToReadBuffer(void *buf, const size_t nbytes, Io
 
             incompleteWebsocketRead.frame_bytes_left = realPayloadLength;
             incompleteWebsocketRead.opcode = opcode;
+
+            if (opcode == WebsocketOpcode::Binary)
+                websocketFragmentedMessage = !(byte1 & 0b10000000);
         }
 
         if (incompleteWebsocketRead.opcode == WebsocketOpcode::Binary)
diff --git a/iowrapper.h b/iowrapper.h
index 62c4ac4..9da088b 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -119,6 +119,7 @@ class IoWrapper
     WebsocketState websocketState = WebsocketState::NotUpgraded;
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
+    bool websocketFragmentedMessage = false;
     CirBuf websocketWriteRemainder;
 
     uint16_t mHaProxyAdditionalBytesLeft = 0;
-- 
2.43.0


From 9a16389ccb1c4bb7f7b611703c8f1f276560ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 37/74] fix: websocket connections stalled when an incomplete
 packet filled the read buffer exactly

---
 client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index f8b4ef6..699baa6 100644
--- a/client.cpp
+++ b/client.cpp
@@ -334,7 +334,7 @@ DisconnectStage Client::readFdIntoBuffer()
 
         if (error == IoWrapResult::Interrupted)
             continue;
-        if (error == IoWrapResult::Wouldblock || error == IoWrapResult::Disconnected)
+        if (error == IoWrapResult::Disconnected)
             break;
 
         // Make sure we either always have enough space for a next call of this method, or stop reading the fd.
@@ -356,6 +356,10 @@ DisconnectStage Client::readFdIntoBuffer()
                 break;
             }
         }
+
+        // With websockets, this can also be the error when bytes have been read, so it needs to come after having made space.
+        if (error == IoWrapResult::Wouldblock)
+            break;
     }
 
     if (error == IoWrapResult::Disconnected)
-- 
2.43.0


From 428111719297be2c1007dacb3188488741fa6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:28 +0000
Subject: [PATCH 38/74] fix: websocket data was discarded when the peer closed
 the connection right after sending it

---
 iowrapper.cpp | 10 ++++++++--
 iowrapper.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index 7a1378c..c210330 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -659,7 +659,7 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
     }
 
     ssize_t n = 0;
-    while (websocketPendingBytes.freeSpace() > 0 && (n = readOrSslRead(fd, websocketPendingBytes.headPtr(), websocketPendingBytes.maxWriteSize(), error)) != 0)
+    while (!websocketPeerGone && websocketPendingBytes.freeSpace() > 0 && (n = readOrSslRead(fd, websocketPendingBytes.headPtr(), websocketPendingBytes.maxWriteSize(), error)) != 0)
     {
         if (n > 0)
             websocketPendingBytes.advanceHead(n);
@@ -695,6 +695,11 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
         }
     }
 
+    if (*error == IoWrapResult::Disconnected)
+        websocketPeerGone = true;
+    else if (websocketPeerGone)
+        *error = IoWrapResult::Disconnected;
+
     const bool hasWebsocketPendingBytes = websocketPendingBytes.usedBytes() > 0;
 
     // When some or all the data has been read, we can continue.
@@ -769,7 +774,8 @@ ssize_t IoWrapper::readWebsocketAndOrSsl(int fd, void *buf, size_t nbytes, IoWra
 
     n = websocketBytesToReadBuffer(buf, nbytes, error);
 
-    if (*error != IoWrapResult::Disconnected)
+    // What was sent before the disconnect needs to be decoded, even if it doesn't fit in the caller's buffer all at once.
+    if (*error != IoWrapResult::Disconnected || (n > 0 && websocketPendingBytes.usedBytes() > 0))
         *error = websocketPendingBytes.usedBytes() == 0 ? IoWrapResult::Wouldblock : IoWrapResult::WantRead;
 
     return n;
diff --git a/iowrapper.h b/iowrapper.h
index 9da088b..308d1bf 100644
--- a/iowrapper.h
+++ b/iowrapper.h
@@ -120,6 +120,7 @@ class IoWrapper
     CirBuf websocketPendingBytes;
     IncompleteWebsocketRead incompleteWebsocketRead;
     bool websocketFragmentedMessage = false;
+    bool websocketPeerGone = false;
     CirBuf websocketWriteRemainder;
 
     uint16_t mHaProxyAdditionalBytesLeft = 0;
-- 
2.43.0


From b970da0e10a6cd3a77738dd515b49bea94579e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:39 +0000
Subject: [PATCH 39/74] fix: a websocket handshake of which the last byte
 arrived separately corrupted the stream

---
 http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http.cpp b/http.cpp
index bbf5141..a13d930 100644
--- a/http.cpp
+++ b/http.cpp
@@ -101,6 +101,10 @@ std::optional<HttpRequest> parseHttpHeader(CirBuf &buf)
         std::istringstream is(s);
         for (std::string line; std::getline(is, line);)
         {
+            // Without line ending, the rest of it has yet to arrive.
+            if (is.eof())
+                break;
+
             trim(line);
 
             if (line.empty())
-- 
2.43.0


From e981387b7f4912164db53c9a8f67f6e3ed071d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 40/74] fix: an empty websocket pong was lost when the write
 buffer had exactly the header's size left

---
 iowrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iowrapper.cpp b/iowrapper.cpp
index c210330..e684f63 100644
--- a/iowrapper.cpp
+++ b/iowrapper.cpp
@@ -1027,7 +1027,7 @@ ssize_t IoWrapper::writeAsMuchOfBufAsWebsocketFrame(const void *buf, const size_
     const ssize_t nBytesReal = std::min<size_t>(nbytes, bodyBytesAvailable);
 
     // We normally wrap each write in a frame, but if a previous one didn't fit in the system's write buffers, we're still working on it.
-    if (websocketWriteRemainder.freeSpace() > WEBSOCKET_MAX_SENDING_HEADER_SIZE)
+    if (nBytesReal > 0 || (nbytes == 0 && bytesFree >= WEBSOCKET_MAX_SENDING_HEADER_SIZE))
     {
         uint8_t extended_payload_length_num_bytes = 0;
         uint8_t payload_length = 0;
-- 
2.43.0


From 5535c46539e6ae7c5ab3d57d549433bf12782077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:35 +0000
Subject: [PATCH 41/74] fix: limit on bytes queued per client ignored all
 message properties

---
 qospacketqueue.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qospacketqueue.cpp b/qospacketqueue.cpp
index 61981d8..e6b5503 100644
--- a/qospacketqueue.cpp
+++ b/qospacketqueue.cpp
@@ -37,9 +37,21 @@ const std::optional<std::string> &QueuedPublish::getTopicOverride() const
 
 size_t QueuedPublish::getApproximateMemoryFootprint() const
 {
-    // TODO: hmm, this is possibly very inaccurate with MQTT5 packets.
+    size_t result = publish.topic.length() + publish.payload.length();
 
-    return publish.topic.length() + publish.payload.length();
+    for (const std::optional<std::string> *s : {&publish.responseTopic, &publish.correlationData, &publish.contentType, &topic_override})
+    {
+        if (*s)
+            result += (*s)->length();
+    }
+
+    if (publish.userProperties)
+    {
+        for (const auto &p : *publish.userProperties)
+            result += p.first.length() + p.second.length();
+    }
+
+    return result;
 }
 
 
-- 
2.43.0


From a11ddc498926405d58b0a431ab1f98b719c99a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:37 +0000
Subject: [PATCH 42/74] fix: subscriptions to topics starting with a dollar
 sign were not saved

---
 subscriptionstore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 8499c5b..5d82dba 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1610,6 +1610,7 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
     DeferredGetSubscription start(root, "", true);
 
     deferred.push_front(std::move(start));
+    deferred.emplace_back(rootDollar, "", true);
 
     for (; !deferred.empty(); deferred.pop_front())
     {
-- 
2.43.0


From 2575b15ba0620975cea5f955b8420163085a40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:37 +0000
Subject: [PATCH 43/74] fix: subscriptions to topics starting with a dollar
 sign were never cleaned up and fell out of the count

---
 subscriptionstore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 5d82dba..0a9dd02 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1405,6 +1405,7 @@ bool SubscriptionStore::purgeSubscriptionTree()
         logger->logf(LOG_INFO, "Rebuilding subscription tree");
         subscriptionDeferredCounter = 0;
         root->cleanSubscriptions(deferredSubscriptionLeafsForPurging, subscriptionDeferredCounter);
+        rootDollar->cleanSubscriptions(deferredSubscriptionLeafsForPurging, subscriptionDeferredCounter);
         logger->log(LOG_INFO) << "Rebuilding subscription tree done, with " << deferredSubscriptionLeafsForPurging.size() << " deferred direct leafs to check";
     }
 
-- 
2.43.0


From e3fae9b9cc47610797eec848c1fbb02013bcb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 44/74] fix: a saved message with a subscription identifier
 made the broker refuse to start

---
 mqttpacket.cpp                 | 12 +++++++++++-
 mqttpacket.h                   |  2 +-
 retainedmessagesdb.cpp         |  2 +-
 sessionsandsubscriptionsdb.cpp |  4 ++--
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 94374df..d2c2348 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2033,7 +2033,11 @@ void MqttPacket::handleUnsubscribe(std::shared_ptr<Client> &sender)
     sender->writeMqttPacket(response);
 }
 
-void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
+/**
+ * @brief MqttPacket::parsePublishData
+ * @param fromStateFile is for packets we wrote ourselves. They contain the subscription identifier to deliver the message with.
+ */
+void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStateFile)
 {
     assert(externallyReceived);
 
@@ -2159,6 +2163,12 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender)
 
                 dontReuseBites = true;
 
+                if (fromStateFile)
+                {
+                    publishData.subscriptionIdentifier = decodeVariableByteIntAtPos();
+                    break;
+                }
+
 #ifndef TESTING
                 if (sender->getClientType() != ClientType::LocalBridge)
                     throw ProtocolError("Subscription identifiers cannot be sent to servers.", ReasonCodes::ProtocolError);
diff --git a/mqttpacket.h b/mqttpacket.h
index 5e3df0d..0be3605 100644
--- a/mqttpacket.h
+++ b/mqttpacket.h
@@ -154,7 +154,7 @@ public:
     void handleSubAck(std::shared_ptr<Client> &sender);
     void handleUnsubscribe(std::shared_ptr<Client> &sender);
     void handlePing(std::shared_ptr<Client> &sender);
-    void parsePublishData(std::shared_ptr<Client> &sender);
+    void parsePublishData(std::shared_ptr<Client> &sender, bool fromStateFile=false);
     void handlePublish(std::shared_ptr<Client> &sender);
     void parsePubAckData();
     void handlePubAck(std::shared_ptr<Client> &sender);
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 0c4988a..4d76954 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -215,7 +215,7 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
         cirbuf.advanceHead(packlen);
         MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-        pack.parsePublishData(dummyClient);
+        pack.parsePublishData(dummyClient, true);
         Publish pub(pack.getPublishData());
 
         pub.client_id = client_id;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index b543c75..a729ea4 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -182,7 +182,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                     cirbuf.advanceHead(packlen);
                     MqttPacket pack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
 
-                    pack.parsePublishData(dummyClient);
+                    pack.parsePublishData(dummyClient, true);
                     Publish pub(pack.getPublishData());
 
                     pub.client_id = sender_clientid;
@@ -255,7 +255,7 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
                 readCheck(cirbuf.headPtr(), 1, packlen, f);
                 cirbuf.advanceHead(packlen);
                 MqttPacket publishpack(cirbuf.readToVector(packlen), fixed_header_length, dummyClient);
-                publishpack.parsePublishData(dummyClient);
+                publishpack.parsePublishData(dummyClient, true);
                 WillPublish willPublish = publishpack.getPublishData();
                 willPublish.will_delay = stateAgecompensatedWillDelay;
 
-- 
2.43.0


From fa86eb63e54f664b615f6c37bb6f9beec611a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:29 +0000
Subject: [PATCH 45/74] fix: saved messages bigger than max_packet_size or
 max_string_length made the broker refuse to start

---
 mqttpacket.cpp                 | 15 ++++++++-------
 retainedmessagesdb.cpp         |  7 +++++--
 sessionsandsubscriptionsdb.cpp |  6 +++++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index d2c2348..244f800 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2056,9 +2056,10 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStat
     publishData.username = sender->getUsername();
     publishData.client_id = sender->getClientId();
 
-    const Settings *settings = ThreadGlobals::getSettings();
+    // What we accepted once can't be refused because of settings that changed since.
+    const uint16_t maxStringLength = fromStateFile ? std::numeric_limits<uint16_t>::max() : ThreadGlobals::getSettings()->maxStringLength;
 
-    publishData.topic = readBytesToString(settings->maxStringLength, true, true);
+    publishData.topic = readBytesToString(maxStringLength, true, true);
 
     if (publishData.qos)
     {
@@ -2134,7 +2135,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStat
                 if (pcounts[3]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.responseTopic = readBytesToString(settings->maxStringLength, true, true);
+                publishData.responseTopic = readBytesToString(maxStringLength, true, true);
 
                 if (publishData.responseTopic->empty())
                     throw ProtocolError("Response topic cannot be empty", ReasonCodes::ProtocolError);
@@ -2146,13 +2147,13 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStat
                 if (pcounts[4]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.correlationData = readBytesToString(settings->maxStringLength, false);
+                publishData.correlationData = readBytesToString(maxStringLength, false);
                 break;
             }
             case Mqtt5Properties::UserProperty:
             {
-                std::string key = readBytesToString(settings->maxStringLength);
-                std::string val = readBytesToString(settings->maxStringLength);
+                std::string key = readBytesToString(maxStringLength);
+                std::string val = readBytesToString(maxStringLength);
                 this->publishData.addUserProperty(std::move(key), std::move(val));
                 break;
             }
@@ -2186,7 +2187,7 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStat
                 if (pcounts[6]++ > 0)
                     throw ProtocolError("Can't specify " + propertyToString(prop) + " more than once", ReasonCodes::ProtocolError);
 
-                publishData.contentType = readBytesToString(settings->maxStringLength, true, false);
+                publishData.contentType = readBytesToString(maxStringLength, true, false);
                 break;
             }
             default:
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 4d76954..584c981 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -179,9 +179,12 @@ std::list<RetainedMessage> RetainedMessagesDB::readDataV3V4(size_t max)
 
     CirBuf cirbuf(1024);
 
-    const Settings &settings = *ThreadGlobals::getSettings();
+    // The saved packets can be bigger than what the original clients sent, and than what's allowed now.
+    Settings dummySettings(*ThreadGlobals::getSettings());
+    dummySettings.maxPacketSize = ABSOLUTE_MAX_PACKET_SIZE;
+
     std::shared_ptr<ThreadData> dummyThreadData;
-    std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settings, false));
+    std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, dummySettings, false));
     dummyClient->setClientProperties(ProtocolVersion::Mqtt5, "Dummyforloadingretained", {}, "nobody", true, 60);
 
     bool eofFound = false;
diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index a729ea4..9839e79 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -136,8 +136,12 @@ SessionsAndSubscriptionsResult SessionsAndSubscriptionsDB::readDataV3V4V5V6V7()
         std::vector<char> reserved(RESERVED_SPACE_SESSIONS_DB_V2);
         CirBuf cirbuf(1024);
 
+        // The saved packets can be bigger than what the original clients sent, and than what's allowed now.
+        Settings dummySettings(*ThreadGlobals::getSettings());
+        dummySettings.maxPacketSize = ABSOLUTE_MAX_PACKET_SIZE;
+
         std::shared_ptr<ThreadData> dummyThreadData; // which thread am I going get/use here?
-        std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, settings, false));
+        std::shared_ptr<Client> dummyClient(std::make_shared<Client>(ClientType::Normal, -1, dummyThreadData, FmqSsl(), ConnectionProtocol::Mqtt, HaProxyMode::Off, nullptr, dummySettings, false));
         dummyClient->setClientProperties(ProtocolVersion::Mqtt5, "Dummyforloadingqueuedqos", {}, "nobody", true, 60);
 
         for (uint32_t i = 0; i < nrOfSessions; i++)
-- 
2.43.0


From 8ca491f9b8122b949a7ced66bd9eb32e49c6032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:00 +0000
Subject: [PATCH 46/74] fix: a delayed will that became due while not running
 was lost when stopping again right after starting

---
 sessionsandsubscriptionsdb.cpp | 11 ++++++++---
 types.cpp                      |  8 ++++++++
 types.h                        |  1 +
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/sessionsandsubscriptionsdb.cpp b/sessionsandsubscriptionsdb.cpp
index 9839e79..5b1fd5e 100644
--- a/sessionsandsubscriptionsdb.cpp
+++ b/sessionsandsubscriptionsdb.cpp
@@ -325,9 +325,14 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
     writeInt64(now_epoch);
 
     std::vector<std::shared_ptr<Session>> sessionsToSave;
-    // Sessions created with clean session need to be destroyed when disconnecting, so no point in saving them.
+    // Sessions created with clean session need to be destroyed when disconnecting, so no point in saving them. Sessions that
+    // expired when we were not running are also seen as such, but they can still have a will to send.
     std::copy_if(sessions.begin(), sessions.end(), std::back_inserter(sessionsToSave), [](const std::shared_ptr<Session> &ses) {
-        return ses && !ses->destroyOnDisconnect;
+        if (!ses)
+            return false;
+
+        std::shared_ptr<WillPublish> will = ses->getWill();
+        return !ses->destroyOnDisconnect || (will && will->isPending());
     });
 
     writeUint32(sessionsToSave.size());
@@ -414,7 +419,7 @@ void SessionsAndSubscriptionsDB::saveData(const std::vector<std::shared_ptr<Sess
             writeUint32(ses->getCurrentSessionExpiryInterval());
 
             std::shared_ptr<WillPublish> will = ses->getWill();
-            const bool hasWillThatShouldSurviveRestart = will.operator bool() && will->will_delay > 0;
+            const bool hasWillThatShouldSurviveRestart = will.operator bool() && will->isPending();
             writeUint16(static_cast<uint16_t>(hasWillThatShouldSurviveRestart));
 
             if (hasWillThatShouldSurviveRestart)
diff --git a/types.cpp b/types.cpp
index 8c64f51..b2ef935 100644
--- a/types.cpp
+++ b/types.cpp
@@ -354,6 +354,14 @@ bool WillPublish::markSent()
     return !std::atomic_ref<bool>(this->sent).exchange(true);
 }
 
+/**
+ * @brief WillPublish::isPending tells whether the will will be sent, no matter whether its delay has already passed (while we were not running, for instance).
+ */
+bool WillPublish::isPending() const
+{
+    return this->will_delay > 0 || this->isQueued;
+}
+
 /**
  * @brief WillPublish::getQueuedAtAge gets the time ago in seconds when this will was queued. The time is set externally by the queue action.
  * @return
diff --git a/types.h b/types.h
index 069cfc5..6c37f63 100644
--- a/types.h
+++ b/types.h
@@ -295,6 +295,7 @@ public:
     void setQueuedAt();
     Publish withLifetimeStartingNow() const;
     bool markSent();
+    bool isPending() const;
     uint32_t getQueuedAtAge() const;
     std::optional<Mqtt5PropertyBuilder> getPropertyBuilder() const;
 };
-- 
2.43.0


From f70a6d2d2a133abbf1b74fe137c76c6787b2ce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:03 +0000
Subject: [PATCH 47/74] fix: loading saved subscription identifiers in test
 builds

---
 mqttpacket.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 244f800..ad34341 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2167,6 +2167,9 @@ void MqttPacket::parsePublishData(std::shared_ptr<Client> &sender, bool fromStat
                 if (fromStateFile)
                 {
                     publishData.subscriptionIdentifier = decodeVariableByteIntAtPos();
+#ifdef TESTING
+                    publishData.subscriptionIdentifierTesting = publishData.subscriptionIdentifier;
+#endif
                     break;
                 }
 
-- 
2.43.0


From 432116200fdb0c47d45e261c4554e1b9b2b9cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:48 +0000
Subject: [PATCH 48/74] fix: state files saved after 2038-01-19 were seen as
 being more than a century old

---
 persistencefile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 8cd3494..61262dd 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -254,8 +254,8 @@ int64_t PersistenceFile::readInt64(bool &eofFound)
         eofFound = true;
 
     unsigned char *buf_ = buf.data();
-    const uint64_t val1 = ((buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
-    const uint64_t val2 = ((buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
+    const uint64_t val1 = (static_cast<uint32_t>(buf_[0]) << 24) | ((buf_[1]) << 16) | ((buf_[2]) << 8) | (buf_[3]);
+    const uint64_t val2 = (static_cast<uint32_t>(buf_[4]) << 24) | ((buf_[5]) << 16) | ((buf_[6]) << 8) | (buf_[7]);
     const int64_t val = (val1 << 32) | val2;
     return val;
 }
-- 
2.43.0


From 87af46d9d29245dc27d3df26967cc489268f85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:48 +0000
Subject: [PATCH 49/74] fix: empty or very short state files were not moved
 aside, so that the broker never started again

---
 persistencefile.cpp | 33 ++++++++++++++++++---------------
 persistencefile.h   |  1 +
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/persistencefile.cpp b/persistencefile.cpp
index 61262dd..aa9a30e 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -120,7 +120,7 @@ void PersistenceFile::verifyHash()
     const size_t size = ftell(f);
 
     if (size < TOTAL_HEADER_SIZE)
-        throw std::runtime_error(formatString("File '%s' is too small for it even to contain a header.", filePath.c_str()));
+        moveAsideAndThrow("too small for it even to contain a header");
 
     unsigned char md_from_disk[HASH_SIZE];
     std::memset(md_from_disk, 0, HASH_SIZE);
@@ -147,24 +147,27 @@ void PersistenceFile::verifyHash()
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
     if (std::memcmp(md_from_disk, md_value, output_len) != 0)
-    {
-        fclose(f);
-        f = nullptr;
-
-        if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Moved aside to '%s'.", filePath.c_str(), filePathCorrupt.c_str()));
-        }
-        else
-        {
-            throw std::runtime_error(formatString("File '%s' is corrupt: hash mismatch. Tried to move aside, but that failed: '%s'.",
-                                                  filePath.c_str(), strerror(errno)));
-        }
-    }
+        moveAsideAndThrow("hash mismatch");
 
     logger->logf(LOG_DEBUG, "Hash of '%s' correct", filePath.c_str());
 }
 
+void PersistenceFile::moveAsideAndThrow(const std::string &reason)
+{
+    fclose(f);
+    f = nullptr;
+
+    if (rename(filePath.c_str(), filePathCorrupt.c_str()) == 0)
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Moved aside to '%s'.", filePath.c_str(), reason.c_str(), filePathCorrupt.c_str()));
+    }
+    else
+    {
+        throw std::runtime_error(formatString("File '%s' is corrupt: %s. Tried to move aside, but that failed: '%s'.",
+                                              filePath.c_str(), reason.c_str(), strerror(errno)));
+    }
+}
+
 /**
  * @brief PersistenceFile::makeSureBufSize grows the buffer if n is bigger.
  * @param n in bytes.
diff --git a/persistencefile.h b/persistencefile.h
index d297a71..398974e 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -49,6 +49,7 @@ class PersistenceFile
 
     void hashFile();
     void verifyHash();
+    void moveAsideAndThrow(const std::string &reason);
 
 protected:
     enum class FileMode
-- 
2.43.0


From fefa079bd72ea4a3a1989c98a86cfcf146c6c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:37 +0000
Subject: [PATCH 50/74] fix: a failing write while saving state replaced the
 good file by an incomplete one, or terminated the broker

---
 bridgeinfodb.h               |  1 +
 persistencefile.cpp          | 90 +++++++++++++++++++++++++-----------
 persistencefile.h            |  5 +-
 persistencefunctions.cpp     |  1 +
 retainedmessagesdb.cpp       | 14 ++++--
 sessionsandsubscriptionsdb.h |  1 +
 subscriptionstore.cpp        |  3 ++
 7 files changed, 85 insertions(+), 30 deletions(-)

diff --git a/bridgeinfodb.h b/bridgeinfodb.h
index a377aa9..252e28e 100644
--- a/bridgeinfodb.h
+++ b/bridgeinfodb.h
@@ -38,6 +38,7 @@ public:
 
     void openWrite();
     void openRead();
+    using PersistenceFile::closeFile;
 
     void saveInfo(const std::list<BridgeInfoForSerializing> &bridgeInfos);
     std::list<BridgeInfoForSerializing> readInfo();
diff --git a/persistencefile.cpp b/persistencefile.cpp
index aa9a30e..621f756 100644
--- a/persistencefile.cpp
+++ b/persistencefile.cpp
@@ -38,17 +38,20 @@ PersistenceFile::PersistenceFile(const std::string &filePath) :
     std::vector<char> d1(filePath.length() + 1, 0);
     std::copy(filePath.begin(), filePath.end(), d1.begin());
     this->dirPath = std::string(dirname(d1.data()));
+
+    this->uncaughtExceptionsAtConstruction = std::uncaught_exceptions();
 }
 
 PersistenceFile::~PersistenceFile()
 {
     try
     {
+        discardIfUnwinding();
         closeFile();
     }
     catch(std::exception &ex)
     {
-        Logger::getInstance()->logf(LOG_WARNING, ex.what());
+        Logger::getInstance()->log(LOG_WARNING) << ex.what();
     }
 
     if (f != nullptr)
@@ -66,6 +69,7 @@ void PersistenceFile::writeCheck(const void *ptr, size_t size, size_t n, FILE *s
 {
     if (fwrite(ptr, size, n, s) != n)
     {
+        discard = true;
         throw std::runtime_error(formatString("Error writing: %s", strerror(errno)));
     }
 }
@@ -85,11 +89,23 @@ ssize_t PersistenceFile::readCheck(void *ptr, size_t size, size_t n, FILE *strea
     return nread;
 }
 
+/**
+ * @brief PersistenceFile::seekCheck seeks, which includes writing what is still buffered.
+ */
+void PersistenceFile::seekCheck(long offset, int whence)
+{
+    if (fseek(f, offset, whence) != 0 || ferror(f))
+    {
+        discard = true;
+        throw std::runtime_error(formatString("Error writing: %s", strerror(errno)));
+    }
+}
+
 void PersistenceFile::hashFile()
 {
     logger->logf(LOG_DEBUG, "Calculating and saving hash of '%s'.", filePath.c_str());
 
-    fseek(f, TOTAL_HEADER_SIZE, SEEK_SET);
+    seekCheck(TOTAL_HEADER_SIZE, SEEK_SET);
 
     unsigned int output_len = 0;
     unsigned char md_value[EVP_MAX_MD_SIZE];
@@ -101,6 +117,10 @@ void PersistenceFile::hashFile()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s': %s", filePath.c_str(), strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -109,7 +129,7 @@ void PersistenceFile::hashFile()
     if (output_len != HASH_SIZE)
         throw std::runtime_error("Impossible: calculated hash size wrong length");
 
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
 
     writeCheck(md_value, output_len, 1, f);
 }
@@ -138,6 +158,10 @@ void PersistenceFile::verifyHash()
     while (!feof(f))
     {
         size_t n = fread(buf.data(), 1, buf.size(), f);
+
+        if (ferror(f))
+            throw std::runtime_error(formatString("Error reading '%s': %s", filePath.c_str(), strerror(errno)));
+
         EVP_DigestUpdate(digestContext.get(), buf.data(), n);
     }
 
@@ -344,9 +368,9 @@ void PersistenceFile::openWrite(const std::string &versionString)
     openMode = FileMode::write;
 
     writeCheck(buf.data(), 1, MAGIC_STRING_LENGH, f);
-    rewind(f);
+    seekCheck(0, SEEK_SET);
     writeCheck(versionString.c_str(), 1, versionString.length(), f);
-    fseek(f, MAGIC_STRING_LENGH, SEEK_SET);
+    seekCheck(MAGIC_STRING_LENGH, SEEK_SET);
     writeCheck(buf.data(), 1, HASH_SIZE, f);
 }
 
@@ -419,48 +443,59 @@ void PersistenceFile::dontSaveTmpFile()
     this->discard = true;
 }
 
+/**
+ * @brief PersistenceFile::discardIfUnwinding is for destructors, to not replace the good file with an incomplete one when saving is aborted by an exception.
+ */
+void PersistenceFile::discardIfUnwinding()
+{
+    if (std::uncaught_exceptions() > uncaughtExceptionsAtConstruction)
+        this->discard = true;
+}
+
+/**
+ * @brief PersistenceFile::closeFile finishes the file. When writing, the actual file is only replaced when everything was written and synced successfully.
+ */
 void PersistenceFile::closeFile()
 {
     if (!f)
         return;
 
-    if (openMode == FileMode::write)
+    std::string error;
+
+    if (openMode == FileMode::write && !discard)
     {
-        if (!discard)
+        try
+        {
             hashFile();
 
-        if (fflush(f) != 0)
+            if (fflush(f) != 0 || ferror(f))
+                error = formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), strerror(errno));
+            else if (fsync(fileno(f)) != 0)
+                error = formatString("Sync of '%s' failed: %s.", this->filePathTemp.c_str(), strerror(errno));
+        }
+        catch (std::exception &ex)
         {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Flush of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
+            error = formatString("Finishing '%s' failed: %s.", this->filePathTemp.c_str(), ex.what());
         }
-
-        fsync(f->_fileno);
     }
 
-    if (f != nullptr)
-    {
-        FILE *f2 = f;
-        f = nullptr;
+    FILE *f2 = f;
+    f = nullptr;
 
-        if (fclose(f2) < 0)
-        {
-            std::string msg(strerror(errno));
-            throw std::runtime_error(formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), msg.c_str()));
-        }
-    }
+    if (fclose(f2) != 0 && error.empty() && !discard)
+        error = formatString("Close of '%s' failed: %s.", this->filePathTemp.c_str(), strerror(errno));
 
     if (openMode == FileMode::write && !filePathTemp.empty() && ! filePath.empty())
     {
-        if (discard)
+        if (error.empty() && !discard && rename(filePathTemp.c_str(), filePath.c_str()) < 0)
+            error = formatString("Saving '%s' failed: rename of temp file to target failed with: %s", filePath.c_str(), strerror(errno));
+
+        if (discard || !error.empty())
         {
             unlink(filePathTemp.c_str());
         }
         else
         {
-            if (rename(filePathTemp.c_str(), filePath.c_str()) < 0)
-                throw std::runtime_error(formatString("Saving '%s' failed: rename of temp file to target failed with: %s", filePath.c_str(), strerror(errno)));
-
             int dir_fd = open(this->dirPath.c_str(), O_RDONLY);
             if (dir_fd > 0)
             {
@@ -469,6 +504,9 @@ void PersistenceFile::closeFile()
             }
         }
     }
+
+    if (!error.empty())
+        throw std::runtime_error(error);
 }
 
 const std::string &PersistenceFile::getFilePath() const
diff --git a/persistencefile.h b/persistencefile.h
index 398974e..b526814 100644
--- a/persistencefile.h
+++ b/persistencefile.h
@@ -42,7 +42,7 @@ class PersistenceFile
     std::string filePathTemp;
     std::string filePathCorrupt;
     std::string dirPath;
-    bool discard = false;
+    int uncaughtExceptionsAtConstruction = 0;
 
     std::unique_ptr<EVP_MD_CTX, void(*)(EVP_MD_CTX*)> digestContext;
     const EVP_MD *sha512 = EVP_sha512();
@@ -60,6 +60,7 @@ protected:
     };
 
     FILE *f = nullptr;
+    bool discard = false;
     std::vector<unsigned char> buf;
     FileMode openMode = FileMode::unknown;
     std::string detectedVersionString;
@@ -67,6 +68,8 @@ protected:
     Logger *logger = Logger::getInstance();
 
     void makeSureBufSize(size_t n);
+    void discardIfUnwinding();
+    void seekCheck(long offset, int whence);
 
     void writeCheck(const void *__restrict __ptr, size_t __size, size_t __n, FILE *__restrict __s);
     ssize_t readCheck(void *__restrict ptr, size_t size, size_t n, FILE *__restrict stream);
diff --git a/persistencefunctions.cpp b/persistencefunctions.cpp
index 999d2d7..9ba8296 100644
--- a/persistencefunctions.cpp
+++ b/persistencefunctions.cpp
@@ -66,6 +66,7 @@ void saveBridgeInfo(const std::string &filePath, const std::list<BridgeInfoForSe
     BridgeInfoDb bridgeInfoDb(filePath);
     bridgeInfoDb.openWrite();
     bridgeInfoDb.saveInfo(bridgeInfos);
+    bridgeInfoDb.closeFile();
 }
 
 std::list<BridgeConfig> loadBridgeInfo(Settings &settings)
diff --git a/retainedmessagesdb.cpp b/retainedmessagesdb.cpp
index 584c981..af88edc 100644
--- a/retainedmessagesdb.cpp
+++ b/retainedmessagesdb.cpp
@@ -32,7 +32,15 @@ RetainedMessagesDB::RetainedMessagesDB(const std::string &filePath) : Persistenc
 
 RetainedMessagesDB::~RetainedMessagesDB()
 {
-    closeFile();
+    try
+    {
+        discardIfUnwinding();
+        closeFile();
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_WARNING) << ex.what();
+    }
 }
 
 void RetainedMessagesDB::openWrite()
@@ -95,9 +103,9 @@ void RetainedMessagesDB::closeFile()
     if (!f)
         return;
 
-    if (openMode == FileMode::write && length_pos > 0 && written_count > 0)
+    if (openMode == FileMode::write && !discard && length_pos > 0 && written_count > 0)
     {
-        fseek(f, length_pos, SEEK_SET);
+        seekCheck(length_pos, SEEK_SET);
         writeUint32(written_count);
     }
 
diff --git a/sessionsandsubscriptionsdb.h b/sessionsandsubscriptionsdb.h
index d671418..bfbcf99 100644
--- a/sessionsandsubscriptionsdb.h
+++ b/sessionsandsubscriptionsdb.h
@@ -80,6 +80,7 @@ public:
 
     void openWrite();
     void openRead();
+    using PersistenceFile::closeFile;
 
     void saveData(const std::vector<std::shared_ptr<Session>> &sessions, const std::unordered_map<std::string, std::list<SubscriptionForSerializing>> &subscriptions);
     SessionsAndSubscriptionsResult readData();
diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 0a9dd02..e6120c7 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1741,6 +1741,8 @@ void SubscriptionStore::saveRetainedMessages(const std::string &filePath, bool i
             std::this_thread::sleep_for(std::chrono::microseconds(100));
     }
 
+    db.closeFile();
+
     logger->log(LOG_NOTICE) << "Done saving " << total_count << " retained messages.";
 }
 
@@ -1806,6 +1808,7 @@ void SubscriptionStore::saveSessionsAndSubscriptions(const std::string &filePath
     SessionsAndSubscriptionsDB db(filePath);
     db.openWrite();
     db.saveData(sessionPointers, subscriptionCopies);
+    db.closeFile();
 
     const std::chrono::time_point<std::chrono::steady_clock> doneSaving = std::chrono::steady_clock::now();
 
-- 
2.43.0


From eb7dcfafed436e045ca3f022371d5fc190ae6e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:26 +0000
Subject: [PATCH 51/74] fix: data races in the logger between changing its
 settings and writing

---
 logger.cpp | 44 ++++++++++++++++++++++++++++++--------------
 logger.h   | 10 ++++++----
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/logger.cpp b/logger.cpp
index 3846304..5f78727 100644
--- a/logger.cpp
+++ b/logger.cpp
@@ -143,15 +143,22 @@ void Logger::reOpen()
         ofile.close();
     }
 
-    if (logPath.empty())
+    std::string path;
+
+    {
+        std::lock_guard<std::mutex> locker(logMutex);
+        path = logPath;
+    }
+
+    if (path.empty())
         return;
 
-    ofile.open(logPath, std::ios::app | std::ios::out);
+    ofile.open(path, std::ios::app | std::ios::out);
 
     if (!ofile.good())
     {
         ofile.close();
-        logf(LOG_ERR, "(Re)opening log file '%s' error: %s. Logging to stdout.", logPath.c_str(), strerror(errno));
+        logf(LOG_ERR, "(Re)opening log file '%s' error: %s. Logging to stdout.", path.c_str(), strerror(errno));
     }
 }
 
@@ -165,6 +172,7 @@ void Logger::noLongerLogToStd()
 
 void Logger::setLogPath(const std::string &path)
 {
+    std::lock_guard<std::mutex> locker(logMutex);
     this->logPath = path;
 }
 
@@ -181,28 +189,30 @@ void Logger::setLogPath(const std::string &path)
  */
 void Logger::setFlags(LogLevel level, bool logSubscriptions, bool logPublishes)
 {
-    curLogLevel = 0;
+    int newLogLevel = 0;
 
     if (level <= LogLevel::Debug)
-        curLogLevel |= LOG_DEBUG;
+        newLogLevel |= LOG_DEBUG;
     if (level <= LogLevel::Info)
-        curLogLevel |= LOG_INFO;
+        newLogLevel |= LOG_INFO;
     if (level <= LogLevel::Notice)
-        curLogLevel |= LOG_NOTICE;
+        newLogLevel |= LOG_NOTICE;
     if (level <= LogLevel::Warning)
-        curLogLevel |= LOG_WARNING;
+        newLogLevel |= LOG_WARNING;
     if (level <= LogLevel::Error)
-        curLogLevel |= LOG_ERR;
+        newLogLevel |= LOG_ERR;
 
     if (logSubscriptions)
-        curLogLevel |= (LOG_UNSUBSCRIBE | LOG_SUBSCRIBE);
+        newLogLevel |= (LOG_UNSUBSCRIBE | LOG_SUBSCRIBE);
     else
-        curLogLevel &= ~(LOG_UNSUBSCRIBE | LOG_SUBSCRIBE);
+        newLogLevel &= ~(LOG_UNSUBSCRIBE | LOG_SUBSCRIBE);
 
     if (logPublishes)
-        curLogLevel |= LOG_PUBLISH;
+        newLogLevel |= LOG_PUBLISH;
     else
-        curLogLevel &= ~LOG_PUBLISH;
+        newLogLevel &= ~LOG_PUBLISH;
+
+    curLogLevel = newLogLevel;
 }
 
 /**
@@ -254,6 +264,12 @@ void Logger::start()
     pthread_setname_np(native, "LogWriter");
 }
 
+bool Logger::hasLines()
+{
+    std::lock_guard<std::mutex> locker(logMutex);
+    return !lines.empty();
+}
+
 void Logger::writeLog()
 {
     maskAllSignalsCurrentThread();
@@ -261,7 +277,7 @@ void Logger::writeLog()
     int graceCounter = 0;
 
     LogLine line;
-    while(running || (!lines.empty() && graceCounter++ < 1000 ))
+    while(running || (hasLines() && graceCounter++ < 1000 ))
     {
         sem_wait(&linesPending);
 
diff --git a/logger.h b/logger.h
index 56c6742..8cbff6b 100644
--- a/logger.h
+++ b/logger.h
@@ -12,6 +12,7 @@ See LICENSE for license details.
 #define LOGGER_H
 
 #include <stdarg.h>
+#include <atomic>
 #include <mutex>
 #include <queue>
 #include <thread>
@@ -65,22 +66,23 @@ public:
 class Logger
 {
     std::string logPath;
-    int curLogLevel = LOG_ERR | LOG_WARNING | LOG_NOTICE | LOG_INFO | LOG_SUBSCRIBE | LOG_UNSUBSCRIBE ;
+    std::atomic<int> curLogLevel = LOG_ERR | LOG_WARNING | LOG_NOTICE | LOG_INFO | LOG_SUBSCRIBE | LOG_UNSUBSCRIBE ;
     std::mutex logMutex;
     std::mutex startStopMutex;
     std::queue<LogLine> lines;
     sem_t linesPending;
     std::thread writerThread;
-    bool running = true;
+    std::atomic<bool> running = true;
     std::fstream ofile;
-    bool alsoLogToStd = true;
-    bool reload = false;
+    std::atomic<bool> alsoLogToStd = true;
+    std::atomic<bool> reload = false;
 
     Logger();
     ~Logger();
     static std::string_view getLogLevelString(int level);
     void reOpen();
     void writeLog();
+    bool hasLines();
     static std::string getPrefix(int level);
 
 public:
-- 
2.43.0


From ce5a7b82a2752b7720eb7dd1b5c99d809ca2357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:56 +0000
Subject: [PATCH 52/74] fix: data races on statistics counters and thread state
 flags

---
 backgroundworker.h   | 5 +++--
 derivablecounter.cpp | 9 +++++----
 derivablecounter.h   | 3 ++-
 driftcounter.cpp     | 8 ++++++--
 driftcounter.h       | 8 ++++----
 threaddata.h         | 6 +++---
 6 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/backgroundworker.h b/backgroundworker.h
index 4be58da..575ece5 100644
--- a/backgroundworker.h
+++ b/backgroundworker.h
@@ -2,6 +2,7 @@
 #define BACKGROUNDWORKER_H
 
 
+#include <atomic>
 #include <thread>
 #include <functional>
 #include <list>
@@ -12,8 +13,8 @@
 class BackgroundWorker
 {
     std::thread t;
-    bool running = true;
-    bool executing_task = false;
+    std::atomic<bool> running = true;
+    std::atomic<bool> executing_task = false;
     int wakeup_fd = -1;
 
     MutexOwned<std::list<std::function<void()>>> tasks;
diff --git a/derivablecounter.cpp b/derivablecounter.cpp
index 2eebbd5..8e0106c 100644
--- a/derivablecounter.cpp
+++ b/derivablecounter.cpp
@@ -12,12 +12,12 @@ See LICENSE for license details.
 
 void DerivableCounter::inc(uint64_t n)
 {
-    val += n;
+    val.fetch_add(n, std::memory_order_relaxed);
 }
 
 uint64_t DerivableCounter::get() const
 {
-    return val;
+    return val.load(std::memory_order_relaxed);
 }
 
 /**
@@ -33,9 +33,10 @@ double DerivableCounter::getPerSecond()
 
     std::chrono::time_point<std::chrono::steady_clock> now = std::chrono::steady_clock::now();
     std::chrono::milliseconds msSinceLastTime = std::chrono::duration_cast<std::chrono::milliseconds>(now - timeOfPrevious);
-    uint64_t messagesTimes1000 = (val - valPrevious) * 1000;
+    const uint64_t valNow = get();
+    uint64_t messagesTimes1000 = (valNow - valPrevious) * 1000;
     double result = messagesTimes1000 / static_cast<double>(msSinceLastTime.count() + 1); // branchless avoidance of div by 0;
     timeOfPrevious = now;
-    valPrevious = val;
+    valPrevious = valNow;
     return result;
 }
diff --git a/derivablecounter.h b/derivablecounter.h
index 3bb5b85..f7b853a 100644
--- a/derivablecounter.h
+++ b/derivablecounter.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef DERIVABLECOUNTER_H
 #define DERIVABLECOUNTER_H
 
+#include <atomic>
 #include <chrono>
 #include <mutex>
 
@@ -21,7 +22,7 @@ See LICENSE for license details.
  */
 class DerivableCounter
 {
-    uint64_t val = 0;
+    std::atomic<uint64_t> val = 0;
     uint64_t valPrevious = 0;
     std::chrono::time_point<std::chrono::steady_clock> timeOfPrevious = std::chrono::steady_clock::now();
     std::mutex timeMutex;
diff --git a/driftcounter.cpp b/driftcounter.cpp
index 178885e..f2487d5 100644
--- a/driftcounter.cpp
+++ b/driftcounter.cpp
@@ -25,7 +25,10 @@ std::chrono::milliseconds DriftCounter::getDrift() const
 {
     auto now = std::chrono::steady_clock::now();
 
-    const auto last_update_copy = last_update.value_or(std::chrono::steady_clock::now());
+    auto last_update_copy = last_update.load();
+
+    if (last_update_copy == std::chrono::steady_clock::time_point())
+        last_update_copy = now;
 
     if (last_update_copy + (std::chrono::milliseconds(HEARTBEAT_INTERVAL) * 2 ) < now)
         return std::chrono::duration_cast<std::chrono::milliseconds>(now - last_update_copy);
@@ -40,7 +43,8 @@ std::chrono::milliseconds DriftCounter::getDrift() const
  */
 std::chrono::milliseconds DriftCounter::getAvgDrift() const
 {
-    const double total = std::accumulate(many_drifts.begin(), many_drifts.end(), std::chrono::milliseconds(0)).count();
+    const double total = std::accumulate(many_drifts.begin(), many_drifts.end(), std::chrono::milliseconds(0),
+                                         [](std::chrono::milliseconds sum, const std::atomic<std::chrono::milliseconds> &d) { return sum + d.load(); }).count();
     std::chrono::milliseconds avg = std::chrono::milliseconds(static_cast<int>(total / static_cast<double>(many_drifts.size())));
     return avg;
 }
diff --git a/driftcounter.h b/driftcounter.h
index 137557e..bb645f6 100644
--- a/driftcounter.h
+++ b/driftcounter.h
@@ -3,7 +3,7 @@
 
 #include <chrono>
 #include <array>
-#include <optional>
+#include <atomic>
 
 /**
  * @brief The DriftCounter class allows measuring drift in threads.
@@ -13,9 +13,9 @@
  */
 class DriftCounter
 {
-    std::optional<std::chrono::time_point<std::chrono::steady_clock>> last_update;
-    std::chrono::milliseconds last_drift = std::chrono::milliseconds(0);
-    std::array<std::chrono::milliseconds, 16> many_drifts{};
+    std::atomic<std::chrono::steady_clock::time_point> last_update = std::chrono::steady_clock::time_point(); // Epoch is never.
+    std::atomic<std::chrono::milliseconds> last_drift = std::chrono::milliseconds(0);
+    std::array<std::atomic<std::chrono::milliseconds>, 16> many_drifts{};
     unsigned int many_index = 0;
 
 public:
diff --git a/threaddata.h b/threaddata.h
index 0c4a089..41389bd 100644
--- a/threaddata.h
+++ b/threaddata.h
@@ -168,9 +168,9 @@ public:
     Settings settingsLocalCopy; // Is updated on reload, within the thread loop.
     Authentication authentication;
     bool deferThreadReady = false;
-    bool running = true;
-    bool finished = false;
-    bool allWillsQueued = false;
+    std::atomic<bool> running = true;
+    std::atomic<bool> finished = false;
+    std::atomic<bool> allWillsQueued = false;
     pthread_t thread_id = pthread_self(); // Gets set later, but this helps asserts dummy use in fuzzing and tests.
     int threadnr = 0;
     int taskEventFd = -1;
-- 
2.43.0


From 715ae2e5eae128cdf4298138efd051e2115f2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:06 +0000
Subject: [PATCH 53/74] fix: a locked mutex was destroyed

---
 mutexowned.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mutexowned.h b/mutexowned.h
index ce4a9ad..e0b50c1 100644
--- a/mutexowned.h
+++ b/mutexowned.h
@@ -113,7 +113,8 @@ public:
 
     ~MutexOwned()
     {
-        m.lock();
+        // Wait for whoever still has it, but don't destroy a locked mutex.
+        std::lock_guard<std::mutex> locker(m);
     }
 
     MutexOwned(const MutexOwned &) = delete;
-- 
2.43.0


From 28a498c6213896f2aeaa72e44b179c5b32931362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:59 +0000
Subject: [PATCH 54/74] fix: memory of a name lookup was reused or freed while
 the lookup was still being executed

---
 dnsresolver.cpp | 67 +++++++++++++++++++++++++------------------------
 dnsresolver.h   | 22 +++++++++++++---
 2 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/dnsresolver.cpp b/dnsresolver.cpp
index b6ae31a..6d78c9b 100644
--- a/dnsresolver.cpp
+++ b/dnsresolver.cpp
@@ -4,84 +4,85 @@
 #include <cstring>
 #include <signal.h>
 #include <stdexcept>
-#include <thread>
 #include "utils.h"
+#include "mutexowned.h"
 
 
-void DnsResolver::freeStuff()
+DnsResolver::Lookup::~Lookup()
 {
-    curName.clear();
-    lookup.ar_name = nullptr;
-    freeaddrinfo(lookup.ar_result);
-    lookup.ar_result = nullptr;
+    freeaddrinfo(cb.ar_result);
 }
 
-DnsResolver::DnsResolver()
+/**
+ * @brief Forgets the current lookup. If it's still being executed, it's kept aside until it's done, because it can't be aborted.
+ */
+void DnsResolver::freeStuff()
 {
-    request.ai_family = AF_UNSPEC;
-    request.ai_socktype = SOCK_STREAM;
-    request.ai_flags = AI_V4MAPPED | AI_ADDRCONFIG;
+    // Not destructed at exit, because lookups can still be active then.
+    static MutexOwned<std::list<std::unique_ptr<Lookup>>> &abandonedLookups = *::new MutexOwned<std::list<std::unique_ptr<Lookup>>>();
+
+    if (!lookup)
+        return;
 
-    lookup.ar_request = &request;
+    gai_cancel(&lookup->cb);
+
+    auto abandoned_locked = abandonedLookups.lock();
+    abandoned_locked->push_back(std::move(lookup));
+    abandoned_locked->remove_if([](const std::unique_ptr<Lookup> &l) { return gai_error(&l->cb) != EAI_INPROGRESS; });
 }
 
 DnsResolver::~DnsResolver()
 {
-    gai_cancel(&lookup);
-
-    int n = 0;
-    while (gai_error(&lookup) == EAI_INPROGRESS && n++ < 1000)
-    {
-        std::this_thread::sleep_for(std::chrono::milliseconds(1));
-    }
-
     freeStuff();
 }
 
 void DnsResolver::query(const std::string &text, ListenerProtocol protocol, std::chrono::milliseconds timeout)
 {
-    gai_cancel(&lookup);
     freeStuff();
 
-    curName = text;
     getResultsTimeout = std::chrono::steady_clock::now() + timeout;
 
-    lookup.ar_name = curName.c_str();
-    lookup.ar_service = nullptr;
-
-    request.ai_family = AF_UNSPEC;
+    lookup = std::make_unique<Lookup>();
+    lookup->name = text;
+    lookup->request.ai_socktype = SOCK_STREAM;
+    lookup->request.ai_flags = AI_V4MAPPED | AI_ADDRCONFIG;
+    lookup->request.ai_family = AF_UNSPEC;
     if (protocol == ListenerProtocol::IPv4)
-        request.ai_family = AF_INET;
+        lookup->request.ai_family = AF_INET;
     else if (protocol == ListenerProtocol::IPv6)
-        request.ai_family = AF_INET6;
+        lookup->request.ai_family = AF_INET6;
+
+    lookup->cb.ar_name = lookup->name.c_str();
+    lookup->cb.ar_request = &lookup->request;
 
     struct gaicb *lookups[1];
-    lookups[0] = &lookup;
+    lookups[0] = &lookup->cb;
 
     int err = 0;
     if ((err = getaddrinfo_a(GAI_NOWAIT, lookups, 1, nullptr)) != 0)
     {
         const std::string errorstr(gai_strerror(err));
+        lookup.reset();
         throw std::runtime_error(formatString("Dns lookup failure: %s", errorstr.c_str()));
     }
 }
 
 std::list<FMQSockaddr> DnsResolver::getResult()
 {
-    if (curName.empty() || lookup.ar_name == nullptr)
+    if (!lookup)
     {
         throw std::runtime_error("No DNS query in progress");
     }
 
     if (std::chrono::steady_clock::now() > getResultsTimeout)
     {
-        const std::string name = this->curName;
+        const std::string name = lookup->name;
         freeStuff();
         throw std::runtime_error(formatString("DNS query for '%s' timed out.", name.c_str()));
     }
 
     std::list<FMQSockaddr> results;
-    int err = gai_error(&lookup);
+    int err = gai_error(&lookup->cb);
 
     if (err == EAI_INPROGRESS)
         return results;
@@ -93,7 +94,7 @@ std::list<FMQSockaddr> DnsResolver::getResult()
         throw std::runtime_error(formatString("Dns lookup failure: %s", errorstr.c_str()));
     }
 
-    struct addrinfo *cur_result = lookup.ar_result;
+    struct addrinfo *cur_result = lookup->cb.ar_result;
 
     while (cur_result)
     {
@@ -114,7 +115,7 @@ std::list<FMQSockaddr> DnsResolver::getResult()
 
 bool DnsResolver::idle() const
 {
-    return (curName.empty() || lookup.ar_name == nullptr);
+    return !lookup;
 }
 
 
diff --git a/dnsresolver.h b/dnsresolver.h
index 4ef587e..fcba82c 100644
--- a/dnsresolver.h
+++ b/dnsresolver.h
@@ -6,6 +6,7 @@
 #include <string>
 #include <list>
 #include <chrono>
+#include <memory>
 
 #include "listener.h"
 #include "fmqsockaddr.h"
@@ -23,14 +24,27 @@
  */
 class DnsResolver
 {
-    struct gaicb lookup {};
-    struct addrinfo request {};
-    std::string curName;
+    /**
+     * All that the threads of getaddrinfo_a use. It can't be reused or destroyed before the lookup is finished.
+     */
+    struct Lookup
+    {
+        std::string name;
+        struct addrinfo request {};
+        struct gaicb cb {};
+
+        Lookup() = default;
+        Lookup(const Lookup &other) = delete;
+        Lookup &operator=(const Lookup &other) = delete;
+        ~Lookup();
+    };
+
+    std::unique_ptr<Lookup> lookup;
     std::chrono::time_point<std::chrono::steady_clock> getResultsTimeout;
 
     void freeStuff();
 public:
-    DnsResolver();
+    DnsResolver() = default;
     DnsResolver(const DnsResolver &other) = delete;
     DnsResolver(DnsResolver &&other) = delete;
     DnsResolver &operator=(const DnsResolver &other) = delete;
-- 
2.43.0


From c407cba00f9caf85c96d32d7165516ecaed06e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 55/74] fix: subscribing while saving the state, and counting
 sessions, were data races on the maps

---
 subscriptionstore.cpp | 28 +++++++++++++++++-----------
 subscriptionstore.h   |  2 +-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index e6120c7..22d6dcf 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1495,6 +1495,7 @@ size_t SubscriptionStore::getRetainedMessageCount() const
 
 uint64_t SubscriptionStore::getSessionCount() const
 {
+    std::shared_lock ses_locker(sessions_lock);
     return sessionsByIdConst.size();
 }
 
@@ -1557,21 +1558,26 @@ void SubscriptionStore::getSubscriptions(SubscriptionNode *this_node, const std:
     if (!this_node)
         return;
 
-    for (auto &pair : this_node->getSubscribers())
     {
-        const Subscription &node = pair.second;
-        std::shared_ptr<Session> ses = node.session.lock();
-        if (ses)
+        // The lock on the tree, that we have, only protects the nodes themselves.
+        std::shared_lock locker(this_node->lock);
+
+        for (auto &pair : this_node->getSubscribers())
         {
-            SubscriptionForSerializing sub(ses->getClientId(), node.qos, node.noLocal, node.retainAsPublished, node.subscriptionIdentifier);
-            outputList[composedTopic].push_back(sub);
+            const Subscription &node = pair.second;
+            std::shared_ptr<Session> ses = node.session.lock();
+            if (ses)
+            {
+                SubscriptionForSerializing sub(ses->getClientId(), node.qos, node.noLocal, node.retainAsPublished, node.subscriptionIdentifier);
+                outputList[composedTopic].push_back(sub);
+            }
         }
-    }
 
-    for (auto &pair : this_node->getSharedSubscribers())
-    {
-        const SharedSubscribers &node = pair.second;
-        node.getForSerializing(composedTopic, outputList);
+        for (auto &pair : this_node->getSharedSubscribers())
+        {
+            const SharedSubscribers &node = pair.second;
+            node.getForSerializing(composedTopic, outputList);
+        }
     }
 
     for (auto &pair : this_node->children)
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 74c3efe..f610c53 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -137,7 +137,7 @@ class SubscriptionStore
     const std::shared_ptr<SubscriptionNode> rootDollar = std::make_shared<SubscriptionNode>();
     std::atomic<size_t> subscriber_reserve = 1024;
     std::shared_mutex subscriptions_lock;
-    std::shared_mutex sessions_lock;
+    mutable std::shared_mutex sessions_lock;
     std::mutex registrationMutex;
     std::unordered_map<std::string, std::shared_ptr<Session>> sessionsById;
     const std::unordered_map<std::string, std::shared_ptr<Session>> &sessionsByIdConst;
-- 
2.43.0


From b7433dc1d0171d1368a1d5c3c0824d9aaa72ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:03 +0000
Subject: [PATCH 56/74] fix: data races on session expiry and disconnect state

---
 client.h    | 3 ++-
 session.cpp | 4 ++--
 session.h   | 8 ++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/client.h b/client.h
index 786abc1..f249288 100644
--- a/client.h
+++ b/client.h
@@ -14,6 +14,7 @@ See LICENSE for license details.
 #include <fcntl.h>
 #include <unistd.h>
 #include <vector>
+#include <atomic>
 #include <mutex>
 #include <iostream>
 #include <time.h>
@@ -119,7 +120,7 @@ class Client
     bool authenticated = false;
     bool connectPacketSeen = false;
     bool readyForReading = true;
-    DisconnectStage disconnectStage = DisconnectStage::NotInitiated;
+    std::atomic<DisconnectStage> disconnectStage = DisconnectStage::NotInitiated;
     bool outgoingConnection = false;
     bool outgoingConnectionEstablished = false;
     ClientType clientType = ClientType::Normal;
diff --git a/session.cpp b/session.cpp
index e1ade49..d5ec9e5 100644
--- a/session.cpp
+++ b/session.cpp
@@ -603,7 +603,7 @@ void Session::setQueuedRemovalAt()
  */
 std::chrono::seconds Session::getRemovalDueAt() const
 {
-    const auto due = this->removalQueuedAt + std::chrono::seconds(this->sessionExpiryInterval);
+    const auto due = this->removalQueuedAt.load() + std::chrono::seconds(this->sessionExpiryInterval);
     return std::chrono::duration_cast<std::chrono::seconds>(due.time_since_epoch());
 }
 
@@ -617,7 +617,7 @@ uint32_t Session::getCurrentSessionExpiryInterval()
     if (!this->removalQueued || hasActiveClient())
         return this->sessionExpiryInterval;
 
-    const std::chrono::seconds age = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - this->removalQueuedAt);
+    const std::chrono::seconds age = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - this->removalQueuedAt.load());
     const uint32_t ageInSeconds = age.count();
     const uint32_t result = ageInSeconds <= this->sessionExpiryInterval ? this->sessionExpiryInterval - age.count() : 0;
     return result;
diff --git a/session.h b/session.h
index ef37b50..76db6dd 100644
--- a/session.h
+++ b/session.h
@@ -111,12 +111,12 @@ class Session
 
     std::mutex clientSwitchMutex;
 
-    uint32_t sessionExpiryInterval = 0;
-    bool destroyOnDisconnect = false;
+    std::atomic<uint32_t> sessionExpiryInterval = 0;
+    std::atomic<bool> destroyOnDisconnect = false;
     LockedSharedPtr<WillPublish> willPublish;
-    bool removalQueued = false;
+    std::atomic<bool> removalQueued = false;
     ClientType clientType = ClientType::Normal;
-    std::chrono::time_point<std::chrono::steady_clock> removalQueuedAt;
+    std::atomic<std::chrono::time_point<std::chrono::steady_clock>> removalQueuedAt = std::chrono::time_point<std::chrono::steady_clock>();
     Logger *logger = Logger::getInstance();
 
     Session(const Session &other) = delete;
-- 
2.43.0


From af90ed49c748f0fcc240fd91c15abe19f6e7bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 57/74] fix: reading the number of retained message nodes was a
 data race

---
 subscriptionstore.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subscriptionstore.h b/subscriptionstore.h
index f610c53..1eee004 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -85,7 +85,7 @@ class RetainedMessageNode
     std::unique_ptr<RetainedMessage> message;
     std::chrono::time_point<std::chrono::steady_clock> messageSetAt;
     std::chrono::time_point<std::chrono::steady_clock> lastPublishAt;
-    ssize_t recursiveChildCount {};
+    std::atomic<ssize_t> recursiveChildCount {};
 
     ssize_t addPayload(const Publish &publish, const std::chrono::time_point<std::chrono::steady_clock> publishedAt);
     std::shared_ptr<RetainedMessageNode> getChildren(const std::string &subtopic) const;
-- 
2.43.0


From 487be988851633e3529e0e9a8c0f86804b93f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:49 +0000
Subject: [PATCH 58/74] fix: public data of a stopping thread was replaced
 while other threads could be using it

---
 threaddata.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 12aaf85..d074d27 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -879,7 +879,20 @@ void ThreadData::acceptPendingBridges()
 
 void ThreadData::clear()
 {
-    pub.emplace();
+    // Other threads can still be using the public data, so it's emptied instead of being replaced.
+    std::list<std::function<void()>> tasks;
+
+    {
+        auto task_queue_locked = pub->taskQueue.lock();
+        tasks.swap(*task_queue_locked);
+    }
+
+    tasks.clear();
+    pub->delayedTasks.clear();
+    pub->externalFds.clear();
+    pub->disconnectingClients.clear();
+    pub->acceptQueue.takeClients();
+    pub->acceptQueue.takeBridges();
     priv.emplace();
 }
 
-- 
2.43.0


From 41a1cc14e1af1f427b5e91405f6bbd19a2c52893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 59/74] fix: signals handled by other threads made data races
 on the main loop's flags

---
 mainapp.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mainapp.h b/mainapp.h
index fa711f1..49e91f7 100644
--- a/mainapp.h
+++ b/mainapp.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef MAINAPP_H
 #define MAINAPP_H
 
+#include <atomic>
 #include <iostream>
 #include <sys/socket.h>
 #include <stdexcept>
@@ -43,18 +44,18 @@ class MainApp
     std::weak_ptr<MainApp> mSelf;
     int num_threads = 0;
 
-    bool started = false;
-    bool running = true;
+    std::atomic<bool> started = false;
+    std::atomic<bool> running = true;
     std::vector<ThreadDataOwner> threads;
     std::shared_ptr<SubscriptionStore> subscriptionStore;
     std::unique_ptr<ConfigFileParser> confFileParser;
     int epollFdAccept = -1;
     int taskEventFd = -1;
-    bool doConfigReload = false;
-    bool doLogFileReOpen = false;
-    bool doQuitAction = false;
+    std::atomic<bool> doConfigReload = false;
+    std::atomic<bool> doLogFileReOpen = false;
+    std::atomic<bool> doQuitAction = false;
     bool errorExit = false;
-    bool doMemoryTrim = false;
+    std::atomic<bool> doMemoryTrim = false;
     size_t threadsPendingInit = 0;
     QueuedTasks timed_tasks;
     MutexOwned<std::vector<std::function<void()>>> taskQueue;
-- 
2.43.0


From 98b1886fe3983ad85ca1a6bd45cf7db7e090fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 60/74] fix: data race on the prefixes of bridge sessions

---
 session.cpp | 25 +++++++++++++++++++++----
 session.h   |  6 ++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/session.cpp b/session.cpp
index d5ec9e5..0e0703b 100644
--- a/session.cpp
+++ b/session.cpp
@@ -250,6 +250,9 @@ PacketDropReason Session::writePacket(PublishCopyFactory &copyFactory, const uin
     std::optional<std::string> topic_override;
 
     {
+        const std::optional<std::string> &local_prefix = getLocalPrefix();
+        const std::optional<std::string> &remote_prefix = getRemotePrefix();
+
         // The size check is to prevent making "local/haha/" into "" when the local_prefix is "local/haha/"
         if (local_prefix && startsWith(copyFactory.getTopic(), *local_prefix) && copyFactory.getTopic().size() > local_prefix->size())
         {
@@ -623,21 +626,35 @@ uint32_t Session::getCurrentSessionExpiryInterval()
     return result;
 }
 
+const std::optional<std::string> &Session::getLocalPrefix() const
+{
+    static const std::optional<std::string> none;
+    return this->local_prefix_set ? this->local_prefix : none;
+}
+
+const std::optional<std::string> &Session::getRemotePrefix() const
+{
+    static const std::optional<std::string> none;
+    return this->remote_prefix_set ? this->remote_prefix : none;
+}
+
 void Session::setLocalPrefix(const std::optional<std::string> &s)
 {
-    // A work-around for prefixes of session being accessed cross-thread. The std::optional sets the 'engaged' flag last, so this works.
-    if (this->local_prefix)
+    // A work-around for prefixes of session being accessed cross-thread: they are set only once.
+    if (this->local_prefix_set || !s)
         return;
 
     this->local_prefix = s;
+    this->local_prefix_set = true;
 }
 
 void Session::setRemotePrefix(const std::optional<std::string> &s)
 {
-    // A work-around for prefixes of session being accessed cross-thread. The std::optional sets the 'engaged' flag last, so this works.
-    if (this->remote_prefix)
+    // A work-around for prefixes of session being accessed cross-thread: they are set only once.
+    if (this->remote_prefix_set || !s)
         return;
 
     this->remote_prefix = s;
+    this->remote_prefix_set = true;
 }
 
diff --git a/session.h b/session.h
index 76db6dd..d77911f 100644
--- a/session.h
+++ b/session.h
@@ -108,6 +108,8 @@ class Session
     // Note, we set these write-once to avoid threading issues. As a work-around to avoid mutexing in a hot path.
     std::optional<std::string> local_prefix;
     std::optional<std::string> remote_prefix;
+    std::atomic<bool> local_prefix_set {false};
+    std::atomic<bool> remote_prefix_set {false};
 
     std::mutex clientSwitchMutex;
 
@@ -163,8 +165,8 @@ public:
 
     void setLocalPrefix(const std::optional<std::string> &s);
     void setRemotePrefix(const std::optional<std::string> &s);
-    const std::optional<std::string> &getLocalPrefix() const { return local_prefix; }
-    const std::optional<std::string> &getRemotePrefix() const { return remote_prefix; }
+    const std::optional<std::string> &getLocalPrefix() const;
+    const std::optional<std::string> &getRemotePrefix() const;
 };
 
 #endif // SESSION_H
-- 
2.43.0


From a603d3bb69d780ac6beb1ef591b0e3c62738e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 61/74] fix: data race on the queued time of wills

---
 types.cpp | 24 ++++++++++++------------
 types.h   |  6 ++++--
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/types.cpp b/types.cpp
index b2ef935..2755ec9 100644
--- a/types.cpp
+++ b/types.cpp
@@ -326,16 +326,10 @@ WillPublish::WillPublish(const Publish &other) :
 
 void WillPublish::setQueuedAt()
 {
-    this->isQueued = true;
-    this->queuedAt = std::chrono::steady_clock::now();
+    std::atomic_ref(this->queuedAt).store(std::chrono::steady_clock::now());
+    std::atomic_ref(this->isQueued).store(true);
 }
 
-/**
- * @brief WillPublish::markSent marks the will as sent. Thread-safe.
- * @return whether the caller is the first, and must therefore send it.
- *
- * The end of a connection, the end of its session and the passing of the will delay can happen at the same time, in different threads.
- */
 /**
  * @brief The message expiry interval of a will starts when the will is published, not when the client connects.
  */
@@ -349,9 +343,15 @@ Publish WillPublish::withLifetimeStartingNow() const
     return result;
 }
 
+/**
+ * @brief WillPublish::markSent marks the will as sent. Thread-safe.
+ * @return whether the caller is the first, and must therefore send it.
+ *
+ * The end of a connection, the end of its session and the passing of the will delay can happen at the same time, in different threads.
+ */
 bool WillPublish::markSent()
 {
-    return !std::atomic_ref<bool>(this->sent).exchange(true);
+    return !std::atomic_ref(this->sent).exchange(true);
 }
 
 /**
@@ -359,7 +359,7 @@ bool WillPublish::markSent()
  */
 bool WillPublish::isPending() const
 {
-    return this->will_delay > 0 || this->isQueued;
+    return this->will_delay > 0 || std::atomic_ref(this->isQueued).load();
 }
 
 /**
@@ -371,10 +371,10 @@ bool WillPublish::isPending() const
  */
 uint32_t WillPublish::getQueuedAtAge() const
 {
-    if (!isQueued)
+    if (!std::atomic_ref(isQueued).load())
         return 0;
 
-    const std::chrono::seconds age = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - this->queuedAt);
+    const std::chrono::seconds age = std::chrono::duration_cast<std::chrono::seconds>(std::chrono::steady_clock::now() - std::atomic_ref(this->queuedAt).load());
     return age.count();
 }
 
diff --git a/types.h b/types.h
index 6c37f63..5f85ac1 100644
--- a/types.h
+++ b/types.h
@@ -11,6 +11,7 @@ See LICENSE for license details.
 #ifndef TYPES_H
 #define TYPES_H
 
+#include <atomic>
 #include <stdint.h>
 #include <list>
 #include <string>
@@ -285,9 +286,10 @@ public:
 
 class WillPublish : public Publish
 {
-    bool isQueued = false;
+    // Accessed with std::atomic_ref.
+    mutable bool isQueued = false;
     bool sent = false;
-    std::chrono::time_point<std::chrono::steady_clock> queuedAt;
+    mutable std::chrono::time_point<std::chrono::steady_clock> queuedAt;
 public:
     uint32_t will_delay = 0;
     WillPublish() = default;
-- 
2.43.0


From 937f589185638c0616cdad5bfd0856d97bd36bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:32 +0000
Subject: [PATCH 62/74] fix: the first keep-alive check of a client came only
 30 seconds after connecting, whatever its keep-alive

---
 subscriptionstore.cpp | 2 --
 threaddata.cpp        | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index 22d6dcf..aaad1d0 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -328,8 +328,6 @@ void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client>
 // Removes an existing client when it already exists [MQTT-3.1.4-2].
 void SubscriptionStore::registerClientAndKickExistingOne(std::shared_ptr<Client> &client, bool clean_start, uint16_t clientReceiveMax, uint32_t sessionExpiryInterval)
 {
-    ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(client, true);
-
     // These destructors need to be called outside the sessions lock, so placing here.
     std::shared_ptr<Session> session;
     std::shared_ptr<Session> replacedSession;
diff --git a/threaddata.cpp b/threaddata.cpp
index d074d27..1eac397 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -226,6 +226,7 @@ void ThreadData::continuationOfAuthentication(std::shared_ptr<Client> &client, A
             subscriptionStore->registerClientAndKickExistingOne(client);
             client->sendConnackSuccess();
             client->setAuthenticated(true);
+            queueClientNextKeepAliveCheck(client, true); // Needs to know the client is authenticated.
             client->getSession()->sendAllPendingQosData(client);
             client->handleAfterAsyncQueue(client);
         }
-- 
2.43.0


From 9fc6634893ec1e282190d775e746bbc3f4afd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:22 +0000
Subject: [PATCH 63/74] fix: clients with an odd keep-alive could be
 disconnected half a second too early

---
 client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.cpp b/client.cpp
index 699baa6..30d4444 100644
--- a/client.cpp
+++ b/client.cpp
@@ -661,7 +661,7 @@ bool Client::keepAliveExpired()
 
     const std::chrono::time_point<std::chrono::steady_clock> now = std::chrono::steady_clock::now();
 
-    std::chrono::seconds x(keepalive + keepalive/2);
+    std::chrono::milliseconds x(keepalive * 1500);
     bool result = (lastActivity + x) < now;
     return result;
 }
-- 
2.43.0


From dbae1e31be5ba2ce866b4e8d5b23c26bb9418ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:51 +0000
Subject: [PATCH 64/74] fix: connections that sent something but never got
 authenticated could stay forever

---
 client.cpp     |  8 ++++++--
 client.h       |  2 ++
 threaddata.cpp | 12 +++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/client.cpp b/client.cpp
index 30d4444..84eccc0 100644
--- a/client.cpp
+++ b/client.cpp
@@ -656,11 +656,15 @@ std::string Client::repr_endpoint()
  */
 bool Client::keepAliveExpired()
 {
+    const std::chrono::time_point<std::chrono::steady_clock> now = std::chrono::steady_clock::now();
+
+    // The keep-alive a client asks for, and sending bytes all the time, are no reasons to stay when the client doesn't get authenticated.
+    if (!authenticated && !isOutgoingConnection() && createdAt + MAX_TIME_TO_AUTHENTICATE < now)
+        return true;
+
     if (keepalive == 0)
         return false;
 
-    const std::chrono::time_point<std::chrono::steady_clock> now = std::chrono::steady_clock::now();
-
     std::chrono::milliseconds x(keepalive * 1500);
     bool result = (lastActivity + x) < now;
     return result;
diff --git a/client.h b/client.h
index f249288..7a17e89 100644
--- a/client.h
+++ b/client.h
@@ -39,6 +39,7 @@ See LICENSE for license details.
 #include "publishcopyfactory.h"
 
 #define MQTT_HEADER_LENGH 2
+#define MAX_TIME_TO_AUTHENTICATE std::chrono::seconds(120)
 
 /**
  * @brief The StowedClient struct stores the client when doing an extended authentication, and we need to keep the info around how
@@ -128,6 +129,7 @@ class Client
     std::string disconnectReason;
     int disconnectReasonLogLevel = LOG_NOTICE;
     std::chrono::time_point<std::chrono::steady_clock> lastActivity = std::chrono::steady_clock::now();
+    const std::chrono::time_point<std::chrono::steady_clock> createdAt = std::chrono::steady_clock::now();
 
     std::string ssl_version;
     std::string clientid;
diff --git a/threaddata.cpp b/threaddata.cpp
index 1eac397..6f5a597 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -836,7 +836,7 @@ void ThreadData::acceptPendingClients()
 
         const int fd = client->getFd();
 
-        // A non-repeating keep-alive check is for when clients do a TCP connect and then nothing else.
+        // A keep-alive check that only repeats until authentication is for when clients do a TCP connect and then nothing else.
         queueClientNextKeepAliveCheck(client, false);
 
         client->addToEpoll(EPOLLIN);
@@ -1275,6 +1275,7 @@ void ThreadData::doKeepAliveCheck()
         std::vector<std::shared_ptr<Client>> clientsToRemove;
 
         std::vector<std::shared_ptr<Client>> clientsToRecheck;
+        std::vector<std::shared_ptr<Client>> unauthenticatedClientsToRecheck;
 
         int slotsTotal = 0;
         int slotsProcessed = 0;
@@ -1317,6 +1318,10 @@ void ThreadData::doKeepAliveCheck()
                         {
                             clientsToRecheck.push_back(client);
                         }
+                        else if (!client->getAuthenticated())
+                        {
+                            unauthenticatedClientsToRecheck.push_back(client);
+                        }
                     }
                 }
 
@@ -1328,6 +1333,11 @@ void ThreadData::doKeepAliveCheck()
                 c->resetBuffersIfEligible();
                 queueClientNextKeepAliveCheck(c, true);
             }
+
+            for (std::shared_ptr<Client> &c : unauthenticatedClientsToRecheck)
+            {
+                queueClientNextKeepAliveCheck(c, false);
+            }
         }
 
         logger->logf(LOG_DEBUG, "Checked %d clients in %d of %d keep-alive slots in thread %d", clientsChecked, slotsProcessed, slotsTotal, threadnr);
-- 
2.43.0


From 85a35207ef1faa4c5d7ed26a44156db0c1563d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:35 +0000
Subject: [PATCH 65/74] fix: bridges didn't ping within their keep-alive, and
 not at all in time when the server asked for a shorter one

---
 client.cpp     | 3 ++-
 mqttpacket.cpp | 1 +
 threaddata.cpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/client.cpp b/client.cpp
index 84eccc0..ba51e33 100644
--- a/client.cpp
+++ b/client.cpp
@@ -1185,8 +1185,9 @@ void Client::setDisconnectReasonFromSocketError()
  */
 std::chrono::seconds Client::getSecondsTillKeepAliveAction() const
 {
+    // The check is only every 5 seconds, and the time between the pings mustn't be longer than the keep-alive.
     if (isOutgoingConnection())
-        return std::chrono::seconds(this->keepalive);
+        return std::chrono::seconds(std::max<int>(this->keepalive - 5, 1));
 
     if (!this->authenticated)
         return std::chrono::seconds(30);
diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index ad34341..0610124 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -1432,6 +1432,7 @@ void MqttPacket::handleConnAck(std::shared_ptr<Client> &sender)
     const bool realRetainedAvailable = data.retained_available && bridgeState->c.remoteRetainAvailable;
 
     sender->setClientProperties(true, keepalive, data.max_outgoing_packet_size, effectiveMaxOutgoingTopicAliases, realRetainedAvailable);
+    ThreadGlobals::getThreadData()->queueClientNextKeepAliveCheck(sender, true); // The server may have overridden the keep-alive.
     session->setSessionProperties(data.client_receive_max, bridgeState->c.localSessionExpiryInterval, bridgeState->c.localCleanStart, bridgeState->c.protocolVersion);
 
     {
diff --git a/threaddata.cpp b/threaddata.cpp
index 6f5a597..59c8ea8 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -359,7 +359,7 @@ void ThreadData::bridgeReconnect()
 
             priv->clients.by_fd[sockfd] = c;
 
-            queueClientNextKeepAliveCheck(c, true);
+            queueClientNextKeepAliveCheck(c, false);
 
             if (session)
             {
-- 
2.43.0


From f6d078ec1255cd12450dc298b9d0f961d606b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:11 +0000
Subject: [PATCH 66/74] fix: the count of retained messages went wrong by
 expiry of retained messages

It was replaced with what the expiry run counted, so that messages under
deferred nodes were counted twice, those starting with a dollar sign not
at all, and those set or removed between runs went lost.
---
 subscriptionstore.cpp | 20 ++++++--------------
 subscriptionstore.h   |  5 ++---
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/subscriptionstore.cpp b/subscriptionstore.cpp
index aaad1d0..b7c993c 100644
--- a/subscriptionstore.cpp
+++ b/subscriptionstore.cpp
@@ -1445,7 +1445,7 @@ bool SubscriptionStore::expireRetainedMessages()
             if (node)
             {
                 counter++;
-                this->expireRetainedMessages(node.get(), limit, deferredRetainedMessageNodeToPurge, retainedMessageDeferredCounter);
+                this->expireRetainedMessages(node.get(), limit, deferredRetainedMessageNodeToPurge);
             }
         }
 
@@ -1457,19 +1457,13 @@ bool SubscriptionStore::expireRetainedMessages()
 
         RWLockGuard lock_guard(&retainedMessagesRwlock);
         lock_guard.wrlock();
-        retainedMessageDeferredCounter = 0;
         retainedMessagesNodesLimitsLogged.clear();
-        this->expireRetainedMessages(retainedMessagesRoot.get(), limit, deferredRetainedMessageNodeToPurge, retainedMessageDeferredCounter);
+        this->expireRetainedMessages(retainedMessagesRoot.get(), limit, deferredRetainedMessageNodeToPurge);
 
         logger->log(LOG_INFO) << "Expiring retained messages done, with " << deferredRetainedMessageNodeToPurge.size() << " deferred nodes to check.";
     }
 
-    const bool done = !hasDeferredRetainedMessageNodesForPurging();
-
-    if (done)
-        retainedMessageCount = retainedMessageDeferredCounter;
-
-    return done;
+    return !hasDeferredRetainedMessageNodesForPurging();
 }
 
 /**
@@ -1657,7 +1651,7 @@ std::unordered_map<std::string, std::list<SubscriptionForSerializing>> Subscript
 
 void SubscriptionStore::expireRetainedMessages(
     RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
-    std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter)
+    std::deque<std::weak_ptr<RetainedMessageNode>> &deferred)
 {
     {
         // Messages are set outside of the lock on the tree.
@@ -1666,10 +1660,8 @@ void SubscriptionStore::expireRetainedMessages(
         if (this_node->message && this_node->message->hasExpired())
         {
             this_node->message.reset();
+            this->retainedMessageCount.fetch_sub(1);
         }
-
-        if (this_node->message)
-            real_message_counter++;
     }
 
     for (auto _ = this_node->children.begin(); _ != this_node->children.end(); )
@@ -1679,7 +1671,7 @@ void SubscriptionStore::expireRetainedMessages(
         const std::shared_ptr<RetainedMessageNode> &child = cur->second;
 
         if (std::chrono::steady_clock::now() <= limit)
-            expireRetainedMessages(child.get(), limit, deferred, real_message_counter);
+            expireRetainedMessages(child.get(), limit, deferred);
 
         // See setRetainedMessage(..). It does two stage (re) locking, so we need to check this.
         if (child.use_count() > 1)
diff --git a/subscriptionstore.h b/subscriptionstore.h
index 1eee004..20960d3 100644
--- a/subscriptionstore.h
+++ b/subscriptionstore.h
@@ -147,7 +147,6 @@ class SubscriptionStore
 
     pthread_rwlock_t retainedMessagesRwlock = PTHREAD_RWLOCK_INITIALIZER;
     std::deque<std::weak_ptr<RetainedMessageNode>> deferredRetainedMessageNodeToPurge;
-    size_t retainedMessageDeferredCounter = 0;
 
     std::unordered_set<const RetainedMessageNode*> retainedMessagesNodesLimitsLogged;
     const std::shared_ptr<RetainedMessageNode> retainedMessagesRoot = std::make_shared<RetainedMessageNode>(nullptr);
@@ -197,9 +196,9 @@ class SubscriptionStore
                           std::unordered_map<std::string, std::list<SubscriptionForSerializing>> &outputList,
                           std::deque<DeferredGetSubscription> &deferred, const std::chrono::time_point<std::chrono::steady_clock> limit) const;
     std::unordered_map<std::string, std::list<SubscriptionForSerializing>> getSubscriptions();
-    static void expireRetainedMessages(
+    void expireRetainedMessages(
         RetainedMessageNode *this_node, const std::chrono::time_point<std::chrono::steady_clock> &limit,
-        std::deque<std::weak_ptr<RetainedMessageNode>> &deferred, size_t &real_message_counter);
+        std::deque<std::weak_ptr<RetainedMessageNode>> &deferred);
 
     std::shared_ptr<SubscriptionNode> getDeepestNode(
         const std::vector<std::string> &subtopics, std::shared_lock<std::shared_mutex> &rlock, std::unique_lock<std::shared_mutex> &wlock,
-- 
2.43.0


From 8c08a785916abd0fdf4e2b0e5470890766553dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:05 +0000
Subject: [PATCH 67/74] fix: retained messages waiting for the store to be free
 were lost on exit

---
 threaddata.cpp |  7 +++++--
 threaddata.h   |  2 +-
 threadloop.cpp | 10 ++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/threaddata.cpp b/threaddata.cpp
index 59c8ea8..5af2cb5 100644
--- a/threaddata.cpp
+++ b/threaddata.cpp
@@ -897,7 +897,10 @@ void ThreadData::clear()
     priv.emplace();
 }
 
-void ThreadData::setQueuedRetainedMessages()
+/**
+ * @param wait_for_lock when true, wait for the lock on the retained messages, so that nothing remains queued.
+ */
+void ThreadData::setQueuedRetainedMessages(bool wait_for_lock)
 {
     if (priv->queuedRetainedMessages.empty())
         return;
@@ -913,7 +916,7 @@ void ThreadData::setQueuedRetainedMessages()
         auto cur = _pos;
         _pos++;
 
-        const bool try_lock_fail = cur->limit > std::chrono::steady_clock::now();
+        const bool try_lock_fail = !wait_for_lock && cur->limit > std::chrono::steady_clock::now();
 
         if (!try_lock_fail)
         {
diff --git a/threaddata.h b/threaddata.h
index 41389bd..389011c 100644
--- a/threaddata.h
+++ b/threaddata.h
@@ -232,7 +232,7 @@ public:
     void queueBridgeReconnect();
     void publishBridgeState(std::shared_ptr<BridgeState> bridge, bool connected, const std::optional<std::string> &error);
     void queueSettingRetainedMessage(const Publish &p, const std::vector<std::string> &subtopics, const std::chrono::time_point<std::chrono::steady_clock> limit);
-    void setQueuedRetainedMessages();
+    void setQueuedRetainedMessages(bool wait_for_lock=false);
     bool queuedRetainedMessagesEmpty() const;
     void clearQueuedRetainedMessages();
     void acceptPendingClients();
diff --git a/threadloop.cpp b/threadloop.cpp
index d8fbbf6..dcd794d 100644
--- a/threadloop.cpp
+++ b/threadloop.cpp
@@ -308,6 +308,16 @@ void do_thread_work(std::shared_ptr<ThreadData> &&threadData)
         }
     }
 
+    try
+    {
+        // They've been acknowledged, so they must make it to the saved state.
+        threadData->setQueuedRetainedMessages(true);
+    }
+    catch(std::exception &ex)
+    {
+        logger->log(LOG_ERR) << "Error in setting queued retained messages on exit: " << ex.what();
+    }
+
     try
     {
         logger->logf(LOG_NOTICE, "Thread %d doing auth cleanup.", threadData->threadnr);
-- 
2.43.0


From b4c92e58b828491b28542ea46536a910c0000bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 68/74] fix: messages queued for a session were checked as if
 their publisher published them again, and lost when the plugin answers with
 'success_without_setting_retained'

---
 session.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/session.cpp b/session.cpp
index 0e0703b..68ab756 100644
--- a/session.cpp
+++ b/session.cpp
@@ -405,7 +405,17 @@ void Session::sendAllPendingQosData(const std::shared_ptr<Client> &client)
 
         Publish &pub = qp->getPublish();
 
-        if (pub.hasExpired() || (authentication.aclCheck(pub, pub.payload) != AuthResult::success))
+        bool allowed = !pub.hasExpired();
+
+        if (allowed)
+        {
+            // It's this client reading, not the original publisher writing again.
+            allowed = authentication.aclCheck(
+                client_id, username, pub.topic, pub.getSubtopics(), "", pub.payload, AclAccess::read, pub.qos, pub.retain, pub.correlationData,
+                pub.responseTopic, pub.contentType, pub.expiresAt(), pub.getUserProperties()) == AuthResult::success;
+        }
+
+        if (!allowed)
         {
             qos_locked->eraseQueuedPublish(qp->getPacketId());
             qos_locked->releasePacketId(qp->getPacketId());
-- 
2.43.0


From 99c4e1aeb968bd58997c316450f4793663dea27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:24 +0000
Subject: [PATCH 69/74] fix: plugins couldn't remove the session of a client
 that is not connected

---
 flashmq_plugin.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/flashmq_plugin.cpp b/flashmq_plugin.cpp
index 9723914..512b420 100644
--- a/flashmq_plugin.cpp
+++ b/flashmq_plugin.cpp
@@ -73,13 +73,19 @@ void flashmq_plugin_remove_client_v4(const std::weak_ptr<Session> &session, bool
     std::shared_ptr<Session> session_locked = session.lock();
     if (!session_locked) return;
     std::shared_ptr<Client> client = session_locked->makeSharedClient();
-    if (!client) return;
-    std::shared_ptr<ThreadData> td = client->lockThreadData();
-    if (!td) return;
 
-    ReasonCodes _code = static_cast<ReasonCodes>(reasonCode);
-    td->serverInitiatedDisconnect(client, _code, "Removed from plugin");
+    if (client)
+    {
+        std::shared_ptr<ThreadData> td = client->lockThreadData();
+
+        if (td)
+        {
+            ReasonCodes _code = static_cast<ReasonCodes>(reasonCode);
+            td->serverInitiatedDisconnect(client, _code, "Removed from plugin");
+        }
+    }
 
+    // Also when there is no client: the session of a client that's not connected needs removing just as well.
     if (alsoSession)
         store->removeSession(session_locked);
 }
-- 
2.43.0


From b999750201836ba9548f3d9c41d3d51df20b3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:21 +0000
Subject: [PATCH 70/74] fix: a config file including itself crashed the broker

---
 configfileparser.cpp | 8 ++++++--
 configfileparser.h   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index e7386d5..a9d8600 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -15,6 +15,7 @@ See LICENSE for license details.
 #include <sstream>
 #include <fstream>
 #include <regex>
+#include <filesystem>
 #include <sys/stat.h>
 #include <optional>
 #include <sys/sysinfo.h>
@@ -306,7 +307,7 @@ ConfigFileParser::ConfigFileParser(const std::string &path) :
     validBridgeKeys.insert("max_buffer_size");
 }
 
-std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path) const
+std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &path, std::set<std::string> parents) const
 {
     std::list<std::string> lines;
 
@@ -315,6 +316,9 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
 
     checkFileExistsAndReadable("application config file", path, 1024*1024*10);
 
+    if (!parents.insert(std::filesystem::canonical(path).string()).second)
+        throw ConfigFileException(formatString("Config file '%s' includes itself", path.c_str()));
+
     std::ifstream infile(path, std::ios::in);
 
     if (!infile.is_open())
@@ -353,7 +357,7 @@ std::list<std::string> ConfigFileParser::readFileRecursively(const std::string &
 
                     for(const std::string &path_from_glob : files)
                     {
-                        std::list<std::string> newLines = readFileRecursively(path_from_glob);
+                        std::list<std::string> newLines = readFileRecursively(path_from_glob, parents);
                         lines.insert(lines.cend(), newLines.begin(), newLines.end());
                     }
                 }
diff --git a/configfileparser.h b/configfileparser.h
index f1cf82a..6240f57 100644
--- a/configfileparser.h
+++ b/configfileparser.h
@@ -118,7 +118,7 @@ public:
 
     ConfigFileParser(const std::string &path);
     void loadFile(bool test);
-    std::list<std::string> readFileRecursively(const std::string &path) const;
+    std::list<std::string> readFileRecursively(const std::string &path, std::set<std::string> parents = {}) const;
 
     const Settings &getSettings();
 };
-- 
2.43.0


From 953dbf32b6a0142801d159910729aa1004c898ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:21 +0000
Subject: [PATCH 71/74] fix: QoS 2 message resent on a new connection could be
 published twice, when the old connection still handled it

---
 mqttpacket.cpp | 13 ++++++++-----
 session.cpp    | 21 ++++++++++++---------
 session.h      | 10 ++++++++--
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/mqttpacket.cpp b/mqttpacket.cpp
index 0610124..6d8a8a6 100644
--- a/mqttpacket.cpp
+++ b/mqttpacket.cpp
@@ -2270,6 +2270,8 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
     // Stage the ack, with the proper ID.
     AckSender ackSender(this->publishData.qos, this->packet_id, this->protocolVersion);
 
+    IncomingQoS2Result incomingQoS2 = IncomingQoS2Result::New;
+
     if (publishData.retain && settings->retainedMessagesMode == RetainedMessagesMode::DisconnectWithError)
     {
         throw ProtocolError("Retained messages not supported and 'retained_messages_mode' set to 'disconnect_with_error'.", ReasonCodes::RetainNotSupported);
@@ -2286,16 +2288,17 @@ void MqttPacket::handlePublish(std::shared_ptr<Client> &sender)
             ackSender.sendNow(sender.get());
         }
     }
-    else if (publishData.qos == 2 && sender->getSession()->incomingQoS2MessageIdInTransit(_packet_id))
+    // Doing this before the authentication on purpose, so when the publish is not allowed, the QoS control packets are allowed and can finish.
+    else if (publishData.qos == 2 &&
+             (incomingQoS2 = sender->getSession()->startIncomingQoS2Message(_packet_id, sender)) != IncomingQoS2Result::New)
     {
+        if (incomingQoS2 == IncomingQoS2Result::NotCurrentClient)
+            throw ProtocolError("Session was taken over by another connection", ReasonCodes::SessionTakenOver);
+
         ackSender.setAckCode(ReasonCodes::Success);
     }
     else
     {
-        // Doing this before the authentication on purpose, so when the publish is not allowed, the QoS control packets are allowed and can finish.
-        if (publishData.qos == 2)
-            sender->getSession()->addIncomingQoS2MessageId(_packet_id);
-
         const uint8_t qos_org = this->publishData.qos;
         const bool retain_org = this->publishData.retain;
         const bool altered = authentication.alterPublish(
diff --git a/session.cpp b/session.cpp
index 68ab756..0702977 100644
--- a/session.cpp
+++ b/session.cpp
@@ -482,21 +482,24 @@ void Session::setClientType(ClientType val)
     this->clientType = val;
 }
 
-void Session::addIncomingQoS2MessageId(uint16_t packet_id)
+/**
+ * @brief Register the packet ID of an incoming QoS 2 message, if it's new.
+ *
+ * When a session is taken over, the old connection can still be handling its last packets in another thread. The check for whether the
+ * packet is already in transit, and whether the sender still is the session's client, has to happen together with adding it. Otherwise, a
+ * client resending the packet after reconnecting can have its message published twice.
+ */
+IncomingQoS2Result Session::startIncomingQoS2Message(uint16_t packet_id, const std::shared_ptr<Client> &sender)
 {
     assert(packet_id > 0);
 
     MutexLocked<QoSData> qos_locked = qos.lock();
-    qos_locked->incomingQoS2MessageIds.insert(packet_id);
-}
 
-bool Session::incomingQoS2MessageIdInTransit(uint16_t packet_id)
-{
-    assert(packet_id > 0);
+    if (this->client.lock() != sender)
+        return IncomingQoS2Result::NotCurrentClient;
 
-    MutexLocked<QoSData> qos_locked = qos.lock();
-    const auto it = qos_locked->incomingQoS2MessageIds.find(packet_id);
-    return it != qos_locked->incomingQoS2MessageIds.end();
+    const auto pair = qos_locked->incomingQoS2MessageIds.insert(packet_id);
+    return pair.second ? IncomingQoS2Result::New : IncomingQoS2Result::InTransit;
 }
 
 bool Session::removeIncomingQoS2MessageId(u_int16_t packet_id)
diff --git a/session.h b/session.h
index d77911f..48e9865 100644
--- a/session.h
+++ b/session.h
@@ -28,6 +28,13 @@ See LICENSE for license details.
 #include "mutexowned.h"
 #include "usedids.h"
 
+enum class IncomingQoS2Result
+{
+    New,
+    InTransit,
+    NotCurrentClient
+};
+
 class Session
 {
 #ifdef TESTING
@@ -145,8 +152,7 @@ public:
     ClientType getClientType() const { return clientType; }
     void setClientType(ClientType val);
 
-    void addIncomingQoS2MessageId(uint16_t packet_id);
-    bool incomingQoS2MessageIdInTransit(uint16_t packet_id);
+    IncomingQoS2Result startIncomingQoS2Message(uint16_t packet_id, const std::shared_ptr<Client> &sender);
     bool removeIncomingQoS2MessageId(u_int16_t packet_id);
     void addOutgoingQoS2MessageId(uint16_t packet_id);
     void removeOutgoingQoS2MessageId(u_int16_t packet_id);
-- 
2.43.0


From f9c8aeeb09b87d6a7209d66163a7fd445ac1745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:35 +0000
Subject: [PATCH 72/74] fix: keep Session::addIncomingQoS2MessageId, which the
 tests use

---
 session.cpp | 8 ++++++++
 session.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/session.cpp b/session.cpp
index 0702977..84d43e2 100644
--- a/session.cpp
+++ b/session.cpp
@@ -482,6 +482,14 @@ void Session::setClientType(ClientType val)
     this->clientType = val;
 }
 
+void Session::addIncomingQoS2MessageId(uint16_t packet_id)
+{
+    assert(packet_id > 0);
+
+    MutexLocked<QoSData> qos_locked = qos.lock();
+    qos_locked->incomingQoS2MessageIds.insert(packet_id);
+}
+
 /**
  * @brief Register the packet ID of an incoming QoS 2 message, if it's new.
  *
diff --git a/session.h b/session.h
index 48e9865..0e6b065 100644
--- a/session.h
+++ b/session.h
@@ -152,6 +152,7 @@ public:
     ClientType getClientType() const { return clientType; }
     void setClientType(ClientType val);
 
+    void addIncomingQoS2MessageId(uint16_t packet_id);
     IncomingQoS2Result startIncomingQoS2Message(uint16_t packet_id, const std::shared_ptr<Client> &sender);
     bool removeIncomingQoS2MessageId(u_int16_t packet_id);
     void addOutgoingQoS2MessageId(uint16_t packet_id);
-- 
2.43.0


From 6efad23ee08a5df85780b48f5e674fc14167a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 73/74] fix: long plugin_timer_period and save_state_interval
 overflowed

---
 mainapp.cpp     | 2 +-
 queuedtasks.cpp | 4 ++--
 queuedtasks.h   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mainapp.cpp b/mainapp.cpp
index fc07694..0ee7ed0 100644
--- a/mainapp.cpp
+++ b/mainapp.cpp
@@ -1215,7 +1215,7 @@ void MainApp::reloadTimers(const Settings *old_settings)
     if (settings.pluginTimerPeriod > 0)
     {
         auto fpluginPeriodicEvent = std::bind(&MainApp::queuepluginPeriodicEventAllThreads, this);
-        timed_tasks.addTask(fpluginPeriodicEvent, settings.pluginTimerPeriod * 1000, true);
+        timed_tasks.addTask(fpluginPeriodicEvent, static_cast<uint64_t>(settings.pluginTimerPeriod) * 1000, true);
     }
 
     {
diff --git a/queuedtasks.cpp b/queuedtasks.cpp
index 35bdf2c..d9a5712 100644
--- a/queuedtasks.cpp
+++ b/queuedtasks.cpp
@@ -24,7 +24,7 @@ QueuedTasks::QueuedTasks()
 
 }
 
-uint32_t QueuedTasks::addTask(std::function<void ()> f, uint32_t delayInMs, bool repeat)
+uint32_t QueuedTasks::addTask(std::function<void ()> f, uint64_t delayInMs, bool repeat)
 {
     std::chrono::time_point<std::chrono::steady_clock> when = std::chrono::steady_clock::now() + std::chrono::milliseconds(delayInMs);
 
@@ -59,7 +59,7 @@ uint32_t QueuedTasks::getTimeTillNext() const
     std::chrono::time_point<std::chrono::steady_clock> next = queuedTasks.begin()->when;
     std::chrono::milliseconds x = std::chrono::duration_cast<std::chrono::milliseconds>(next - std::chrono::steady_clock::now());
     std::chrono::milliseconds y = std::max<std::chrono::milliseconds>(std::chrono::milliseconds(0), x);
-    return y.count();
+    return std::min<uint64_t>(y.count(), std::numeric_limits<uint32_t>::max());
 }
 
 void QueuedTasks::performAll()
diff --git a/queuedtasks.h b/queuedtasks.h
index f2c30b2..b238abd 100644
--- a/queuedtasks.h
+++ b/queuedtasks.h
@@ -41,7 +41,7 @@ class QueuedTasks
 
 public:
     QueuedTasks();
-    uint32_t addTask(std::function<void()> f, uint32_t delayInMs, bool repeat=false);
+    uint32_t addTask(std::function<void()> f, uint64_t delayInMs, bool repeat=false);
     void eraseTask(uint32_t id);
     uint32_t getTimeTillNext() const;
     void performAll();
-- 
2.43.0


From 19593e326aed82cecad4ab79b2ac94e60b9ccae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:14 +0000
Subject: [PATCH 74/74] fix: client_initial_buffer_size 1 was accepted, and
 then no client could send anything

---
 configfileparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/configfileparser.cpp b/configfileparser.cpp
index a9d8600..833e2ef 100644
--- a/configfileparser.cpp
+++ b/configfileparser.cpp
@@ -996,6 +996,8 @@ void ConfigFileParser::loadFile(bool test)
                 if (testKeyValidity(key, "client_initial_buffer_size", validKeys))
                 {
                     int newVal = full_stoi(key, value);
+                    if (newVal < 2) // The circular buffers need one byte to be able to tell full from empty.
+                        throw ConfigFileException("client_initial_buffer_size value " + value + " is lower than 2.");
                     if (!isPowerOfTwo(newVal))
                         throw ConfigFileException("client_initial_buffer_size value " + value + " is not a power of two.");
                     tmpSettings.clientInitialBufferSize = newVal;
-- 
2.43.0

