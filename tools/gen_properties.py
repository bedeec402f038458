#!/usr/bin/env python3
# Source of /verif/properties.jsonl (edit here, then run).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state="", observe="TCP traffic of independent MQTT clients"):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": files[0]} for m in mech.split(";")],
         "observe_at": [observe], "hook_needed": None}
    if state: a["state"] = [{"name": state, "meaning": "state the property constrains", "where": files[0]}]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Publishes reach exactly the matching subscriptions",
  "A PUBLISH the broker accepts is delivered, one copy per matching subscription filter, to every session holding a subscription that matches its topic at that moment, and to no other session; matching is exactly MQTT's ('+' one level, '#' the parent and all below, empty levels count, leading wildcards never match topics starting with '$'). Re-subscribing to a filter replaces its options (in one SUBSCRIBE the last duplicate wins) and UNSUBSCRIBE removes exactly that filter, whatever clean-up of unused filters runs meanwhile. The delivered QoS is the minimum of published and granted QoS, No Local suppresses only the publisher's own copy, and live copies have the retain flag only if it was published with it and the subscription has Retain As Published.",
  ["inputs", "histories", "schedules"],
  "for all sets of clients, topics and filters (including empty levels, '$' topics, deep and long topics), all histories of SUBSCRIBE / UNSUBSCRIBE / PUBLISH / disconnect, all subscription options, all moments of tree maintenance",
  "Unit tests sample a few filter/topic pairs and single subscribe histories; routing is a relation between all live filters and all topics after arbitrary histories, on several worker threads with a lazily maintained and concurrently purged tree.",
  ["subscriptionstore.cpp", "subscriptionstore.h", "mqttpacket.cpp", "subscription.cpp", "utils.cpp", "threadlocalutils.cpp", "publishcopyfactory.cpp"],
  "SubscriptionStore::addSubscription/removeSubscription/publishRecursively/queuePacketAtSubscribers, purgeSubscriptionTree; splitTopic", "SubscriptionNode trees root and rootDollar")

p("P02", "Delivered messages carry the published content unchanged",
  "Every delivered PUBLISH, whether live, from a session queue or from the retained store, carries exactly the published topic and payload bytes, whatever protocol versions, QoS levels and topic aliases publisher and subscriber use. Between MQTT 5 clients the payload format indicator, content type, response topic, correlation data and user properties (in order, with duplicates) arrive unchanged together with exactly the subscription identifier of the subscription that caused the copy, while MQTT 3 clients get well-formed packets without any of it. Topic aliases resolve to the topic last bound to them on that connection, in both directions, and the broker stays within the subscriber's Topic Alias Maximum.",
  ["inputs", "histories"],
  "for all topics, payload sizes (0 to several hundred kB, all bytes), property combinations, publisher/subscriber version pairs, QoS pairs, alias rebinding histories, and delivery paths (live, retained, queued)",
  "Packets are re-encoded per subscriber class through a shared copy cache keyed on version, QoS, alias and subscription id; the wrong reuse appears only for particular mixes of subscribers on one message.",
  ["publishcopyfactory.cpp", "mqttpacket.cpp", "mqtt5properties.cpp", "packetdatatypes.cpp", "client.cpp", "types.cpp"],
  "PublishCopyFactory::getOptimumPacket/getNewPublish, MqttPacket(ProtocolVersion, Publish), Client::writeMqttPacketAndBlameThisClient alias handling", "")

p("P03", "Messages of one publisher on one topic keep their order",
  "For each subscription, the messages of one publishing connection on one topic at one QoS level are first received in the order they were published. This includes messages that were queued while the subscriber was offline, and redelivery after a reconnect keeps the original order.",
  ["histories", "schedules", "inputs"],
  "for all interleavings of many publishers and subscribers on several worker threads, burst sizes, window sizes, disconnect/reconnect points",
  "Ordering is a property of the schedule between worker threads, session queues and in-flight windows; a unit test runs one schedule.",
  ["session.cpp", "qospacketqueue.cpp", "client.cpp", "threadloop.cpp", "subscriptionstore.cpp"],
  "Session::writePacket / sendAllPendingQosData, QoSPublishQueue, Client write buffer", "QoSPublishQueue order")

p("P04", "Acknowledged QoS 1/2 messages are neither lost nor duplicated",
  "For a subscriber with a persistent session and within its queue limits (Receive Maximum included: what exceeds it is dropped), every QoS 1 or 2 message the broker acknowledged to the publisher is delivered eventually, QoS 1 at least once (and not again after its PUBACK was processed) and QoS 2 exactly once, at whatever point of a handshake either connection breaks and is resumed. A publisher retransmitting a QoS 2 PUBLISH or PUBREL on a resumed session causes no second delivery. After a QoS 2 exchange ended (completed, or refused by the broker) reuse of its packet id is a new message that is delivered.",
  ["crash_points", "histories", "schedules", "inputs"],
  "for all cut points of the subscriber's and publisher's handshakes (before/after each PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP), all sequences of reconnects, all QoS/version combinations",
  "The state is spread over queue, id sets and connection objects; each (cut point x resume history) combination is a separate case and unit tests exercise a handful.",
  ["session.cpp", "mqttpacket.cpp", "qospacketqueue.cpp", "usedids.cpp", "client.cpp", "acksender.cpp"],
  "Session::clearQosMessage, sendAllPendingQosData, incomingQoS2MessageIds, outgoingQoS2MessageIds; MqttPacket::handlePublish/handlePubRel/handlePubRec", "Session::QoSData")

p("P05", "Packet identifiers are unique in flight and the receive window is honoured",
  "The broker never has more QoS>0 PUBLISH packets unacknowledged than the client's Receive Maximum, never uses packet id 0, and never starts a new message with an id still in use by an unfinished outgoing exchange of that session, also after wrap-around, on resume, and with PUBRELs outstanding. Each completed exchange gives back exactly one slot and acknowledgements of unknown ids give back none. As long as the client keeps acknowledging, new messages keep flowing, also after messages were dropped as oversized, expired or beyond the window.",
  ["histories", "inputs", "schedules"],
  "for all receive maximums (1..65535), acknowledgement orders, spurious acknowledgements, message-size and expiry mixes, and long histories past id wrap-around",
  "Counters and id sets drift only over long or adversarial acknowledgement histories; a test that sends a few messages sees neither leak nor wrap.",
  ["session.cpp", "usedids.cpp", "qospacketqueue.cpp", "mqttpacket.cpp", "client.cpp"],
  "Session::increaseFlowControlQuota / getNextPacketId / UsedIds", "flowControlQuota, UsedIds bitset, outgoingQoS2MessageIds")

p("P06", "Every inbound request gets exactly its acknowledgement",
  "Each valid CONNECT, SUBSCRIBE, UNSUBSCRIBE, QoS 1/2 PUBLISH, PUBREL and PINGREQ is answered exactly once, with the right packet type and packet id and one code per topic filter in order, well-formed for the connection's protocol version, and no acknowledgement appears that nothing asked for. Granted QoS is the minimum of requested and the broker maximum, and retransmitted QoS 2 packets are acknowledged again. Acknowledged effects are in force: a message published after SUBACK is received, one published after UNSUBACK is not.",
  ["inputs", "histories"],
  "for all request sequences (pipelined, any packet ids, any number of filters) in MQTT 3.1, 3.1.1 and 5",
  "Needs a correlation oracle over arbitrary pipelined request streams including deferred subscribes and asynchronous acks; tests send one request and look for one answer.",
  ["mqttpacket.cpp", "acksender.cpp", "client.cpp", "types.cpp"],
  "MqttPacket::handleSubscribe/handleUnsubscribe/handlePublish/handlePubRel, AckSender, SubAck/UnsubAck/PubResponse", "deferredSubscribes")

p("P07", "Sessions live exactly as long as promised",
  "A session (subscriptions, queued messages, in-flight state) survives disconnection for its expiry interval (MQTT 5: from CONNECT, or changed in DISCONNECT; MQTT 3 with clean session 0: the configured one), renewed by every reconnect, and session-present is 1 exactly when such state exists and no clean start was requested. After the interval, at disconnection when the interval is 0 or clean session was set, and on clean start, everything of it is gone. A session can only be resumed by the same username.",
  ["histories", "inputs"],
  "for all histories of connect (clean or not, any expiry), disconnect (clean, abnormal, with changed expiry), subscribe, publish while offline, and passage of time around the expiry boundary",
  "Expiry is time dependent and removal is lazy via queued removals keyed by time; errors show only for particular connect/disconnect/time histories.",
  ["subscriptionstore.cpp", "session.cpp", "client.cpp", "mqttpacket.cpp", "threaddata.cpp"],
  "SubscriptionStore::registerClientAndKickExistingOne, queueSessionRemoval, removeExpiredSessionsClients; Session::setSessionProperties", "sessionsById, queuedSessionRemovals")

p("P08", "At most one live connection per client identifier",
  "At any time at most one connection per client id is served: a new connection promptly closes the older one (MQTT 5: with DISCONNECT 0x8E), from which nothing more is accepted. Teardown of the old connection, whenever it runs, never removes or damages the new connection or its session, subscriptions, queue or will. After any storm of concurrent connects with one id exactly one connection remains and it receives each message once.",
  ["schedules", "histories"],
  "for all interleavings of connects, takeovers, disconnects and teardown across worker threads, clean and persistent, all protocol versions",
  "The takeover runs between worker threads owning the two connections; outcome depends on interleaving and on flags of both connections.",
  ["subscriptionstore.cpp", "threaddata.cpp", "client.cpp", "session.cpp", "mqttpacket.cpp"],
  "registerClientAndKickExistingOne, ThreadData::clientDisconnectActions, Client::~Client", "Session::client weak pointer, sessionsById")

p("P09", "The retained store holds the last retained message per topic",
  "For each topic the retained message is that of the last accepted retained PUBLISH or will on it, an empty payload deletes it, and this holds under concurrent retained publishes and in every retained_messages_mode. A new subscription receives exactly the retained messages on matching topics, once each, with retain flag 1 and QoS min(stored, granted), subject to retain handling; shared subscriptions get none. Expired retained messages are not delivered.",
  ["histories", "inputs", "schedules"],
  "for all histories of retained publishes, deletions, expiries and subscriptions over overlapping topic trees by several clients on several threads",
  "Retained setting is done with try-lock and a deferral queue; last-writer order depends on contention; matching is a tree walk with time slicing that single-threaded tests do not interrupt.",
  ["subscriptionstore.cpp", "threaddata.cpp", "retainedmessage.cpp", "session.cpp", "mqttpacket.cpp"],
  "SubscriptionStore::trySetRetainedMessages, giveClientRetainedMessages, expireRetainedMessages; ThreadData::queueSettingRetainedMessage", "RetainedMessageNode tree")

p("P10", "Wills are published exactly once, and only when due",
  "A connection's will is published exactly once, with its topic, payload, QoS, retain flag and properties, if the connection ends in any way but a normal DISCONNECT, not before min(will delay, session expiry) has passed, and not at all after a normal DISCONNECT or if the client resumes the session before the delay passed. A will belongs to its own connection: publishing or cancelling one connection's will never affects the will of a later connection with the same client id.",
  ["histories", "schedules", "inputs"],
  "for all ways to end a connection, all will delays and session expiries, reconnect moments relative to the delay, clean start or not, takeovers",
  "Depends on time, on which thread tears the connection down and on who owns the will at that moment.",
  ["subscriptionstore.cpp", "client.cpp", "session.cpp", "threaddata.cpp", "mqttpacket.cpp"],
  "SubscriptionStore::queueWillMessage / sendQueuedWillMessages, Client::sendOrQueueWill, Session::setWill/clearWill", "pendingWillMessages, Session::willPublish")

p("P11", "Each message reaches exactly one member of a shared subscription",
  "For every share group with a member, each matching message is delivered to exactly one current member, independently of other groups and ordinary subscriptions, also with concurrent publishers and changing membership; what an offline member was given it gets when it resumes. Members that unsubscribed or whose session is gone get nothing and cause no loss. Round robin gives all members a share, and sender_hash sends one sender's messages to one member (first: all messages to one member) while membership is stable.",
  ["histories", "schedules", "inputs"],
  "for all group memberships changing over time, targeting modes, concurrent publishers, QoS levels",
  "Member selection uses shared mutable counters and lazily purged member lists; exactly-one must hold under concurrent publishers and membership changes.",
  ["sharedsubscribers.cpp", "subscriptionstore.cpp", "mqttpacket.cpp"],
  "SharedSubscribers::getNext / purgeAndReIndex, publishRecursively", "roundRobinCounter, members")

p("P12", "Expired messages are never delivered and lifetimes count down",
  "A message published with a Message Expiry Interval is never delivered after that interval has passed, whether it waited in a session queue, in the retained store or in a saved state file, and when delivered earlier to an MQTT 5 client the interval in it is the original minus the time waited. Messages without an interval do not get one (except the retained store's configured maximum age) and do not expire from session queues.",
  ["histories", "inputs"],
  "for all intervals, waiting times around the boundary, storage places (queue, retained, persisted and reloaded), delivery and redelivery",
  "Depends on elapsed time at several code paths; tests would need long sleeps; checked here under a controlled clock.",
  ["packetdatatypes.cpp", "types.cpp", "session.cpp", "subscriptionstore.cpp", "retainedmessage.cpp", "sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp"],
  "PublishBase::hasExpired / getCurrentTimeToExpire, Session::sendAllPendingQosData, loading code", "expireInfo")

p("P13", "No message crosses an ACL in either direction",
  "With an ACL file, a client's publish or will takes effect only on topics its user may write, and a client receives only messages on topics it may read, following the documented Mosquitto ACL semantics (user, anonymous and pattern rules, %u and %c, deny overrides). This holds on every path: live, retained, queued and redelivered messages, wills, shared subscriptions and topic aliases. Denied publishes are acknowledged as the protocol version prescribes and leave no trace.",
  ["inputs", "histories"],
  "for all ACL files, users, client ids, topics and delivery paths",
  "The ACL decision is called separately on each delivery path with path specific arguments; an omitted or swapped check shows only on that path and for particular rule sets.",
  ["plugin.cpp", "acltree.cpp", "mqttpacket.cpp", "session.cpp", "subscriptionstore.cpp", "client.cpp"],
  "Authentication::aclCheck, AclTree::findPermission; callers in handlePublish, Session::writePacket, giveClientRetainedMessages, sendAllPendingQosData, wills", "AclTree")

p("P14", "Nothing is done for a client before it is authenticated",
  "Before a successful CONNACK a connection causes no effect but the handshake itself: other packets are dropped or end it, nothing is delivered to it, and it cannot take over a session, set a will or publish, also when packets are pipelined behind a CONNECT whose verdict is pending. Only matching credentials (password file with both hash types, plugin verdicts, extended authentication), or anonymous access where allowed, lead to success, and failures get the protocol's refusal and are closed. Client ids and usernames with '#' or '+' are refused unless allowed.",
  ["inputs", "histories", "schedules"],
  "for all packet sequences before authentication, all credential combinations, listener overrides, async verdict timings",
  "Pre-authentication states (async auth, extended auth, pipelined packets, haproxy/websocket stages) combine; tests cover single happy and failing logins.",
  ["mqttpacket.cpp", "client.cpp", "plugin.cpp", "threaddata.cpp", "flashmq_plugin.cpp"],
  "MqttPacket::handleConnect/handleExtendedAuth, Client::getAuthenticated, ThreadData::continuationOfAuthentication, Authentication::loginCheck", "Client::authenticated, asyncAuthenticating")

p("P15", "Hostile bytes cause no memory error and hurt nobody else",
  "Whatever bytes a peer sends, in whatever segmentation, on MQTT, websocket or PROXY-protocol listeners, the broker makes no invalid memory access, executes no undefined behaviour, fails no assertion, and neither exits, hangs nor grows without bound. At most the sender is disconnected, and other clients keep being served correctly.",
  ["inputs"],
  "for all byte streams, generated by structure-aware mutation of valid sessions in all three protocol versions, websocket handshakes/frames and PROXY headers, plus in-process coverage-guided fuzzing of parsers (thorough)",
  "The input space is unbounded; sanitizers see violations tests would not notice.",
  ["mqttpacket.cpp", "client.cpp", "iowrapper.cpp", "http.cpp", "haproxy.cpp", "cirbuf.cpp", "mqtt5properties.cpp", "variablebyteint.cpp", "session.cpp"],
  "Client::bufferToMqttPackets, MqttPacket parsing, IoWrapper websocket parsing, parseHttpHeader, PROXY header parsing", "", "AddressSanitizer/UBSan reports, process exit status, bystander clients")

p("P16", "Protocol violations are refused, valid packets are not",
  "Packets that violate MQTT (wrong flags or lengths, QoS 3, packet id 0, bad UTF-8, wildcards in topics, invalid filters, empty lists, duplicate, misplaced or out-of-range properties, invalid aliases, exceeded announced limits) end the sender's connection, for MQTT 5 optionally with an error reason code, and have no effect on routing, retained messages or subscriptions. (Packets only a server sends, packets before CONNECT, trailing bytes, an empty will topic and what follows the packet id of an acknowledgement may be ignored instead, but never have an effect.) Valid packets, including all boundary values, have their defined effect and never cause a disconnect.",
  ["inputs"],
  "for all single-rule violations at all positions applied to valid packets of MQTT 3.1, 3.1.1 and 5, and all boundary-valid packets",
  "Enumerates the grammar around each rule from both sides; tests cover a few violations.",
  ["mqttpacket.cpp", "mqtt5properties.cpp", "client.cpp", "utils.cpp", "threadlocalutils.cpp", "types.cpp"],
  "MqttPacket parse* / handle*, isValidUtf8, isValidSubscribePath, Client::bufferToMqttPackets", "")

p("P17", "Transport and segmentation do not change behaviour",
  "The packets a client receives depend only on the MQTT byte stream it sends, not on how that is cut into TCP segments, TLS records or websocket frames (any length form, mask, interleaved pings), nor on the transport used (TCP, TLS, websocket, unix socket, PROXY v2). What the broker sends is, decoded, a sequence of whole packets with nothing lost, duplicated or reordered, whatever the peer's reading speed.",
  ["inputs", "schedules"],
  "for all segmentations (single bytes to many packets at once), frame sizes, mask keys, control frame positions, transports and read pacing",
  "Buffer wrap-around, partial frame and pending-TLS-write states depend on the exact segmentation and on timing.",
  ["iowrapper.cpp", "client.cpp", "cirbuf.cpp", "http.cpp", "haproxy.cpp", "threadloop.cpp"],
  "IoWrapper::readWebsocketAndOrSsl / writeWebsocketAndOrSsl, CirBuf, Client::readFdIntoBuffer / writeBufIntoFd", "CirBuf head/tail, IncompleteWebsocketRead, IncompleteSslWrite")

p("P18", "Limits protect clients and the broker",
  "The broker never sends a client a packet larger than its Maximum Packet Size (that message is dropped for that client only), and QoS messages queued for an offline session stay within the configured count and byte limits, keeping the earliest. A client that does not read makes the broker buffer at most about its write limit for it, does not delay or disturb other clients, and gets a valid stream when it reads again. Inbound packets above max_packet_size, strings above max_string_length and publishes or wills above max_qos are refused.",
  ["inputs", "histories", "schedules"],
  "for all limits, message sizes around the limits, stall durations and mixes of slow and fast clients",
  "Needs resource observation under sustained overload and limit boundary sweeps.",
  ["client.cpp", "session.cpp", "qospacketqueue.cpp", "mqttpacket.cpp", "cirbuf.cpp", "publishcopyfactory.cpp"],
  "Client::writeMqttPacket, Session::writePacket, ClientBufferLimit, QoSPublishQueue byte accounting", "write buffer size, queue byte counters")

p("P19", "A clean restart preserves the promised state",
  "With a storage_dir, a broker that is stopped and started again has the same persistent sessions with username and remaining expiry, their subscriptions with all options, identifiers and share groups, their queued messages in order and content, unfinished QoS 2 exchanges, delayed wills, and the same retained messages. Sessions that end with their connection and messages that expired meanwhile do not come back.",
  ["histories", "inputs", "crash_points"],
  "for all broker states reachable by random histories in the three protocol versions, any time passed between stop and start, repeated restarts",
  "Round trip through a hand-written binary format with many optional parts; any field dropped shows only for states that carry it.",
  ["sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "persistencefile.cpp", "subscriptionstore.cpp", "mainapp.cpp", "persistencefunctions.cpp", "session.cpp"],
  "SubscriptionStore::saveSessionsAndSubscriptions / loadSessionsAndSubscriptions / saveRetainedMessages / loadRetainedMessages", "sessions.db, retained.db")

p("P20", "State files survive crashes, I/O errors and corruption",
  "If the broker dies or a file operation fails at any point while saving state, each state file on disk is completely the previous or completely the new version, and the next start loads it. The new version replaces the old one only after all its data was written and synced. A corrupted or truncated state file is recognised, not loaded and moved aside without crashing.",
  ["crash_points", "inputs"],
  "for every file operation of a save (open, write, flush, sync, rename) as crash point or failing with an error, once or persistently, and for every kind of corruption (bit flips, truncation, extension, garbage)",
  "Fault points must be enumerated one by one; tests never fail a write.",
  ["persistencefile.cpp", "sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "bridgeinfodb.cpp", "persistencefunctions.cpp", "subscriptionstore.cpp"],
  "PersistenceFile::openWrite/closeFile/hashFile/verifyHash", "temp file, hash header, rename", "intercepted file operations (fault shim), directory content, broker restarted on it")

p("P21", "No data races or deadlocks between threads",
  "No execution has a data race or deadlock among main, worker, background and logger threads: under concurrent connects, takeovers, publishes, retained updates, subscription changes, shared subscriptions, expiry and tree maintenance, statistics, config reload, state saving and shutdown.",
  ["schedules"],
  "for all thread interleavings of a mixed workload with 4+ workers, all timers firing, reloads and saves in the middle",
  "Races are schedule dependent and mostly invisible in outcomes; needs a happens-before race detector on the real code under stress.",
  ["threaddata.cpp", "subscriptionstore.cpp", "session.cpp", "client.cpp", "sharedsubscribers.cpp", "mainapp.cpp", "backgroundworker.cpp", "logger.cpp", "derivablecounter.cpp", "plugin.cpp"],
  "all cross-thread state: rwlocks in SubscriptionStore, MutexOwned, ThreadData task queues", "", "ThreadSanitizer reports, watchdog on responses")

p("P22", "Configuration reload is all or nothing",
  "On SIGHUP an invalid configuration leaves the running configuration, listeners and connections untouched, and a valid one takes effect as documented per setting, without disconnecting clients, losing sessions, retained messages or queued data, however often repeated and under load. A configuration that --test-config accepts can be started, one it rejects cannot.",
  ["inputs", "histories"],
  "for all valid and invalid configuration texts (every key with valid, boundary and invalid values), and sequences of reloads between them while clients are active",
  "Number of keys x values x running states is beyond sampled unit tests of the parser.",
  ["configfileparser.cpp", "mainapp.cpp", "settings.cpp", "listener.cpp", "threaddata.cpp", "globber.cpp"],
  "MainApp::loadConfig / reloadConfig, ConfigFileParser::loadFile, ThreadData::reload", "Settings")

p("P23", "The plugin interface does what its header promises",
  "A plugin gets, per worker thread, allocate, init, other calls, deinit and deallocate in that order, and is asked about every login, publish, delivery, subscription and will with the actual client id, username, topic, payload, QoS and retain values before it takes effect. Its verdicts and alterations are followed, exceptions count as refusal and harm nobody else, and disconnect and unsubscribe hooks come once per event. What it requests through the API (publish, delayed tasks) takes effect once.",
  ["histories", "inputs", "schedules"],
  "for all client histories and hook verdicts, reload and shutdown moments, threads",
  "The contract is temporal (call order, exactly once, before effect) over whole executions.",
  ["plugin.cpp", "flashmq_plugin.cpp", "pluginloader.cpp", "threaddata.cpp", "threadloop.cpp", "mqttpacket.cpp", "session.cpp"],
  "Authentication::*, flashmq_plugin_* exported functions", "", "log written by a monitor plugin, correlated with client traffic")

p("P24", "Bridges relay each message once, both ways, without loops",
  "A bridge relays every message matching its publish filters to the remote broker, and every one matching its subscribe filters back, exactly once, at most at the configured QoS, with retain flag and prefixes handled as configured, and nothing else; a message that came in over a bridge is not sent back over it. It authenticates with its configured credentials and reconnects after connection loss, and with persistent sessions QoS>0 messages published meanwhile are not lost.",
  ["histories", "inputs"],
  "for all filter/prefix/QoS/version configurations, message histories on both sides and connection breaks",
  "Needs two brokers and cross-broker conservation checks over histories with link failures.",
  ["bridgeconfig.cpp", "session.cpp", "client.cpp", "threaddata.cpp", "threadloop.cpp", "mqttpacket.cpp", "publishcopyfactory.cpp", "subscriptionstore.cpp"],
  "BridgeState, ThreadData::bridgeReconnect, Session::writePacket for bridges, Publish topic prefix handling", "")

p("P25", "Keep-alive removes dead clients and only dead clients",
  "A client that sends nothing is disconnected after 1.5 times its keep-alive (plus checking granularity), not before, and its will fires; anything it sends in time postpones this, while traffic sent to it does not. A connection that never completes CONNECT or its authentication is closed after a bounded time. A bridge sends something within its keep-alive (or the one the remote asks for) and leaves a remote that is silent for 1.5 times that.",
  ["histories", "inputs"],
  "for all keep-alive values, activity patterns and protocol versions, checked under a controlled clock",
  "Timer slots and re-queueing over long times; tests cannot wait.",
  ["threaddata.cpp", "client.cpp", "mqttpacket.cpp", "mainapp.cpp"],
  "ThreadData::doKeepAliveCheck / queueClientNextKeepAliveCheck, Client::keepAliveExpired", "queuedKeepAliveChecks")

p("P26", "Nothing accumulates and the $SYS counters add up",
  "After clients disconnect and their sessions, retained messages and subscriptions are removed or expired, file descriptors, sessions, clients, subscriptions and retained messages are back at their initial counts, memory does not grow with the number of past connections or messages, and at exit no memory is leaked. The $SYS statistics equal the independently counted connections, messages, sessions, subscriptions and retained messages.",
  ["histories"],
  "for all histories of connects, failures at any stage, subscriptions, retained publishes, takeovers and expiries",
  "Leaks and drifting counters show only after long churn and on rare exit paths.",
  ["threaddata.cpp", "globalstats.cpp", "derivablecounter.cpp", "client.cpp", "session.cpp", "subscriptionstore.cpp", "scopedsocket.cpp", "mainapp.cpp"],
  "Client/Session destruction, ThreadData::publishStatsOnDollarTopic, purge functions", "counters", "$SYS topics, /proc/<pid>/fd, LeakSanitizer")

p("P27", "Shutdown is orderly under any load",
  "On SIGTERM or SIGINT at any moment, idle, under load, during reload or saving, the broker tells MQTT 5 clients it is shutting down, publishes due wills, saves its state and exits with status 0 within a bounded time. QoS>0 messages acknowledged to publishers before the signal and queued for persistent sessions, and acknowledged retained messages, are in the saved state.",
  ["crash_points", "schedules"],
  "for all shutdown moments in a running mixed workload",
  "The shutdown sequence races with all other activity; a test stops an idle broker.",
  ["mainapp.cpp", "threaddata.cpp", "threadloop.cpp", "backgroundworker.cpp", "logger.cpp", "persistencefunctions.cpp"],
  "MainApp::start after loop, ThreadData::sendAllWills / sendAllDisconnects / quit", "", "exit status, client traffic, sanitizer reports, restarted broker's state")

p("P28", "Configured access and resource policies are enforced exactly",
  "A listener accepts connections from exactly the addresses its only_allow_from and deny_from lists permit, a denial winning. Wildcard subscriptions broader than minimum_wildcard_subscription_depth are refused, or with deny_retained_only granted without retained messages, and no others are. With a retained node creation limit, no more nodes than that are set below any node at the enforcement depth, everything within it is stored, and live delivery is unaffected. A restart brings back exactly the kinds of data that persistence_data_to_save lists, and unix sockets have the configured mode.",
  ["inputs", "histories"],
  "for all lists of IPv4/IPv6 networks and source addresses, all filters, depths and modes, all histories of retained topics, and all orders of persistence options",
  "Mask arithmetic, boundaries and interplay of options need many policies and addresses; tests sample a few of each.",
  ["network.cpp", "listener.cpp", "mainapp.cpp", "mqttpacket.cpp", "subscriptionstore.cpp", "configfileparser.cpp", "persistencefunctions.cpp"],
  "Listener::isAllowed, Network::match, MqttPacket::handleSubscribe wildcard depth, SubscriptionStore::setRetainedLimitReached, saveState", "recursiveChildCount", "CONNACK, SUBACK, deliveries, restarted broker")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
    assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"])>80]
print(len(P), "properties")
