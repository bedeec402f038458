NA = {}
check("P01", "runtime monitoring: trace oracle (reference topic matcher) over recorded deliveries, ASan/UBSan, seeded scheduling noise",
      "Every delivery observed in randomized sequential scripts, an exhaustive small filter x topic matrix and concurrent churn is compared with an independent matcher; only the executed histories are covered.")
check("P02", "runtime monitoring: field-by-field content oracle on every delivered PUBLISH (strict decoder, alias tracker), ASan/UBSan",
      "Content of every observed copy on live, queued, retained and will paths across version/QoS/alias/property mixes and length boundaries; only generated mixes are covered.")
check("P03", "runtime monitoring: online order monitor per (subscription, publisher, topic, QoS) with seeded scheduling noise and targeted delays in the resume path, ASan/UBSan",
      "Order of observed deliveries under concurrent publishers, disconnects, resumes and take-overs; schedules are sampled, not enumerated.")
check("P04", "runtime monitoring: exactly-once / at-least-once conservation oracle over receivers with correct MQTT state, systematic two-cut sequences plus randomized chaos, ASan/UBSan",
      "All one- and two-cut sequences of both handshake sides (three cuts for publishers; thorough: for subscribers) and sampled chaos schedules; crash of the broker itself is P19/P20/P27.")
check("P05", "runtime monitoring: online window and packet-id monitor over late, partial, repeated and unknown acknowledgements, slot-count probes after quiescence, id wrap-around and exhaustion, ASan/UBSan",
      "All ids of a session are cycled (65535 wrap) and exhausted once; acknowledgement patterns and resumes are sampled.")
check("P06", "runtime monitoring: request/acknowledgement matching automaton per connection (type, id, order, codes) with effect probes from other threads right after each SUBACK/UNSUBACK, ASan/UBSan with delays in the subscription store",
      "Randomized pipelined request mixes on all versions, resumed sessions and non-reading clients; only executed mixes and schedules are covered.")
check("P07", "runtime monitoring: random life histories of sessions (simulated time) run in lockstep with a reference model of session state; session-present, queues, subscriptions and QoS 2 state compared at each connect, ASan/UBSan",
      "Sampled histories of up to 150 steps with simulated time up to years; expiry is judged with the documented granularity of the periodic clean-up (10 s).")
check("P08", "runtime monitoring: connection storms with targeted delays in take-over, teardown and clean-up code; liveness, uniqueness and functionality probes on the surviving connection and its session, ASan/UBSan",
      "Sampled storms of 2 to 9 connections per id and sampled orders of teardown and take-over; a stuck (not reading) old MQTT 5 connection may stay until its keep-alive, unserved.")
check("P09", "runtime monitoring: retained store model in lockstep, register consistency at rest after concurrent and deferred publishes, no-gap oracle for racing subscriptions, ASan/UBSan",
      "Sampled histories on small topic sets with purging and simulated expiry, up to 8000 retained messages through small windows; deferral is forced by slow readers.")
check("P10", "runtime monitoring: every way of ending a connection x delay x expiry x continuation in simulated time, will-count and content oracle with observers on all will topics, targeted delays in take-over and teardown, ASan/UBSan",
      "All end kinds on all versions; sampled delay/expiry/resume histories, take-over storms and coinciding timers; due times judged to the broker's timer granularity (2 s wills, 10 s session clean-up).")
check("P11", "runtime monitoring: membership model in lockstep (assignment of observed copies to groups), conservation per group under concurrent publishers and churn incl. empty member places, distribution oracles per mode, ASan/UBSan",
      "Sampled histories and schedules in all three distribution modes; with QoS 0 a message may be lost when an offline member was chosen.")
check("P12", "runtime monitoring: life-time accounting oracle in simulated time over queued, retained, deferred and saved messages (remaining interval, never after expiry, no interval invented), ASan/UBSan",
      "Sampled intervals, waits and clean restarts in simulated time, judged to one second of granularity.")
check("P13", "runtime monitoring: independent evaluator of the ACL file decides every observed delivery and absence on every path (live, alias, retained, queued, redelivered, will, shared, restart, reload), ASan/UBSan",
      "Random rule files and identities; topics starting with '$' and messages queued before a rule change are not judged.")
check("P14", "runtime monitoring: effect-absence oracle (observer, victim, retained store, attacker input) around every verdict and timing, independent credential evaluator for password files, plugin, extended auth, X509 and PROXY names, ASan/UBSan",
      "Random packets before and behind CONNECT with sync, async, delayed and missing verdicts; what the plugin is asked after a password file denial is not judged.")
check("P15", "runtime monitoring: grammar-based mutation fuzzing of all listener kinds, all truncations and byte edits of valid packets, never-ending and giant inputs against an ASan/UBSan/assertion build with a canary pair judging service and memory watched, leak check at exit",
      "Sampled streams (23000 per quick run); memory bounds are judged with slack for the sanitizer; one flooding client may delay others on its thread for the time its read buffer (max_packet_size) takes to be handled.")
check("P16", "runtime monitoring: violation table plus byte-mutated packets classified by an independent strict decoder; closing, acknowledgements, will, observers, retained store and the resumed session are judged for every packet, ASan/UBSan",
      "About 250 table entries per version and 5000 mutated packets per quick run; what the specification leaves open is only checked for having no effect.")
check("P17", "runtime monitoring: differential oracle: one script's answer stream over TCP packet by packet against its replays over nine transports and many segmentations; conservation of streams that end anywhere; exact content for slow readers; ASan/UBSan",
      "Random scripts and cuttings (about 900 replays per quick run); PROXY headers are sent in one segment, as their specification requires of senders; subscriptions behind retained publishes of the same stream are left to P09.")
check("P18", "runtime monitoring: size oracle (independent encoder) for every delivery path around swept limits, queue-prefix oracle, memory meter + canary + content oracle around clients that stop reading, boundary sweeps of inbound limits, ASan/UBSan",
      "Sampled sizes and limits (30000 judged messages per quick run); the size of the answer to CONNECT itself is not judged against tiny maximums; memory is judged with slack for the sanitizer.")
check("P19", "runtime monitoring: model of every session, exchange, will and retained message runs in lockstep over random histories with 1-3 restarts and simulated absence; full content comparison after each, ASan/UBSan",
      "Sampled states (about 30000 restored items per quick run) of up to 300 sessions and 6000 retained messages; expiry intervals of messages are P12, ACLs over restarts P13.")
check("P20", "runtime monitoring with fault injection: every file operation of a save fails, is cut short, fills the disk or is the last before a kill with loss of unsynced data; corrupted files; a second broker's state compared per file with the old/new model, trace monitor for sync-before-rename, ASan/UBSan",
      "Faults at every file operation of sampled saves (about 100 cases per quick run); of the unsynced data all or none survives the simulated power loss.")
check("P21", "runtime monitoring: ThreadSanitizer (races, lock inversions) over random combinations of all activities of the threads incl. clock jumps, reload, plugin threads, bridges, name lookups of any duration and shutdown under load; hang detection",
      "Sampled schedules, 24 broker runs per quick run; uninstrumented libraries (libstdc++ streams, OpenSSL) are not judged inside; only races ThreadSanitizer's happens-before history retains are seen.")
check("P25", "runtime monitoring under a controlled clock: random keep-alives, versions, transports and activity scripts; online monitor of the bounds of each connection's last activity against the moment it ends, conservation of wills, unfinished connections of every kind, scripted remote brokers for bridges, ASan/UBSan",
      "Sampled scripts (about 60 timed connections per broker run group, 800 per quick run) with time steps from 0.5 to 3.1 s, large keep-alives with jumps; ends are judged with 12 s tolerance (one timer slot and one checking interval).")
check("P26", "runtime monitoring: independent counts of an observer and the scripted clients compared with every $SYS figure over random histories and clean-ups in simulated time; identical rounds of churn with the allocator's bytes, descriptors, sessions, subscriptions, retained messages and tree nodes compared between rounds, LeakSanitizer at exit",
      "Sampled histories (8 broker runs of 5 phases, 9 kinds of churn of 7 rounds); growth that appears in less than each round of its kind is not judged; subscriptions/count is judged after the tree's clean-up.")
check("P27", "runtime monitoring: brokers under random mixed loads get SIGTERM/SIGINT at random moments; monitor of exit status and time, DISCONNECT 0x8B, wills, and conservation of acknowledged messages, retained messages and wills into the restarted broker (exactly once at QoS 2), ASan/UBSan/LeakSanitizer",
      "Sampled loads and moments (50 shutdowns under load, 48 during start-up per quick run); messages that are not acknowledged when the signal is sent may or may not be kept.")
check("P24", "runtime monitoring of two or three brokers joined by bridges of random configuration through a forwarder that cuts at random bytes, resets and refuses: observers on each side compare all deliveries with a model of filters, QoS, prefixes, retain handling and properties (exactly once, no loop, nothing else); conservation over cuts and restarts with durable sessions; certificate and credential checks; ASan/UBSan",
      "Sampled configurations, messages, cuts (49 pairs of brokers per quick run). Topics outside a configured prefix aren't judged (documentation and code differ). Loss at QoS 0 or without durable sessions while the link is down is allowed.")
check("P23", "runtime monitoring: a plugin logs every call, argument, thread and order; random histories are compared line by line with what the clients did and received, concurrent load with reloads, takeovers and kicks is judged by a temporal contract per thread, API requests by their effects (each once), ASan/UBSan",
      "Sampled histories (40 sequential, 30 concurrent broker runs per quick run); order between threads isn't judged.")
check("P22", "runtime monitoring: configuration texts (every parser key with boundary and malformed values, random edits) judged by --test-config, reload of a running broker and start, which must agree; observer of everything new clients see compared with the last accepted text, canary clients with conservation of their messages, ASan/UBSan",
      "About 3000 key/value texts, 1700 random edits and 330 reload rounds per quick run; keys whose effect leaves the scratch directory (rlimit_nofile, unix socket owner) or would blind the monitor (log_file, log_level) are left out.")
check("P28", "runtime monitoring: connections from many loopback addresses, subscriptions of every breadth, retained topic trees and restarts under random policies, judged by reference models (ipaddress, wildcard depth, node sets bounded from both sides), ASan/UBSan",
      "Sampled policies (about 2700 judged requests per quick run). IPv6 sources are limited to ::1, so IPv6 networks vary instead. Which of a rejected topic's prefix nodes remain isn't judged, nor updates of existing topics at the limit.")
