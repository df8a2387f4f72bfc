CORE = "akasa-core/src/"
prop("C01", "Topic routing: a publish reaches exactly the matching subscriptions",
  "At any moment, a message published to a topic matches exactly the subscriptions (client, filter, most recently granted QoS) that are currently in force and whose filter matches the topic under the MQTT rules: `+` one level, `#` the rest including the parent level, empty levels significant, and a leading wildcard never matching a topic that begins with `$`. Subscribing again to the same filter replaces the QoS, and unsubscribing removes that one subscription and leaves every other subscription, including those on parent, child and overlapping filters, in force.",
  ["histories", "inputs"], "every history of subscribe/unsubscribe calls by any clients on any filters, and every topic",
  "The tests walk a few hand-written subscribe/unsubscribe histories; whether removal of one filter disturbs another depends on the shape of the whole table at that moment.",
  [CORE+"protocols/mqtt/route.rs"], [("subscribe / unsubscribe / match on the filter tree", CORE+"protocols/mqtt/route.rs")], ["RouteTable::get_matches after RouteTable::subscribe / unsubscribe"],
  "exhaustive enumeration of operation sequences on the real table against a list model",
  "Every subscribe/unsubscribe history up to depth 5 (thorough 6) over nested and overlapping filters, every pair of filters of up to 3 levels, every single filter against every topic of up to 4 (5) levels, each compared with an independent definition of matching. Assumes the mqtt-proto stand-in for topic strings.",
  "ClientId constructor (cfg akasa_verif)")
prop("C02", "Shared subscriptions: one live member of each group per message",
  "For every message that matches a shared subscription, each share group with members receives it exactly once, through exactly one client that is a member of that group at that moment, at that member's current QoS; clients that left the group (by unsubscribing, or because their session ended) are never chosen and never cause the message to be lost. Over all selector values every current member is chosen equally often, the hash-based modes always choose the same member for the same publisher identifier or topic while membership is unchanged, and plain subscriptions next to the group are unaffected.",
  ["histories", "inputs"], "every history of members joining, re-joining and leaving groups, every selector value and selection mode",
  "The tests join and leave a couple of members in one order; the member list is kept in two mutually indexed containers whose agreement depends on the order of departures.",
  [CORE+"protocols/mqtt/route.rs", CORE+"protocols/mqtt/v5/packet/publish.rs"], [("member list with swap-removal and index", CORE+"protocols/mqtt/route.rs"), ("member selection by mode", CORE+"protocols/mqtt/v5/packet/publish.rs")],
  ["RouteTable::get_matches groups", "PUBLISH packets received by subscribed clients"],
  "exhaustive enumeration of operation sequences on the real table and broker against a set model",
  "Every join/leave history up to depth 6 (7) for four members of one group and depth 4 (5) for overlapping groups, all selector values of a full period; what clients receive of their groups and plain subscriptions in every history to depth 3 (4) of joining, leaving, losing and resuming, for every selection mode and several seeds of it, against the set of all ways the groups may have chosen.",
  "ClientId constructor (cfg akasa_verif)")
prop("C03", "Retained messages: latest per topic, matched by filter, cleared by empty payload",
  "For every topic the broker retains at most one message, the last one published to it with the retain flag and a non-empty payload; an empty retained publish clears it. A new subscription is sent exactly the retained messages whose topics match its filter (a leading wildcard never matching `$` topics), with their content.",
  ["histories", "inputs"], "every history of retained publishes and clears on any topics, and every filter",
  "The tests store and clear a handful of topics; removal prunes tree nodes, which must not affect topics above, below or beside the cleared one.",
  [CORE+"protocols/mqtt/retain.rs", CORE+"protocols/mqtt/v5/packet/publish.rs", CORE+"protocols/mqtt/v3/packet/publish.rs", CORE+"protocols/mqtt/v5/packet/subscribe.rs"],
  [("retained tree insert/remove/match", CORE+"protocols/mqtt/retain.rs")], ["RetainTable::get_matches", "PUBLISH packets after SUBSCRIBE"],
  "exhaustive enumeration of operation sequences on the real store and broker against a map model",
  "Every set/clear history up to depth 4 (5), every topic against every filter of up to 4 (5) levels, every pair of topics.", None)
prop("C05", "Outgoing queue: in order, within the window, never lost, never resent early",
  "Messages queued for a session are offered for sending in the order they were queued, none before the ones ahead of it, and at no time are more messages sent-but-unacknowledged than the in-flight limit. A message stays queued until its handshake is complete, is not offered again before the retransmission timeout or a reconnection, and once completed is never offered again; the queue refuses a message only when it holds its configured maximum.",
  ["histories", "schedules"], "every interleaving of queueing, sending passes, acknowledgements in any order, silences, reconnections and window changes",
  "The tests acknowledge in order and once; the bookkeeping is positional and differs for every acknowledgement order and timing.",
  [CORE+"protocols/mqtt/pending.rs"], [("in-flight window and retransmission", CORE+"protocols/mqtt/pending.rs")], ["PendingPackets::{push_back,get_ready_packet,pubrec,complete,clean_complete,reset_last_sent}"],
  "exhaustive enumeration of operation sequences on the real queue under a virtual clock against a list model",
  "Every sequence up to depth 6 (7) over 14 operations with window 2 and capacity 4, depth 7 (8) with window 1, and with window changes.", None)
prop("C15", "SCRAM server: authenticates exactly a proof for this exchange",
  "The SCRAM-SHA-256 server reports a client as authenticated only after a complete exchange in order whose final message carries this exchange's nonce and channel-binding header and the exact proof derived from the stored credential of the claimed user, and an honest client with the right password is always authenticated and given the correct server signature; one wrong final message ends the exchange. A client that proves its password but asks to act as a different user is refused as not authorised, malformed messages are refused, user names are decoded (`=2C`, `=3D`), and the server's nonce extends the client's with fresh random printable characters.",
  ["histories", "inputs"], "every order of messages, every message text and every corruption of a correct final message, every credential",
  "The 4 unit tests parse a few literal messages; none computes a proof, corrupts one, or calls the machine out of order.",
  [CORE+"protocols/scram/server.rs", CORE+"protocols/scram/mod.rs"], [("server state machine", CORE+"protocols/scram/server.rs"), ("proof and signature derivation", CORE+"protocols/scram/mod.rs")],
  ["ScramServer::{decode_client_first,encode_server_first,decode_client_final,authcid,authzid}"],
  "exhaustive enumeration of message orders and message grammars on the real state machine against an independent RFC 5802 reference",
  "Every message order up to depth 6 (7) over 12 messages and depth 4 (5) over 19, the full client-first grammar product, every single-position corruption and every proof bit. Trusts SHA-256/HMAC/PBKDF2 from ring.", None)
prop("C16", "SCRAM client: completes with an honest server, trusts no other",
  "The SCRAM-SHA-256 client completes with a conforming server for every user name (including `,` and `=`), password, salt and iteration count, and the server sees exactly the user name and authorisation identity the client was given. It reports success only if the server's final message carries the correct signature for this exchange, refuses a server nonce that does not extend its own, malformed or extended first messages and every other order of messages, and never panics on any server message.",
  ["histories", "inputs"], "every user name over the characters SCRAM treats specially, every order of server messages and every corruption of them",
  "No stable test runs the client at all.",
  [CORE+"protocols/scram/client.rs", CORE+"protocols/scram/mod.rs", CORE+"protocols/scram/server.rs"], [("client state machine", CORE+"protocols/scram/client.rs")],
  ["ScramClient::{encode_client_first,decode_server_first,decode_server_final}"],
  "exhaustive enumeration of message orders, names and corruptions on the real client/server pair against an independent reference",
  "Every message order up to depth 6 (7), every name of up to 4 (5) special characters, the server-first grammar product, every corruption of the server-final message.", None)
prop("C17", "PROXY v2 header: exact, checksummed, consumes nothing beyond itself",
  "For every byte stream, the PROXY v2 parser yields a header only if the stream starts with a well-formed v2 PROXY block, with exactly the addresses, ports, transport and (under TLS termination) host name it carries, having consumed exactly the block however the bytes were split into reads; a local block without data is reported as a health check. Anything else is refused without panicking: wrong signature, version, command, family or transport, lengths too short or inconsistent, a checksum that does not match, a failed client-certificate verification, missing SSL or authority fields when TLS is terminated by the proxy, or such fields when it is not.",
  ["inputs", "fault_sequences"], "every header byte string (within the enumerated field domains), every split into reads and every end-of-stream point",
  "The 5 unit tests decode five literal headers delivered in one read.",
  [CORE+"server/proxy.rs"], [("fixed part and address parsing", CORE+"server/proxy.rs"), ("TLV parsing and CRC32C", CORE+"server/proxy.rs")], ["parse_header over a controlled reader"],
  "exhaustive enumeration of header grammars, corruptions and read schedules on the real parser against an independent reference",
  "All 65536 version/family byte pairs around every length boundary, every TLV sequence up to length 5 (6) over 21 fields, every single-bit error of checksummed headers, every pair of read boundaries and every end-of-stream point.", None)
MQ = CORE + "protocols/mqtt/"
BT = "exhaustive enumeration of client operation sequences on the real broker (virtual clock, controlled scheduler) against a reference model"
BA = " Runs the real connection, session and delivery code over in-memory transports; assumes the mqtt-proto stand-in for packet encoding. "
CLIENTS = "PUBLISH/PUBREL packets received by connected clients"
prop("C06", "Delivery to subscribers: at the right QoS, complete, ordered, across drops",
  "A message accepted from a publisher is sent to each matching connected subscriber at the lower of the two QoS levels. At QoS 0 it is sent once; at QoS 1 and 2 it stays owed to the session until the subscriber completes the handshake: it is sent as soon as the in-flight limit allows, in publishing order, re-sent with DUP and the same packet identifier after a reconnection (or a timeout) and never otherwise, PUBREL follows PUBREC under the same identifier, and nothing is sent again once completed or refused. Identifiers in flight are never shared, the in-flight limit (receive maximum) is never exceeded, messages for an offline persistent session wait for it, and only a full queue may drop a message.",
  ["histories", "schedules", "fault_sequences"], "every order of publishes at any QoS, acknowledgements in any order, stray acknowledgements, connection losses, reconnections, window changes and silences, for every pairing of protocol versions",
  "The tests follow single scripted exchanges; what is re-sent after a disconnection depends on which subset of the window was acknowledged and when.",
  [MQ+"pending.rs", MQ+"v5/packet/publish.rs", MQ+"v3/packet/publish.rs", MQ+"v5/packet/common.rs", MQ+"v3/packet/common.rs", MQ+"online_loop.rs", MQ+"v5/message.rs", MQ+"v3/message.rs"],
  [("outgoing queue and window", MQ+"pending.rs"), ("receiving a routed message", MQ+"v5/packet/publish.rs"), ("offline session task", MQ+"v5/message.rs")], [CLIENTS], BT,
  "Every sequence of up to 6 (thorough 7) operations over 9-11, for all four version pairings, plus queue-overflow (7/8) and stray-acknowledgement/timed-resend (5/6) alphabets."+BA, None)
prop("C07", "Inbound QoS 1/2: every accepted message forwarded, QoS 2 exactly once",
  "Every PUBLISH the broker accepts is routed; a QoS 1 PUBLISH is answered by one PUBACK and a QoS 2 one by one PUBREC under its packet identifier. A QoS 2 message is forwarded to subscribers exactly once between its first arrival and its PUBREL, however often it is re-sent and across reconnections of the same session; PUBREL is answered by PUBCOMP and frees the identifier. A different message under an identifier still in use, an unknown PUBREL and exceeding the receive maximum are refused without forwarding anything.",
  ["histories", "fault_sequences"], "every order of first sends, duplicates, identifier reuse, PUBRELs, connection losses and clean or resumed reconnections",
  "The tests send each QoS 2 message once and release it once.",
  [MQ+"v5/packet/publish.rs", MQ+"v3/packet/publish.rs", MQ+"v5/session.rs", MQ+"v3/session.rs"], [("pending incoming QoS 2 identifiers", MQ+"v5/packet/publish.rs"), ("the same for v3", MQ+"v3/packet/publish.rs")], ["acknowledgements to the publisher", CLIENTS], BT,
  "Every sequence of up to 5 (6) operations over 12 and 7 (9) over 7, four version pairings, with and without hooks."+BA, None)
prop("C08", "Session continuity: resumed exactly when it should be, wholly or not at all",
  "CONNACK says session-present exactly when a session of that client identifier and protocol version exists, has not expired and was not ended, and the client did not ask for a clean start. A resumed session has exactly its subscriptions and undelivered messages, including those published meanwhile; a session that is not resumed leaves no trace: no subscription, queued message or packet identifier state. v5 sessions expire after their expiry interval (from CONNECT or replaced in DISCONNECT) of being offline, not before and not while connected; v3 sessions last until a clean session.",
  ["histories", "fault_sequences"], "every order of connects with any clean/expiry setting, subscriptions, publishes, drops, disconnects, takeovers and time passing",
  "The tests do one disconnect and one reconnect each; leftovers and early or late expiry show only for particular histories.",
  [MQ+"v5/packet/connect.rs", MQ+"v3/packet/connect.rs", MQ+"v5/message.rs", MQ+"v3/message.rs", CORE+"state.rs"], [("session lookup and takeover", MQ+"v5/packet/connect.rs"), ("session expiry", MQ+"v5/message.rs")], ["CONNACK session present", CLIENTS], BT,
  "Every sequence of up to 5 (6) operations over 8-13 for v5, v3.1.1 and v3.1 clients, with and without hooks."+BA, None)
prop("C09", "Client registry: counts and ownership follow the connections",
  "The number of clients the broker reports is the number of sessions it keeps and the number online is the number of sessions with a live connection, after every connect, takeover, drop, disconnect, rejected CONNECT and expiry; at most one connection serves a client identifier at a time, a second one closes the first, and a session that ended frees its identifier.",
  ["histories", "schedules"], "every history of connects (clean, persistent, taking over from another connection), failures and expiries",
  "The tests look at counters after one or two connects.",
  [CORE+"state.rs", MQ+"v5/packet/connect.rs", MQ+"v3/packet/connect.rs", MQ+"v5/message.rs"], [("client table and online counter", CORE+"state.rs"), ("takeover", MQ+"v5/packet/connect.rs")], ["GlobalState::{clients_count,online_clients_count}", "CONNACK / end of stream per connection"], BT,
  "Every sequence of up to 5 (6) operations over 9-12, v5 and v3.1.1, with and without hooks."+BA, None)
prop("C11", "Wills: published exactly when the client is lost, once, and only then",
  "A client's will message is published exactly once if its connection ends other than by a normal DISCONNECT: at once, or after its delay interval or at session end, whichever is first; it is not published if the client disconnects normally or reconnects to its session before the delay is over, and a replaced connection's will follows the same rules. It is delivered and retained like any publish with the QoS, retain flag and content given at CONNECT.",
  ["histories", "fault_sequences"], "every order of connects with and without wills and delays, disconnect reasons, drops, takeovers, expiries and time passing",
  "The tests drop one connection and look for one will.",
  [MQ+"v5/message.rs", MQ+"v3/message.rs", MQ+"v5/packet/common.rs", MQ+"v3/packet/common.rs", MQ+"v5/packet/connect.rs"], [("will publication and delay timer", MQ+"v5/message.rs"), ("disconnect handling", MQ+"v5/packet/connect.rs")], [CLIENTS], BT,
  "Every sequence of up to 4 (5) operations over 8-14, four version pairings, with and without hooks."+BA, None)
prop("C18", "Topic aliases: resolve to the topic last bound on this connection",
  "A PUBLISH with an empty topic and an alias means the topic last bound to that alias on the same network connection; aliases start unbound on every connection, and an unbound, zero or too large alias ends the connection. Towards clients the broker uses only aliases up to the client's maximum, and every alias it uses resolves, from what that connection was sent before, to the message's topic, whatever mixture of topics, resends and reconnections occurred.",
  ["histories"], "every order of binding, rebinding and use of aliases in both directions, across resends and reconnections",
  "The tests bind one alias and use it once.",
  [MQ+"v5/packet/publish.rs", MQ+"v5/session.rs"], [("inbound alias table", MQ+"v5/packet/publish.rs"), ("outbound alias assignment", MQ+"v5/packet/publish.rs")], ["topics of messages as a receiving client resolves them"], BT,
  "Every sequence of up to 4 (5) inbound and 6 (7) outbound operations with alias maximum 1 to 3."+BA, None)
prop("C19", "Protocol errors end the offending connection and nothing else",
  "Any malformed or forbidden packet closes the connection that sent it (v5: possibly after a DISCONNECT with an error code), publishes its will, changes nothing else, and leaves every other client and later traffic unaffected; the broker neither panics nor answers such a packet as if it were valid.",
  ["inputs", "histories"], "every violation in the alphabet at every point of every history of up to the depth",
  "The tests send a few invalid packets and do not look at the other clients.",
  [MQ+"online_loop.rs", MQ+"v5/message.rs", MQ+"v3/message.rs", MQ+"v5/packet/publish.rs", MQ+"v5/packet/subscribe.rs"], [("packet dispatch and error replies", MQ+"v5/message.rs"), ("frame reader", MQ+"online_loop.rs")], ["byte streams of the offender and of a bystander"], BT,
  "Every sequence of up to 3 (4) operations over 16 malformed v5 or 17 malformed v3 packets mixed with ordinary traffic."+BA, None)
prop("C24", "v5 subscription options and identifiers are honoured",
  "A v5 subscriber receives its own publishes unless no-local is set, RETAIN as published exactly if it asked for that, retained messages on subscribing as retain-handling says (always, only for a new subscription, never), and with each message exactly the identifiers of its matching subscriptions; the broker sends one copy per publish of a v5 publisher at the highest matching QoS. SUBSCRIBE and UNSUBSCRIBE are answered per filter. Options are those of the last SUBSCRIBE to the filter and survive a session resumption.",
  ["histories", "inputs"], "every order of subscribing with different options to equal and overlapping filters, unsubscribing, publishing and clearing retained messages, and reconnecting",
  "The tests use one option at a time on one subscription.",
  [MQ+"v5/packet/subscribe.rs", MQ+"v5/packet/publish.rs"], [("SUBSCRIBE handling", MQ+"v5/packet/subscribe.rs"), ("matching subscriptions of one client merged", MQ+"v5/packet/publish.rs")], [CLIENTS, "SUBACK / UNSUBACK codes"], BT,
  "Every sequence of up to 4 (5) over 12 operations and 5 (6) over 8 across reconnections. The RETAIN flag of retained messages sent on subscribing is not judged for v5 (the repository's tests pin the broker's own rule)."+BA, None)
prop("C28", "Message expiry: expired messages are not sent, the rest age correctly",
  "A message with an expiry interval that has not been sent when the interval is over is never sent, whatever the version of the subscriber, and neither is a retained one; one sent earlier carries the remaining interval (to v5 subscribers); one already sent once is still completed; messages without an interval, and those behind an expired one, are unaffected.",
  ["histories", "schedules"], "every order of publishes with different intervals, time passing, acknowledgements, connection losses and reconnections",
  "The tests let one message expire once.",
  [MQ+"v5/packet/publish.rs", MQ+"v5/packet/common.rs", MQ+"v3/packet/common.rs", MQ+"retain.rs", MQ+"pending.rs"], [("expiry when sending pending messages", MQ+"v5/packet/common.rs"), ("expiry of retained messages", MQ+"retain.rs")], [CLIENTS], BT,
  "Every sequence of up to 5 (6) operations over 9-11 (v5 and v3.1.1 subscribers, a window of 1 and of 2, intervals from 0 to the maximum) and of up to 4 (5) over 13 with retained messages and wills, with and without hooks."+BA, None)
prop("C31", "Messages cross protocol versions intact",
  "A message published by a client of any supported protocol version (3.1, 3.1.1, 5) reaches matching subscribers of every version with the same topic, payload and effective QoS, v5 properties reaching v5 subscribers unchanged and v3 subscribers not at all; retained messages likewise, and the RETAIN flag is set towards v3 subscribers only for messages sent because of a new subscription.",
  ["histories", "inputs"], "every history of subscribing, publishing and acknowledging by two clients, for mixed version pairs",
  "The tests keep versions apart.",
  [MQ+"v5/packet/publish.rs", MQ+"v3/packet/publish.rs", MQ+"v3/packet/subscribe.rs", CORE+"state.rs"], [("v5 to v3 conversion", MQ+"v3/packet/publish.rs"), ("v3 to v5 conversion", MQ+"v5/packet/publish.rs")], [CLIENTS], BT,
  "Every sequence of up to 4 (5) operations over 12 for three version pairs, with and without hooks."+BA, None)
prop("C20", "Transport independence: what a client receives is the same however I/O is cut",
  "Whatever the transport does within its contract (reads that are short or not ready, writes that are partial or not ready, flushes that wait, the order in which ready tasks run), a connection that stays open is sent exactly the packets, in the order, that an ideal transport would carry, all of them complete and flushed, without further input being needed; a connection that is ending sends a prefix of them ending on a packet boundary, and the session loop neither stalls nor spins.",
  ["schedules", "fault_sequences", "crash_points"], "every placement of short and pending reads, partial and pending writes, pending flushes and task orders in scripted exchanges, for every way the connection can end",
  "The tests use a transport that completes every operation; a lost wakeup or a lost tail needs a partial or pending operation at one particular call.",
  [MQ+"online_loop.rs"], [("session loop: read, write, flush, wakeups", MQ+"online_loop.rs")], ["bytes each client received once every task is idle", "bytes written but never flushed"],
  "deviation-bounded exhaustive exploration of every I/O call outcome and task order on the real broker, against its own run over an ideal transport",
  "Every combination of up to 3 (thorough 4) non-ideal outcomes in small scenarios and 2 (3) in large ones (bursts, packets above the write batch, buffering transports), 22 scenarios with and without hooks. Between deviations the transport becomes ready only when everything else is idle.", None)
prop("C13", "Passwords and the password file: exact check, loss-free format",
  "A password is accepted for a stored credential exactly if hashing it with the credential's algorithm, salt and iteration count gives the stored hash. Loading a password file yields exactly the credentials it lists (the last line for a user wins) or fails as a whole, never a part of them and never with a panic; dumping and loading again gives the same credentials for every user name without line breaks or surrounding white space; a read or write error is reported, never a truncated result. The command line adds, replaces and removes exactly the named user and leaves every other entry as it was.",
  ["inputs", "fault_sequences", "histories"], "every file text over the format's tokens, every credential and candidate password, every split, interruption and failure of reads and writes, every sequence of commands",
  "The tests load one well-formed file; damage shows for particular tokens, names with colons or commas, or I/O failures at a particular call.",
  [MQ+"auth.rs", "akasa/src/main.rs"], [("hash, load and dump", MQ+"auth.rs"), ("insert-password / remove-password", "akasa/src/main.rs")], ["load_passwords / dump_passwords / check_password / hash_password", "akasa insert-password, remove-password"],
  "exhaustive enumeration of file grammars, I/O outcomes, credential products and command sequences on the real code against an independent reference",
  "Every line of a token product, every file of up to 4 (5) lines over 10, every read/write outcome within 2-3 deviations, 4 algorithms x salts x passwords each against every candidate, every command sequence up to depth 4 (5). Trusts the digests of ring; PBKDF2's inherent key equivalences are treated as the same password. The CLI runs with stand-ins for rpassword and serde_yaml.", None)

prop("C10", "Concurrent connections of one client: one survives, nothing hangs",
  "However connections of one client identifier are opened, lost, closed and used at the same time, every CONNECT is answered or its connection closed, at any time at most one connection serves the client, the last admitted one keeps working, no connection that ended keeps the identifier occupied, a clean connection leaves no session behind, every abnormal end publishes the will of that connection exactly once, and the counters agree with what is connected.",
  ["schedules", "histories"], "every order in which the tasks of up to four connections of one client, and the broker's own tasks, take their steps",
  "The tests open one takeover at a time and let it finish; take-over is a conversation between two tasks which may both be ending, or be taken over again, in the middle of it.",
  [CORE+"state.rs", MQ+"online_loop.rs", MQ+"v5/packet/connect.rs", MQ+"v3/packet/connect.rs"],
  [("add_client / take-over conversation", CORE+"state.rs"), ("handing the session over", MQ+"online_loop.rs")], ["CONNACK, DISCONNECT and connection close of each connection", "wills received by a watching client", "GlobalState::{clients_count, online_clients_count}"],
  "stateless exploration of task interleavings of the real broker (every choice of the next runnable task within a deviation bound)",
  "Every batch of up to 3 concurrent events (7 kinds, 4 starting situations, v3/v5, with and without hooks) within 3 (4) deviations of the task order, every two batches of 2 events within 1 (2)."+BA, None)
prop("C12", "Keep alive: a silent client is dropped in time, an active one never",
  "A connected client is disconnected, with its will published, when it sends nothing for one and a half times its keep alive period, and not before; only complete packets from the client count as activity, a keep alive of zero is never enforced, a keep alive below the server's minimum is raised to it and the client told so (v5), and the timer of one connection never ends another connection of the same client.",
  ["histories"], "every sequence of traffic, silences, reconnections and take-overs, for every relation of the periods involved",
  "The tests wait for one time-out; whether a timer survives its connection or is re-armed wrongly depends on the sequence of traffic and reconnections before it.",
  [MQ+"common.rs", MQ+"v5/message.rs", MQ+"v3/message.rs"], [("start_keep_alive_timer", MQ+"common.rs")], ["connection close, CONNACK Server Keep Alive", "wills received by a watching client"],
  BT, "Every sequence up to depth 5 (6) of traffic, silences, partial packets, reconnections and take-overs under 5 keep-alive settings and both protocols."+BA, None)
prop("C14", "Admission: only clients with valid credentials are connected",
  "With authentication enabled, a CONNECT is accepted exactly if it carries a user name and the exact password stored for it, or completes an enhanced authentication exchange for a configured method with the right proof; without authentication every well-formed CONNECT is accepted. A refused or unfinished attempt is answered with the error the specification assigns and closed, has no effect on sessions, subscriptions or wills, and re-authentication keeps the connection only if it succeeds as the same user.",
  ["inputs", "histories"], "every combination of configuration, user name, password and method, and every order of authentication messages",
  "The tests try one right and one wrong password; enhanced authentication is a state machine whose wrong orders are never tried.",
  [MQ+"auth.rs", MQ+"v5/packet/connect.rs", MQ+"v5/message.rs", MQ+"v3/packet/connect.rs"], [("check of user name and password", MQ+"auth.rs"), ("enhanced authentication", MQ+"v5/packet/connect.rs")], ["CONNACK / AUTH / DISCONNECT packets and their reason codes", "existing session of the claimed client identifier"],
  "exhaustive enumeration of credential products and authentication message sequences on the real broker against an independent reference",
  "Every combination of 3 protocol versions, user names, passwords, stored algorithms and settings; every AUTH exchange up to depth 4 (5) over correct, wrong, repeated and out-of-order messages."+BA, None)
prop("C29", "Configured limits: announced, and enforced on every packet",
  "What the broker announces in CONNACK (maximum QoS, retain, wildcard, shared and identifier availability, receive maximum, maximum packet size, topic alias maximum, session expiry, keep alive, assigned identifier) is what its configuration says and what it does: granted QoS never exceeds the maximum; a publish or will above it, a packet above the maximum size, an unavailable filter kind or identifier is refused with the error specified for it and without other effect; retained messages are sent to a v5 subscriber exactly if retain is available; a session never outlives the configured maximum.",
  ["histories", "configurations"], "every combination of limits with every history of publishes, subscriptions and reconnections that reach them",
  "The tests set one limit and violate it once, with the default of every other.",
  [MQ+"v5/packet/connect.rs", MQ+"v5/packet/publish.rs", MQ+"v5/packet/subscribe.rs", MQ+"v3/packet/publish.rs", MQ+"v3/packet/subscribe.rs", MQ+"v5/message.rs"], [("limits announced", MQ+"v5/packet/connect.rs"), ("limits enforced on publishes", MQ+"v5/packet/publish.rs"), ("limits enforced on subscriptions", MQ+"v5/packet/subscribe.rs")], ["CONNACK properties", "SUBACK / PUBACK / DISCONNECT codes", CLIENTS], BT,
  "Every sequence of up to 4 (5) operations for each maximum QoS x retain setting and v3.1.1/v5, 5 (6) for packet sizes; every CONNACK compared in full. Retained publishes with retain unavailable are accepted and not kept (the repository's tests pin that)."+BA, None)
prop("C32", "A client's own limits are respected: packet size, aliases, receive maximum",
  "The broker never sends a v5 client a packet longer than its Maximum Packet Size, never more unacknowledged QoS>0 messages than its Receive Maximum, and never an alias above its Topic Alias Maximum; a message too large for one client is dropped for that client alone, as if delivered, and delays nothing else.",
  ["histories", "inputs"], "every history of messages around the limit, retained or not, from v3 and v5 publishers, with losses and resumptions under different limits",
  "The tests use no client limit with messages on both sides of it.",
  [MQ+"v5/packet/publish.rs", MQ+"v5/packet/common.rs", MQ+"v5/packet/connect.rs"], [("sending to a v5 client", MQ+"v5/packet/publish.rs"), ("resending pending messages", MQ+"v5/packet/common.rs")], ["length of every packet received", CLIENTS], BT,
  "Every sequence of up to 5 (6) operations over messages around the limit, aliases, retained messages and reconnections, v5 and v3.1.1 publishers."+BA, None)
prop("C21", "Hooks: called exactly once per event, obeyed, and nothing else waits",
  "Every enabled hook is called exactly once per event, in order (before, the event's effect, after), with the client, the packet and the bytes the client sent; a disabled one is never called. A refusal is answered with the given code (CONNACK; v5 PUBACK, PUBREC, SUBACK, UNSUBACK; other v3.x requests end the connection) and the event has no effect; a failing before hook ends the connection without the event's effect; a rewritten packet is the one processed; the actions an after hook returns (publish, subscribe without retained messages, unsubscribe) are carried out exactly once, in order. While a hook is undecided its client's later packets and a take-over of its session wait, and other clients are served.",
  ["histories", "schedules", "configurations"], "every sequence of events, each with every answer its hooks can give, including none yet while other things happen, for every combination of enabled hooks",
  "The tests only use a hook that allows everything at once; a wrong code, lost action or call out of place shows for one answer at one stage.",
  [CORE+"hook.rs", MQ+"online_loop.rs", MQ+"v5/message.rs", MQ+"v3/message.rs"], [("hook requests and their answers", CORE+"hook.rs"), ("waiting for a hook in the session loop", MQ+"online_loop.rs"), ("connect and disconnect hooks, actions", MQ+"v5/message.rs"), ("the same for v3.x", MQ+"v3/message.rs")], ["calls a scripted hook records", CLIENTS, "client counters"], BT,
  "Trees over 85 event-and-answer pairs from three starting points (depth 2, thorough 3; 3, thorough 4 over 50 pairs) for each version and kind of session; every combination of enabled hooks. Whether the end of a connection whose after-connect hook failed is reported is left open, and so is a delivery routed before an action unsubscribed.", None)
SV = CORE + "server/"
prop("C22", "Configuration: accepted exactly if valid, loss-free, served as written",
  "A configuration is accepted exactly if it can be served (limits in range and consistent, listeners and authentication mechanisms complete), whatever combination of values it has; every accepted configuration serves clients and delivers messages at every QoS. Written as text and read back a configuration is unchanged, absent values take the documented defaults, and a value of the wrong kind or out of range is an error, never a panic or a silent change. A server started with a valid configuration listens on exactly the addresses it lists; one that cannot start says so and exits instead of serving partly.",
  ["configurations", "inputs"], "every combination of limits, mechanisms and listeners; every value or pair of values of every setting; every set of listeners and what can be wrong with one",
  "The tests use the default configuration with one or two settings changed; whether a combination is refused or leaves the broker unable to deliver shows only for that combination.",
  [CORE+"config.rs", SV+"mod.rs", SV+"rt.rs"], [("Config::is_valid and defaults", CORE+"config.rs"), ("start of the listeners", SV+"rt.rs")], ["Config::is_valid, its serialised text", "CONNACK and PUBLISH packets under the configuration", "listening sockets and exit status of the real process"],
  "exhaustive enumeration of configuration products and of configuration texts on the real code, and of server starts of the real process, against an independent definition of validity",
  "5.5 million configurations for validity; a product of limits each serving a v5 and a v3.1.1 client; every leaf with every value, every pair of leaves; every set of listeners x port reuse x what is wrong with one, as real processes over loopback. serde_yaml is a stand-in (JSON syntax); the schema is akasa's serde code.", None)
prop("C23", "WebSocket transport: the packets are what the binary messages say",
  "Over WebSocket the broker receives exactly the bytes of the binary messages, however packets are divided into messages and frames, and sends its packets in binary messages. A ping is answered by a pong with its payload, between the frames of a message too; a close is answered and ends the connection, as does an unmasked, text, fragmented control, oversized control or otherwise invalid frame, with the client's will published. The upgrade is accepted exactly for a correct handshake request offering the mqtt subprotocol, however it is split, and a client that stops reading or sends garbage affects nobody else.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every sequence of frames, fragments, control frames and closes around ordinary traffic; every shape and cut of the upgrade request; every outcome of the transport's reads, writes and flushes within the deviation bound",
  "No stable test uses WebSocket; the repository's own tests send one message per frame over an ideal transport.",
  [SV+"mod.rs"], [("handle_accept: upgrade and stream", SV+"mod.rs")], ["frames and packets sent to the client", "wills and messages received by a bystander"],
  "exhaustive enumeration of frame sequences, handshake shapes and transport outcomes on the real broker and WebSocket layer against an independent RFC 6455 codec and the reference behaviour",
  "Every sequence of up to 3 (4) frames over 35 for v5 and v3.1.1, 2 (3) over TLS and for v3.1, one at a time and in one go; the full product of upgrade request fields and every cut of it; payload sizes x frames per message; 2 (3) deviations of the transport; every point at which the client stops reading."+BA, None)
prop("C25", "Connection set-up is bounded: a client that stalls is dropped",
  "Whatever layers a listener has (PROXY, TLS, WebSocket) and wherever in them a client stalls or trickles, its connection is closed at the connect timeout after it was accepted unless a complete CONNECT has arrived by then, and not before; a client whose CONNECT is complete in time is served and never closed by that timeout, and a stalled one holds no session, counts as no client, and delays nobody.",
  ["fault_sequences", "schedules", "inputs"], "every byte at which the client can stall in every stack of layers and protocol version, and every continuation (silence, more bytes, end of stream, the rest in time or too late)",
  "The repository's test stalls once, before the first byte of a plain connection.",
  [SV+"mod.rs", MQ+"v5/packet/connect.rs", MQ+"v3/packet/connect.rs", MQ+"online_loop.rs"], [("connect timeout around the set-up layers", SV+"mod.rs")], ["time at which the connection is closed", "CONNACK", "GlobalState::{clients_count, online_clients_count}"],
  "exhaustive enumeration of stall points x continuations on the real accept path under a virtual clock",
  "Every layer stack (PROXY none/normal/TLS termination x TLS x WebSocket) x v5/v3.1.1/v3.1/SCRAM x every byte of the set-up x 5 continuations; and every number of bytes the client takes before it stops reading. A socket that accepts no byte at all while CONNACK is written is not judged."+BA, None)
prop("C26", "HTTP interface: health, and a gauge of the connected clients",
  "The HTTP listener answers the documented paths and methods and nothing else, the metrics path only if it is enabled, and the gauge it reports is at every moment the number of connected clients, after every history of connects, refusals, takeovers, losses, errors and time-outs, in the exposition format.",
  ["histories", "inputs"], "every history of connections of two clients, every path and method",
  "The tests ask for the gauge once at most.",
  [CORE+"protocols/http/mod.rs", CORE+"protocols/http/prometheus.rs", SV+"http_api.rs", SV+"rt.rs", CORE+"state.rs"], [("handlers and gauge", CORE+"protocols/http/prometheus.rs"), ("HTTP listener", SV+"rt.rs")], ["HTTP responses"],
  "exhaustive enumeration of connection histories and requests on the real broker and its HTTP service; real process over loopback",
  "Every history of up to 5 (6) operations over 18, the gauge read after each; every path x method with and without metrics; 16 configurations of the real process.", None)
prop("C27", "A client that does not read delays only what it must",
  "While a client does not read, senders to it may have to wait, but nothing owed to anyone is lost or reordered, clients that do read stay served as far as they do not depend on it, and nobody waits for ever: once it reads again, is lost, disconnects or is taken over everything owed is delivered, its wills and counters follow, and a connection that is closing does so in bounded time whether or not its client reads.",
  ["schedules", "fault_sequences", "histories"], "every order of bursts in both directions, stalls, resumptions, losses, disconnections and take-overs between two clients, either or both not reading",
  "The tests use clients that always read; back pressure reaches the session loops only when buffers of every layer are full.",
  [MQ+"online_loop.rs", MQ+"v5/message.rs", MQ+"v3/message.rs", MQ+"v5/packet/publish.rs", CORE+"state.rs"], [("broadcast_packets, write back pressure", MQ+"online_loop.rs"), ("handing over the last messages", MQ+"online_loop.rs")], [CLIENTS, "connection close", "GlobalState::{clients_count, online_clients_count}"], BT,
  "Every sequence of up to 4 (5) operations over 20 (3 (4) with hooks) from each of: both reading, one not reading, neither reading; v5 and v3.1.1."+BA, None)
prop("C30", "Listener stacks: served exactly as configured, known by the real address",
  "A listener serves exactly the clients that speak the stack it is configured with - PROXY header or none, TLS or none, WebSocket or none - and, if it verifies client certificates, exactly those presenting a certificate valid for its authority (or none, if that is optional) with the matching key; anyone else is closed without reaching MQTT. The address the broker knows a client by, as hooks see it, is that of the PROXY header where one is required and the socket's own otherwise.",
  ["configurations", "inputs"], "every listener configuration against every client stack, header and certificate; every kind of header and how it is cut",
  "No stable test opens a listener; the repository's own tests connect over plain TCP with one good certificate.",
  [SV+"mod.rs", SV+"rt.rs", SV+"proxy.rs", CORE+"config.rs"], [("accept path: PROXY, TLS, WebSocket", SV+"mod.rs"), ("TLS listener and client verification", SV+"rt.rs")], ["CONNACK or close over real sockets", "peer address given to hooks"],
  "exhaustive enumeration of configuration x client products on the real process over loopback and on the real accept path",
  "20 listener kinds as real processes x 4 PROXY headers x 9 TLS clients (good, foreign, wrong purpose, expired, not yet valid, mismatched key, none, no TLS) x WebSocket or not; 11 header kinds x 2 versions x 3 cuts. Trusts the TLS library.", None)
prop("C04", "Clients in parallel: the outcome is that of one after the other",
  "Clients are served on several threads. Whatever they do at the same time - subscribe, unsubscribe, publish, retain, connect, take over, leave - everything every client receives, what is subscribed, retained and connected afterwards is what some order of these operations, one after the other, leads to (a message stored while somebody subscribes may reach him as the stored one, as a new one, or both); a message for a group reaches exactly one member unless one is coming or going; one publisher's messages arrive in order; no thread panics and none waits for ever.",
  ["schedules"], "every interleaving of the threads at lock and channel operations within a bound on preemptions, for every pair and triple of operations from every initial set of subscriptions",
  "The tests run whole operations one after the other or leave the interleaving to chance; a lock released between looking something up and using it fails only for one switch in thousands.",
  [CORE+"state.rs", MQ+"route.rs", MQ+"retain.rs", MQ+"online_loop.rs", MQ+"v5/packet/publish.rs", MQ+"v5/packet/subscribe.rs", MQ+"v3/packet/publish.rs", MQ+"v3/packet/subscribe.rs"], [("locks of the route table", MQ+"route.rs"), ("client registry", CORE+"state.rs"), ("matching and sending", MQ+"v5/packet/publish.rs")], ["packets received by every client, before and after", "route table, retained messages, client counts"],
  "stateless exploration of thread interleavings of the real broker under a controlled scheduler (preemption-bounded), compared with every sequential order of the same operations on the same code",
  "Pairs of 11 x 18 operations from every initial set of subscriptions, v5 and mixed, with 1 (2) preemptions; two messages in a row with 1; triples with every order of whole runs (1 preemption). Threads hand over where a lock is taken or a channel used: code between two such points runs undivided, which is sound for data behind locks; atomics are not split (memory is sequentially consistent). Timers do not run during the race."+BA, None)
