# ---------------------------------------------------------------- codec
PBT = "property-based testing against an independent reference codec"
CODEC = ["vaux-mqtt/src/codec/mod.rs", "vaux-macro/src/encode.rs", "vaux-macro/src/decode.rs",
         "vaux-macro/src/size.rs", "vaux-mqtt/src/property.rs"]
PACKETS = ["vaux-mqtt/src/connect.rs", "vaux-mqtt/src/connack.rs", "vaux-mqtt/src/publish.rs",
           "vaux-mqtt/src/pubresp.rs", "vaux-mqtt/src/subscribe.rs", "vaux-mqtt/src/unsubscribe.rs",
           "vaux-mqtt/src/disconnect.rs", "vaux-mqtt/src/will.rs"]
NOTE = "Random search: no violation among the generated cases, counts and samples in the evidence. Trusts the reference codec in harness/src/refcodec.rs, written from the OASIS text."

add("C01", "Encoding and decoding are inverse, and both are MQTT 5",
    "Encoding any packet the API can express yields exactly the bytes MQTT 5 prescribes for it, and decoding the MQTT 5 encoding of any packet yields that packet with every field and property intact. Decoding what was encoded gives back an equal packet.",
    ["inputs"], "all packets of the 14 implemented types, every subset, order and multiplicity of their properties, strings and data of any length",
    "The tests round-trip a few hand-written packets with one or two properties each; the combinations of properties, flags, optional fields and length boundaries are not sampled.",
    CODEC + PACKETS,
    [("derive macros for encode, decode and size", "vaux-macro/src/lib.rs"), ("packet dispatch", "vaux-mqtt/src/codec/mod.rs")],
    NOTE, technique=PBT + " (round trip and differential)")
add("C02", "Announced lengths equal the bytes written, oversized fields are refused",
    "The remaining length and every property length written are exactly the number of bytes that follow, the size a packet announces equals its encoding, and lengths use the minimal form. A packet with a field or a total length the format cannot represent is refused with an error instead of being written wrongly.",
    ["inputs"], "all packets, fields around and above 65,535 bytes, packets around and above 268,435,455 bytes",
    "Sizes are computed by code separate from the encoder, field by field; the tests compare them for single packets only.",
    CODEC + PACKETS,
    [("size calculation generated per field", "vaux-macro/src/size.rs"), ("variable byte integers", "vaux-mqtt/src/codec/mod.rs")],
    NOTE, technique=PBT + " (measured sizes)")
add("C03", "Decoding is total: any bytes give a packet or an error",
    "Given any sequence of bytes the decoders return a packet or an error: they never panic, loop, overflow, or report having read more bytes than they took.",
    ["inputs"], "all byte sequences, in particular truncated, edited and hostile ones",
    "A decoder of network input must hold for every byte string; the tests give it a handful of well-formed ones.",
    CODEC + PACKETS,
    [("checked reads of the buffer", "vaux-mqtt/src/codec/mod.rs"), ("generated decoders", "vaux-macro/src/decode.rs")],
    "Random and mutation based search, with overflow checks and debug assertions on. Inputs up to about 5 kB.",
    technique="structure-aware mutation fuzzing and random input generation, panic/hang oracle")
add("C04", "Packets are framed exactly: prefixes wait, sequences split",
    "A cut-off packet is reported as needing more data, never as a packet or a fatal error, and a complete packet is never reported as incomplete. Decoding consumes exactly one packet, so that any sequence of packets in one buffer is taken apart into the same packets.",
    ["inputs", "histories"], "all sequences of packets and all positions at which the bytes received so far may end",
    "The split positions and packet combinations grow with every field; tests use one packet per buffer and few truncations.",
    CODEC,
    [("fixed header and remaining length check before the body", "vaux-mqtt/src/codec/mod.rs")],
    NOTE, technique="property-based testing: every-prefix and concatenation metamorphic relations")
add("C05", "Malformed packets are refused",
    "Packets the standard calls malformed are refused with an error: wrong flags, reserved bits and QoS 3, invalid UTF-8, unknown, misplaced or repeated properties, zero identifiers, lengths that do not fit, missing filters, wrong protocol names, unknown reason codes. Valid packets are not refused.",
    ["inputs"], "all malformed variations of all valid packets, and all edits of them that stay valid",
    "The tests cover a few error paths by hand; which byte of which field is broken is open ended.",
    CODEC + PACKETS,
    [("length accounting and validation in the decoders", "vaux-mqtt/src/codec/mod.rs"), ("property dispatch", "vaux-macro/src/decode.rs")],
    NOTE + " Leniencies that are not judged are listed in DESIGN.md.", technique="mutation fuzzing, differential against a strict reference decoder")
add("C06", "Whatever is accepted keeps its meaning",
    "If the decoder accepts bytes from the network, encoding the decoded packet again gives a valid packet of the same meaning: nothing is dropped, added or reinterpreted.",
    ["inputs"], "all byte sequences the decoder accepts",
    "Needs arbitrary accepted inputs, including odd but valid ones no test author writes down.",
    CODEC + PACKETS,
    [("generated decoders and encoders", "vaux-macro/src/lib.rs")],
    NOTE, technique="mutation fuzzing with a decode-encode-decode oracle and a reference codec")
add("C07", "Packet setters and getters agree with what is sent",
    "After any sequence of constructor and setter calls a packet reads back what was last set, an operation that is refused changes nothing, and encoding the packet sends exactly the state the getters show.",
    ["histories", "inputs"], "all sequences of calls to the packet building API with any arguments",
    "Setters interact through shared flag bytes and optional fields (QoS, DUP, packet identifier, will, user name, password); tests call one or two of them.",
    PACKETS + ["vaux-mqtt/src/property.rs"],
    [("flag bits in one byte", "vaux-mqtt/src/publish.rs"), ("connect flags", "vaux-mqtt/src/connect.rs"), ("subscription options", "vaux-mqtt/src/subscribe.rs")],
    "Stateful model-based random search over call sequences of up to 24 calls, compared with a model after every call and with the reference decoding at the end.",
    technique="stateful model-based testing of the packet API")
add("C08", "Variable byte integers are exact over their whole range",
    "Every value up to 268,435,455 encodes to its minimal form, whose size is the one announced, and decodes back consuming exactly those bytes; larger values are refused by the encoder, five byte or cut-off forms by the decoder.",
    ["inputs"], "all 268,435,456 values and all byte sequences",
    "Tests check boundary values; remaining lengths and subscription identifiers use the whole range.",
    ["vaux-mqtt/src/codec/mod.rs"],
    [("variable byte integer functions", "vaux-mqtt/src/codec/mod.rs")],
    "Random blocks of consecutive values cover the range statistically (the thorough tier covers a large part of it); arbitrary bytes for the decoder.",
    technique="property-based testing over value blocks against the arithmetic definition")

# ---------------------------------------------------------------- streams
STREAM = ["vaux-async/src/stream/packet.rs", "vaux-async/src/stream/mod.rs", "vaux-async/src/lib.rs"]
SNOTE = "Random search over byte schedules on real loopback sockets, plain and TLS. Trusts the reference codec and the operating system's sockets."
add("S01", "Packets arrive whole and in order however the bytes arrive",
    "Whatever way the bytes of a sequence of packets are cut into reads, a packet stream delivers exactly these packets, in order, each once. An end of the stream between packets is reported as an orderly end, one inside a packet as an error, and invalid bytes as an error after the valid packets before them. A read that is cancelled loses nothing.",
    ["schedules", "inputs", "fault_sequences"], "all packet sequences, all ways to cut them into segments, all buffer sizes, cancellation of reads at any point, end or reset of the connection at any byte",
    "Tests write whole packets over a local socket where each read returns everything; short reads, coalesced packets and ends inside a packet are schedules they do not produce.",
    STREAM, [("read buffer and partial packet handling", "vaux-async/src/stream/packet.rs")], SNOTE,
    technique="property-based testing of byte schedules against the sequence sent")
add("S02", "Packets are written completely and in order",
    "When a write of a packet has completed, exactly its bytes have been handed to the connection, after those of the packets written before, without waiting for a later write, on plain and TLS connections and however slowly the peer reads. Bytes written and packets read in both directions do not disturb each other.",
    ["schedules", "inputs"], "all packet sequences and sizes, all speeds of the reader, plain and TLS connections",
    "Tests write small packets which the socket takes in one piece; partial writes and data retained by TLS need large packets and slow readers.",
    STREAM, [("write loop and flush", "vaux-async/src/stream/packet.rs")], SNOTE,
    technique="property-based testing with slow readers and small buffers against the bytes expected")
add("S03", "Packets above the maximum size are refused, all others pass",
    "A packet stream with a maximum packet size accepts every packet up to that size and refuses every larger one with an error, whatever the initial buffer size and however the bytes are cut, without waiting for the rest of the packet.",
    ["inputs", "schedules", "configurations"], "all maximum and initial buffer sizes, all packet sizes around them, all segmentations",
    "The interplay of the buffer growing, what is left over from earlier packets and the limit depends on sizes tests do not vary.",
    STREAM, [("buffer growth and packet size limit", "vaux-async/src/stream/packet.rs")], SNOTE,
    technique="property-based testing of sizes around the limit")

# ---------------------------------------------------------------- broker
BROKER = ["vaux-broker/src/lib.rs", "vaux-broker/src/session.rs", "vaux-broker/src/topic.rs", "vaux-broker/src/config.rs"]
BNOTE = "Stateful random search: histories of client operations run against the real broker through loopback sockets, its clock moved by the case; every packet every client receives is compared with a model. One broker thread, so interleavings inside the broker are limited to those the arrival order of packets causes, except where noted. Trusts the model in harness/src/bsim.rs."
MBT = "stateful model-based testing of the broker through loopback sockets"
add("B01", "Messages go to exactly the matching subscribers, unchanged",
    "A message published to a topic is delivered to every connected client with a subscription matching by the MQTT rules (wildcards, empty levels, $-topics) and to nobody else, except that no-local subscriptions exclude the publisher. It arrives with its topic, payload and properties unchanged, at the lower of the published and the granted QoS, once per matching subscription at most.",
    ["inputs", "histories"], "all topic names, filters, subscription sets, payloads and properties",
    "Tests publish to a few literal topics; matching is a relation over all pairs of topics and filters, and depends on all subscriptions present at once.",
    BROKER, [("topic tree", "vaux-broker/src/topic.rs"), ("routing to sessions", "vaux-broker/src/lib.rs")], BNOTE,
    technique=MBT + ", matching rules of the standard as oracle")
add("B02", "Subscriptions begin, change and end exactly when acknowledged",
    "From its SUBACK on a subscription receives messages, until its UNSUBACK, a new subscription to the same filter which replaces it, or the end of its session. SUBACK and UNSUBACK answer every filter, in order, with what was done about it; invalid filters are refused and disturb nothing.",
    ["histories", "inputs"], "all histories of subscribing, unsubscribing, publishing, disconnecting and resuming by several clients with overlapping filters",
    "Removing one filter must leave overlapping and sibling filters of all clients intact; tests unsubscribe from one topic.",
    BROKER, [("subscribe and unsubscribe in the topic tree, pruning", "vaux-broker/src/topic.rs")], BNOTE, technique=MBT)
add("B03", "Messages keep their order, and a slow subscriber misses none in between",
    "Each subscriber receives the messages of one publisher to one topic at one QoS in the order they were sent. One that reads too slowly may be disconnected when its queue is full, but what it received until then is everything due to it from the start, without gaps.",
    ["schedules", "histories"], "all amounts and sizes of messages, speeds of readers, queue sizes and interleavings of publishers and subscribers on several threads",
    "Order and gaps under load depend on the schedule and on how full queues and socket buffers are; tests send single messages.",
    BROKER, [("delivery to the channels of sessions", "vaux-broker/src/lib.rs"), ("session control channels", "vaux-broker/src/session.rs")], BNOTE, technique="load generation with random schedules on several threads, invariants on what is received")
add("B04", "QoS 1 messages are acknowledged, and repeated until they are",
    "Every QoS 1 message published is answered by PUBACK with its packet identifier. Every QoS 1 message delivered but not acknowledged is delivered again when the session is resumed, with DUP set, the same packet identifier and in the original order, and never after it was acknowledged; identifiers are not 0 and not used twice at the same time.",
    ["histories", "fault_sequences"], "all histories of publishing, acknowledging in any order, connection loss at any point and resumption",
    "Which messages are outstanding depends on the whole history of deliveries, acknowledgements and reconnections; tests check one message.",
    BROKER, [("unacknowledged messages and packet identifiers of a session", "vaux-broker/src/session.rs")], BNOTE, technique=MBT)
add("B05", "Sessions last exactly as negotiated",
    "A session is resumed, with its subscriptions, if its client reconnects without clean start before the session expired, and session present says so; otherwise a fresh session without anything of the old one is created. A session ends when its expiry interval, possibly changed by DISCONNECT, has passed since the connection ended, at once if there is none.",
    ["histories", "configurations"], "all histories of connecting with any clean start and expiry, disconnecting in any way, and time passing",
    "Needs control over time and histories of several connections of the same and of other clients.",
    BROKER, [("session pool", "vaux-broker/src/session.rs"), ("CONNECT handling", "vaux-broker/src/lib.rs")], BNOTE, technique=MBT + " with a controlled clock")
add("B06", "A client identifier has one connection at a time, the newest",
    "When a client connects with the identifier of a connected client, the older connection is told Session taken over and closed, and the newer one works, with the session's state if it is resumed. The ending of the older connection neither harms the newer one nor leaves anything behind, whichever end notices first.",
    ["histories", "schedules"], "all histories and schedules of connections with the same identifier, takeover while messages are delivered or the old connection is closing",
    "Takeover races with the close of the old connection; tests take over one idle connection.",
    BROKER, [("takeover, connection ownership", "vaux-broker/src/session.rs")], BNOTE, technique=MBT)
add("B07", "Wills are published exactly when, and only if, they are due",
    "The will of a client is published once, unchanged, when its connection ends in any way but a normal DISCONNECT, after its delay or at the end of its session, whichever comes first. It is not published if the client disconnects normally or resumes the session before it is due.",
    ["histories", "fault_sequences"], "all ways a connection can end, all will properties, delays and session expiry intervals, reconnection and takeover at any time",
    "There are many ways for a connection to end, times for a client to come back, and combinations of delay and expiry; tests cover a few.",
    BROKER, [("will handling when a connection ends", "vaux-broker/src/lib.rs")], BNOTE, technique=MBT + " with a controlled clock")
add("B08", "Silent clients are disconnected, and only those",
    "A client from which nothing was received for one and a half times the keep alive in force is disconnected then, its will published and its session released; a client that sent anything within that time stays connected, however much was delivered to it. A keep alive of zero never expires.",
    ["histories", "configurations"], "all keep alive values and server limits, all timings of packets sent and received by several clients",
    "Depends on exact timing over histories with traffic in both directions; tests wait for one timeout.",
    BROKER, [("keep alive timer", "vaux-broker/src/lib.rs")], BNOTE, technique=MBT + " with a controlled clock")
add("B09", "The limit on active sessions is exact and places are given back",
    "A broker with a maximum of active sessions accepts a client exactly if fewer are connected or it takes over its own connection, and refuses others with Quota exceeded. Every way a connection can end gives its place back.",
    ["histories", "configurations"], "all histories of connecting, refusing, taking over, expiring and disconnecting in any way, all limits",
    "A place is lost or gained twice only in particular orders of events; tests fill the broker once.",
    BROKER, [("active session accounting", "vaux-broker/src/session.rs")], BNOTE, technique=MBT)
add("B10", "Hostile, broken and stalled clients harm nobody else",
    "Whatever a client sends or fails to send or read, the broker keeps serving all other clients and accepting new ones, and deals with the offender itself in bounded time: its keep alive, takeover and will work as for any other client.",
    ["inputs", "fault_sequences", "schedules"], "all byte sequences and stall points of a client, before and after CONNECT",
    "Requires peers that break the protocol, stop reading with full buffers or send garbage; tests use well-behaved clients.",
    BROKER + STREAM, [("per connection task", "vaux-broker/src/lib.rs"), ("bounded writes and session channels", "vaux-broker/src/lib.rs")],
    BNOTE, technique="fault injection with generated hostile clients, invariants on the others")
add("B11", "CONNACK announces what is then in force",
    "CONNACK gives the keep alive and the session expiry the broker will apply if they differ from those requested, within the configured limits, and an identifier no other client has if the client sent none; these values are what the broker then enforces.",
    ["inputs", "configurations"], "all requested keep alive and expiry values and configured limits",
    "The enforced and the announced value are computed separately; agreement needs all combinations around the limits and waiting for the timeouts.",
    BROKER, [("negotiation", "vaux-broker/src/lib.rs"), ("configuration", "vaux-broker/src/config.rs")], BNOTE, technique=MBT + " with a controlled clock")
add("B12", "Connections that break the protocol are closed, with nothing routed",
    "A connected client that sends what the protocol forbids (a second CONNECT, packets only servers send, malformed packets, wildcards in a topic name, topic aliases that were not offered) is disconnected and its will published, and what it sent is not acted upon. The same holds for connections that do not start with a valid CONNECT.",
    ["inputs", "histories"], "all violations at all points of a history",
    "Each violation is possible in every state; tests send valid packets.",
    BROKER, [("packet dispatch", "vaux-broker/src/lib.rs")], BNOTE, technique=MBT)
add("B13", "A broker can be stopped, started and reconfigured at any time",
    "A broker that is stopped or dropped accepts no connection any more and gives its address free, while the connections it has keep working. It can run again, with the sessions it had; running fails if the address is in use and succeeds when it is free. A changed limit on session expiry is in force for every CONNECT after it, and any configured channel size works.",
    ["histories"], "all sequences of run, stop, drop, reconfiguration, connections and messages",
    "Tests start one broker and leave it; what a stop must not touch depends on what goes on at that time.",
    BROKER, [("run, stop, set_session_expiration", "vaux-broker/src/lib.rs")],
    "Stateful random search with the real broker over loopback sockets and 1 to 3 threads. Trusts the model in harness/src/props/life.rs.", technique=MBT)
add("B14", "Subscribers get no more and no larger packets than they accept",
    "At no time are more QoS 1 and 2 messages unacknowledged than the Receive Maximum of the subscriber's CONNECT allows, deliveries of a resumed session included; those held back follow, in order, as acknowledgements make room, and requests are answered meanwhile. Messages larger than its Maximum Packet Size are not sent and do not hold up others, all up to it are sent.",
    ["histories", "inputs"], "all sequences of messages, acknowledgements in any order and resumptions, all limits, sizes at and around the limit",
    "Both limits bind only in particular states: a full window, a resumed session with other limits, a message of exactly the limit.",
    BROKER, [("outgoing messages of a connection", "vaux-broker/src/lib.rs")],
    "Stateful random search with the real broker over loopback sockets and 1 to 3 threads. Trusts the model in harness/src/props/flow.rs.", technique=MBT)
add("B15", "What has ended leaves nothing behind in the broker",
    "Connections, sessions and subscriptions that have ended leave nothing behind: however many clients have connected, subscribed, published, been taken over and gone, with whatever names, after their sessions have expired the broker keeps no task and no memory for them. What it needs is bounded by what is there, not by what has been.",
    ["histories"], "all histories of connections, sessions, subscriptions, wills and messages, repeated with new client identifiers, topics and filters",
    "Growth shows only over many repetitions of the right history, at the end of which everything observable is as before.",
    BROKER, [("topic tree", "vaux-broker/src/topic.rs"), ("session store, timers, connection tasks", "vaux-broker/src/lib.rs")],
    "Random search over generated histories, each repeated with other names and measured by live bytes (a counting allocator) and live tasks of the runtime; growth below the threshold stated in harness/src/props/leaks.rs is not seen.",
    technique="metamorphic property-based testing: a generated history repeated with other names must not change memory and tasks in use")
add("B16", "QoS 2 messages are passed on exactly once",
    "A QoS 2 message of a publisher gets PUBREC, its PUBREL PUBCOMP; repeated before PUBREL it is acknowledged but not passed on again, also on a later connection of the session. A QoS 2 message to a subscriber is acknowledged by PUBREC, released by PUBREL and done with PUBCOMP; on resumption what was received is not sent again but its PUBREL is, the rest is sent again. A refusal ends the exchange.",
    ["histories"], "all sequences of publications, repetitions, acknowledgements of all kinds, disconnections, resumptions and takeovers",
    "Where an exchange stands is kept in several places and must survive any disconnection between any two of its packets.",
    BROKER, [("exchanges of a session", "vaux-broker/src/session.rs"), ("connections", "vaux-broker/src/lib.rs")],
    BNOTE, technique=MBT)
add("V01", "The broker program serves what its arguments say",
    "The vaux program listens at the address and port given, by default 127.0.0.1 and port 1883, or 8883 with TLS, which it uses exactly if certificate and key are given, and applies the session expiration, number of active sessions and channel size given. With arguments it cannot use or an address in use it ends with an error and does not claim to have started; SIGINT ends it with success.",
    ["configurations", "inputs"], "all combinations and orders of arguments, valid and invalid, short and long",
    "The program has no tests; each option has effects only in combination with others and with what clients then do.",
    ["vaux/src/main.rs", "vaux-broker/src/lib.rs", "vaux-broker/src/config.rs"], [("arguments", "vaux/src/main.rs"), ("listening, TLS", "vaux-broker/src/lib.rs")],
    "Random search: the program is run with generated arguments and clients of the harness try what follows from them. Does not judge the options that have no effect (-s, -t, -T, -U).",
    technique="property-based testing of the program: generated command lines against a model of their effects")
CLIENT = ["vaux-client/src/client.rs", "vaux-client/src/session.rs", "vaux-client/src/builder.rs", "vaux-client/src/connection.rs"]
KNOTE = "Stateful random search: the real client between a generated server (loopback socket) and a generated application, its clock moved by the case; every packet on the wire and in the application's channels is compared with a model. One thread, so application and server are interleaved at packet granularity only. Trusts the model in harness/src/csim.rs."
KBT = "stateful model-based testing of the client against a generated server"
add("K01", "The client sends every message once, in order, within the limits",
    "Messages given to the client are sent in the order given, unchanged, with packet identifiers no unfinished exchange uses, never more unacknowledged ones than the server's receive maximum allows, the others as soon as acknowledgements make room. Each QoS 1 and QoS 2 exchange is carried to its end: PUBREC is answered by PUBREL, refusals free their place.",
    ["histories", "inputs"], "all sequences of messages and acknowledgements in any order, all receive maxima, more messages than identifiers",
    "Order, window and identifiers depend on the history of acknowledgements; wrap-around needs more than 65,535 messages.",
    CLIENT, [("window, queue and packet identifiers", "vaux-client/src/session.rs")], KNOTE, technique=KBT)
add("K02", "The client delivers and acknowledges what it receives exactly",
    "Every packet the server sends to the client reaches the application once, unchanged and in order, on the channel registered for its type; a QoS 2 message that is received again is not delivered again. QoS 1 and QoS 2 messages are acknowledged as the protocol demands, and an application that does not keep up loses nothing.",
    ["histories", "inputs"], "all sequences of packets from the server, all channel capacities and rates at which the application reads",
    "Duplicates, full channels and acknowledgements interact only in particular orders.",
    CLIENT, [("received messages, acknowledgements", "vaux-client/src/session.rs"), ("delivery to channels", "vaux-client/src/client.rs")], KNOTE, technique=KBT)
add("K03", "A resumed session loses and repeats nothing",
    "After a connection is lost at any point and the client is started again with the state it returned, unacknowledged messages are sent again in order with DUP set and the same identifiers, PUBRELs again, within the new server's limit, then those queued. If the server lost the session none of the old exchanges is continued. Acknowledgements lost with the connection are made up for.",
    ["histories", "crash_points"], "all points at which a connection can end, any number of times, including during resumption and failed attempts to connect",
    "Connection loss is possible between any two packets; what must be repeated follows from the whole history.",
    CLIENT, [("resumption", "vaux-client/src/session.rs")], KNOTE, technique=KBT + ", connection loss at generated points")
add("K04", "Connecting succeeds only with CONNACK, and fails in time",
    "CONNECT carries exactly what was configured. The client is connected once the server accepts, with the keep alive, session expiry, receive maximum and identifier the server assigned in force; refusals, protocol errors, closed connections and servers that do not answer in time are reported as the errors they are, and the session is kept for the next attempt. An attempt given up does not connect later.",
    ["inputs", "configurations", "fault_sequences"], "all client configurations, server answers, split and late answers",
    "The server's answer can come in any form and at any time; tests use one broker that accepts.",
    CLIENT, [("CONNECT and CONNACK", "vaux-client/src/session.rs"), ("start, try_start", "vaux-client/src/client.rs"), ("TCP and TLS connection", "vaux-client/src/connection.rs")], KNOTE, technique=KBT + " and fault injection")
add("K05", "Without automatic acknowledgement the application has control",
    "A client with automatic acknowledgement turned off sends PUBACK, PUBREC, PUBREL and PUBCOMP when and as the application does, and never by itself. It keeps track of each exchange across connections, does not deliver again what the application has but has not acknowledged, and ignores acknowledgements from the application if it sends them itself.",
    ["histories"], "all orders in which an application acknowledges or refuses messages, with connection loss at any point",
    "The exchanges of several messages overlap in any order; tests acknowledge one message at once.",
    CLIENT, [("acknowledgements by the application", "vaux-client/src/session.rs")], KNOTE, technique=KBT)
add("K06", "The client keeps its connection alive, and pings only when idle",
    "A client sends PINGREQ exactly when it has sent nothing for the keep alive in force, which is the server's if it has set one and otherwise the one announced, whatever it receives meanwhile and even if the application does not read. A keep alive of zero, or keep alive turned off, sends none.",
    ["histories", "configurations"], "all keep alive values and server overrides, all timings of packets in both directions",
    "Depends on exact timing over histories with traffic in both directions; tests wait once.",
    CLIENT, [("keep alive timer", "vaux-client/src/client.rs")], KNOTE, technique=KBT + " with a controlled clock")
add("K07", "The end of a client is reported as what it is, with its session",
    "Stopping sends DISCONNECT and returns without error; a lost connection, a DISCONNECT from the server, packets that break the protocol, too many unacknowledged messages or a closed channel end the client with an error of that kind, the server's reason where there is one. The socket is closed, nothing is sent after, and the state returned allows starting again as if nothing had happened.",
    ["histories", "fault_sequences"], "all ways a connection can end at any point of a history, any number of restarts",
    "There are many ways to end and each can happen in every state; tests stop an idle client.",
    CLIENT, [("end of a client", "vaux-client/src/client.rs"), ("session state", "vaux-client/src/session.rs")], KNOTE, technique=KBT + " and fault injection")
add("E01", "Clients and broker of this repository work together",
    "Clients built with vaux-client that subscribe, unsubscribe, publish, stop, resume and break off on a vaux-broker get every message published while they were subscribed, unchanged, at the QoS due, in order and no more often than they have matching subscriptions, acknowledge it, and get the wills of clients that broke off, with and without TLS, however small their channels and receive maxima are.",
    ["histories", "schedules"], "all mixes of clients, their options and what they do, on 1 to 3 threads",
    "Each side is tested against sockets that behave as expected; what the two make of each other under load is not.",
    BROKER + ["vaux-client/src/client.rs", "vaux-client/src/session.rs"], [("the client's loop", "vaux-client/src/client.rs"), ("the broker's loop", "vaux-broker/src/lib.rs")],
    "Random search over histories, the schedules are those the runtime happens to choose. Trusts the oracle in harness/src/props/e2e.rs.", technique="stateful property-based testing of client and broker together against a delivery model")
