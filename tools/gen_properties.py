#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every response goes to the request that asked for it",
  "A Request that returns without error returns exactly the bytes the remote peer sent as the response to that very request, however many requests are in flight on the connection, in whatever order the peer answers them, and whether or not other requests were cancelled. A response that arrives after its request was cancelled is discarded: it is neither returned to another request nor handed to a message handler.",
  ["schedules", "histories"], "all interleavings of concurrent requests, all answer orders, all cancellation points",
  "The RPC tests use an echo handler and identical payloads, one schedule per run, and never cancel a request in flight.",
  ["client.go", "map.go", "node.go"],
  [("request/response nonce table", "map.go requestMap"), ("response dispatch in the receive loop", "client.go recvLoop"), ("await response", "client.go request")],
  [("pending requests", "nonce -> waiting caller", "map.go requestMap.entries")], ["(*Node).Request return value", "Handler invocations"])

p("C02", "Send, Request and Ping always return",
  "Every Send, Request and Ping returns: with its result, or with an error once the connection drops (closed by either side at any point of the dial, the handshake or the exchange), the node is closed or the caller's context ends. No schedule, stalled remote or disconnection leaves a caller, or the goroutines serving its connection, blocked for ever.",
  ["schedules", "fault_sequences"], "all schedules up to the bound and all points at which the peer closes, stalls, or the local side closes or cancels",
  "Tests only exercise peers that answer; nothing drops a connection with a request outstanding.",
  ["client.go", "map.go", "node.go"],
  [("pending requests failed on disconnect", "map.go requestMap.close"), ("writer woken on close", "client.go close/writeLoop"), ("context select", "client.go request, node.go dialIfNotExists")],
  [("ready/readerDone/writerDone/clientDone", "lifecycle signals", "client.go Client")], ["return of (*Node).Send/Request/Ping", "live goroutines at quiescence"])

p("C03", "Messages arrive intact, in order and exactly once",
  "On a connection that stays up, every message handed to Send is delivered to the receiving node's handlers exactly once and byte-for-byte unchanged; on a connection that is torn down each is delivered at most once and never altered. Messages sent one after the other on one connection reach a single-worker node in the order in which they were sent, for every message size, batching of concurrent senders and fragmentation of the byte stream.",
  ["schedules", "inputs"], "all interleavings of senders, writer, reader and workers up to the bound; all message sizes of a boundary alphabet; all short-read patterns up to the bound",
  "Tests count messages but never check content, order or duplication, and loopback delivers whole frames.",
  ["client.go", "msg.go", "aead.go"],
  [("write queue and batch flush", "client.go send/writeLoop"), ("length-prefixed framing", "client.go read/writeLoop"), ("payload copied out of the read buffer", "client.go recvLoop")],
  [("write queue", "messages accepted and not yet written", "client.go Client.writerBuf")], ["HandlerContext.Data in Handler"])

p("C04", "Only a peer that proves its key is accepted",
  "A connection becomes usable (Ping succeeds, the connect hook fires, messages reach handlers) only after the remote end proved, in that session, possession of the private key behind the ID it is reported under, and that ID is the one it signed. A remote that replays, reflects, substitutes, truncates or corrupts any handshake message is disconnected with an error, on the dialling and on the accepting side, and nothing it sends is ever handed to a handler.",
  ["inputs", "schedules"], "all combinations of an attacker alphabet for each handshake step on both sides, with schedules up to the bound",
  "Both ends of every test are honest nodes; no test sends a bad signature, a foreign key or a reflected handshake.",
  ["client.go", "ecdh.go", "keys.go", "id.go"],
  [("ephemeral key signature check", "client.go handshake"), ("overlay ID signature over the shared key", "client.go handshake"), ("abort after a failed handshake", "client.go inbound/outbound")],
  [("session suite", "AEAD derived from the handshake", "client.go Client.suite")], ["OnPeerConnected", "(*Client).ID", "Handler invocations", "(*Node).Ping error"])

p("C05", "Session traffic is encrypted, fresh and tamper-evident",
  "After the key exchange every byte a node puts on the wire is an authenticated-encrypted frame under a key unique to that session: no application payload or overlay identity appears in clear, and no encryption nonce is ever used twice under one key by either side, even if the process's seedable random generator is predictable. A frame altered, reordered within itself, or truncated in transit is never delivered to a handler in any form and ends the connection with an error.",
  ["inputs", "histories", "schedules"], "all single-byte corruptions of every frame of a session, all frames of all sessions of the explored histories",
  "No test looks at the wire or alters it.",
  ["client.go", "aead.go", "ecdh.go"],
  [("AES-256-GCM sealing with a random nonce", "aead.go encryptAEAD"), ("opening", "aead.go decryptAEAD"), ("session key derivation", "ecdh.go ECDH")],
  (), ["bytes on the connection", "Handler invocations", "(*Client).Error"])

p("C06", "Hostile input costs only its own connection",
  "Whatever bytes a remote peer sends, before, during or after the handshake, as raw stream, as sealed frames or as typed messages, the process does not crash, and other connections of the node keep being served. At worst the offending connection is closed.",
  ["inputs", "histories"], "all byte strings of a bounded adversarial alphabet at every protocol stage, followed by an honest exchange",
  "Only well-formed traffic is tested; decoders are sampled with a few malformed buffers in isolation.",
  ["client.go", "msg.go", "codec.go", "id.go", "kademlia/msg.go", "kademlia/protocol.go", "gossip/protocol.go"],
  [("frame and message validation", "client.go read/recvLoop, msg.go unmarshalMessage"), ("opcode and body validation", "codec.go decode, kademlia/msg.go")],
  (), ["process exit", "a concurrent honest Request"])

p("C07", "The receive-size limit is exact",
  "A node accepts a frame from a peer if and only if its size does not exceed the configured receive limit; a larger announced size disconnects that peer with the message-too-large error before the frame is read, and delivers nothing. A limit of zero disables the check, and then messages of every size are received intact.",
  ["inputs", "configurations"], "all limits of a boundary alphabet (including 0 and the 32-bit extremes) x all announced sizes around them",
  "One test sends one message near one limit and asserts nothing about the outcome; the zero limit is never used.",
  ["client.go", "node_options.go", "error.go"],
  [("size check", "client.go read"), ("receive buffer", "client.go newClient")],
  (), ["(*Client).Error is ErrMessageTooLarge", "Handler invocations"])

p("C08", "The connection pool is bounded and evicts the oldest",
  "A node never holds more live inbound (outbound) connections than its configured limit: when one more is needed the least recently used connection of the pool, and no other, is closed and the new one takes its place. Eviction never blocks or deadlocks the node, and evicted connections disappear from the pool without disturbing a newer connection to the same address.",
  ["histories", "schedules", "configurations"], "all dial/accept/close sequences up to a depth for limits 1..3, plus schedules up to the bound around an eviction",
  "The tests that set a limit of one outbound connection never trigger an eviction, and no test opens more than 128 inbound connections.",
  ["map.go", "node.go", "client.go"],
  [("LRU list and eviction", "map.go clientMap.get"), ("removal when a client ends", "map.go clientMap.remove")],
  [("pool", "address -> client with LRU order", "map.go clientMap")], ["(*Node).Inbound/Outbound", "open sockets"])

p("C09", "One live connection per peer address",
  "All Sends, Requests and Pings of a node to one address share a single outbound connection while it is live, however many start at the same time, and use of a live connection never dials again. After that connection has ended, the next call transparently establishes a new one, and the listed outbound connections are exactly the live ones.",
  ["schedules", "histories"], "all interleavings up to the bound of concurrent callers, and of callers with a concurrent disconnection; all short call/close sequences",
  "Tests never check how many connections concurrent callers opened, nor race a call with a disconnect.",
  ["map.go", "node.go", "client.go"],
  [("get-or-create under the pool lock", "map.go clientMap.get"), ("retry on a dead client", "node.go dialIfNotExists")],
  [("pool", "address -> client", "map.go clientMap")], ["connections accepted by the remote", "(*Node).Outbound"])

p("C10", "A connection's lifecycle is signalled truthfully",
  "Every connection that completes its handshake fires the connect hook exactly once and later the disconnect hook exactly once, in this order; a connection whose handshake fails fires neither. Waiting for readiness returns once the handshake has succeeded or failed and waiting for closure returns only after the connection has left the node's pool and its socket and goroutines are released; Close on a connection at any moment of its life always gets there, its error is the first one that occurred and never changes, and sending on a closed connection reports an error.",
  ["schedules", "fault_sequences"], "all schedules up to the bound of Close/evict/disconnect against dial, handshake, traffic and each other, inbound and outbound",
  "Tests close settled connections only; none closes one that is still dialling or handshaking, and hook pairing is never asserted.",
  ["client.go", "node.go", "map.go"],
  [("idempotent close", "client.go close"), ("lifecycle channels", "client.go inbound/outbound/handshake"), ("first error wins", "client.go reportError")],
  [("ready/clientDone", "lifecycle signals", "client.go Client")], ["OnPeerConnected/OnPeerDisconnected", "WaitUntilReady/WaitUntilClosed", "(*Client).Error"])

p("C11", "Closing a node always works and releases everything",
  "Close, called at any time, any number of times and concurrently (before listening, right after Listen returned, during traffic, from a handler), returns, and once the handlers in progress have ended every inbound and outbound connection, goroutine and socket of the node is released and its remote peers see the disconnection. Closing never panics the process, whatever traffic arrives or is sent while the node closes, and calls made on a closed node return an error.",
  ["schedules", "histories"], "all schedules up to the bound of Close against Listen, dials, accepts, traffic, handlers and other Close calls",
  "Tests call Close once at the end of a quiescent test, always on listening nodes, and close both ends.",
  ["node.go", "client.go", "map.go"],
  [("listener shutdown sequence", "node.go Listen/Close"), ("pool release", "map.go clientMap.release"), ("work queue closing", "node.go Listen")],
  [("listening/listenerDone", "node lifecycle", "node.go Node")], ["return of Close", "live goroutines and open sockets at quiescence", "panics"])

p("C12", "A handler error closes that connection and nothing else",
  "When a handler returns an error for a message, the connection the message came from is closed, reports that error as its error (unless it had already failed), and later handlers do not see the message. The node keeps all of its workers: any number of handler errors later, messages from other and new connections are still handled.",
  ["histories", "schedules"], "all sequences of failing/succeeding messages up to a depth over 1..2 workers and 2..3 peers, with schedules up to the bound",
  "One handler error is produced in one test, and the node is not used afterwards.",
  ["node.go", "client.go"],
  [("worker loop", "node.go Listen"), ("error report and close", "client.go reportError/close")],
  (), ["(*Client).Error", "Handler invocations"])

p("C13", "A request gets at most one response",
  "However many handlers a node has and however many goroutines they use, at most one Send on the context of a given request succeeds and at most one response for it goes on the wire; every further attempt returns an error. Replying to a plain message is not limited.",
  ["schedules", "histories"], "all interleavings of replying handlers/goroutines; all handler-chain combinations of replies up to three handlers",
  "No test replies twice.",
  ["msg.go", "client.go", "node.go"],
  [("one-shot flag", "msg.go HandlerContext.Send")],
  [("sent flag", "whether the request was answered", "msg.go HandlerContext.sent")], ["HandlerContext.Send error", "response frames on the wire"])

p("C14", "Idle connections time out, active ones do not",
  "With an idle timeout configured, a connection over which nothing is read or written for that long is closed with a timeout error and its resources are released, on either side and also while handshaking. A connection on which messages keep arriving in both directions within the timeout is not closed by it, and a message sent after a pause is sent, however long ago the previous write was; without a configured timeout no connection is closed for idleness.",
  ["histories", "configurations"], "all activity patterns (who sends at which multiple of the timeout) up to a length, under virtual time",
  "Real-time tests check only that a fully silent connection closes.",
  ["client.go", "node_options.go"],
  [("read deadline", "client.go read"), ("write deadline", "client.go write/writeLoop")],
  (), ["(*Client).Error", "virtual time of closing", "Handler invocations"])

p("C15", "Dialling retries, gives up and reports as configured",
  "Reaching an address that cannot be dialled or handshaken is attempted at most the configured number of times and, if the context stays alive, exactly that many times before the call fails with an error wrapping the last cause; a success stops the attempts. A context that ends stops the attempts immediately with its error; each failed call notifies the ping-failed hook exactly once with that address, and a successful call never does.",
  ["fault_sequences", "configurations"], "all outcome sequences (refused, closed during handshake, bad handshake, hang, success) up to the attempt limit 1..3 and all cancellation points",
  "No test dials an address that fails.",
  ["node.go", "node_options.go", "client.go"],
  [("retry loop", "node.go dialIfNotExists")],
  (), ["dial attempts seen by the network", "OnPingFailed", "returned error"])

p("C16", "Cancelling one call does not hurt another",
  "A context that is cancelled or expires makes only the call it was passed to fail: concurrent and later calls to the same address with a live context succeed as if the cancelled call had not been made, and an established connection to that address is neither closed nor does it lose messages or requests in flight.",
  ["schedules"], "all schedules up to the bound of two callers sharing an address, one of them cancelled at any point",
  "No test cancels a context.",
  ["node.go", "client.go"],
  [("context handling in dialling", "node.go dialIfNotExists, client.go outbound")],
  (), ["results of the uncancelled calls", "connections opened and closed"])

p("C17", "IDs and protocol messages survive the wire",
  "Encoding then decoding an ID, a lookup request or a lookup response yields the same public keys, addresses (IPv4 and IPv6 alike) and ports, and the encoding has the documented fixed layout and size. Every decoder is total: any byte string is either decoded or rejected with an error, never a panic, and is never accepted when shorter than its layout requires; keys and signatures load and print as exact hexadecimal, rejecting wrong lengths.",
  ["inputs"], "all hosts of an IPv4/IPv6 boundary alphabet x ports x keys; all truncations and all byte strings of bounded shape for every decoder",
  "Quick-check samples of String only; three hand-picked malformed buffers; no round trip is tested.",
  ["id.go", "keys.go", "addr.go", "kademlia/msg.go"],
  [("ID layout", "id.go Marshal/UnmarshalID"), ("lookup messages", "kademlia/msg.go"), ("hex keys", "keys.go LoadKeysFromHex")],
  (), ["UnmarshalID(Marshal(id))", "Unmarshal* results and errors"])

p("C18", "Typed messages decode to what was registered",
  "Registering a message type gives it an opcode no other registered type has (numbered in registration order), registering it twice or with a decoder of the wrong signature panics and leaves the registry unchanged. Encoding a registered message and decoding the bytes returns an equal value of the same type, passing exactly the marshalled bytes to that type's own decoder and returning its error; unregistered types, unknown opcodes and short input give errors, and all of it holds under concurrent use.",
  ["histories", "inputs", "schedules"], "all register/encode/decode sequences up to a depth over five message types, all opcode prefixes, all interleavings up to the bound",
  "One type is round-tripped once; duplicate registration is tested once.",
  ["codec.go", "node.go"],
  [("opcode registry", "codec.go register/encode/decode")],
  [("opcode counter and maps", "type <-> opcode", "codec.go codec")], ["(*Node).RegisterMessage/EncodeMessage/DecodeMessage"])

p("C19", "A node is known to peers under the identity it reports",
  "After Listen succeeds, a node's reported ID carries its public key and the host and port of its configured public address or else of the socket it is bound to, and its reported address can be dialled. Every peer that connects to it, or that it connects to, sees exactly that public key, address and port as its ID, whatever the IP family and option combination; a configuration whose address cannot be represented is refused by Listen with an error and its listening socket is released.",
  ["configurations"], "all combinations of bind host (none, loopback, IPv4, IPv6) x port x public address forms x key given or not",
  "Every test listens on the default host with no options but limits.",
  ["node.go", "id.go", "addr.go", "node_options.go", "client.go"],
  [("identity set-up", "node.go NewNode/Listen"), ("address normalisation", "addr.go"), ("ID exchange", "client.go handshake")],
  (), ["(*Node).ID/Addr", "(*Client).ID on the other side"])

p("C20", "Handlers and hooks run as registered",
  "Every message that is not a response is passed to all registered handlers, in registration order, until one returns an error, each exactly once; the received hook of every protocol fires once per message or response received, and the sent hook of every protocol fires after messages were flushed. Protocols and handlers added once the node is listening are ignored; an error from a protocol's bind hook makes Listen fail and releases its socket.",
  ["histories", "configurations", "schedules"], "all registration/listen/message orders up to a depth over 0..3 handlers and protocols, schedules up to the bound",
  "Tests use one handler and no ad-hoc protocols; order and counts are never asserted.",
  ["node.go", "client.go", "mod.go"],
  [("handler chain", "node.go Listen worker loop"), ("hook dispatch", "client.go recvLoop/writeLoop/handshake"), ("registration guard", "node.go Bind/Handle")],
  (), ["Handler and Protocol callbacks"])

p("C21", "The routing table is a set of bounded recency-ordered buckets",
  "After any sequence of inserts, deletions and deletions by address, the routing table holds each peer at most once, in the bucket of its XOR-distance prefix to the table's owner, most recently updated first; no bucket exceeds its capacity of 16, an insert into a full bucket fails with the bucket-full error and changes nothing, and the owner itself is there from the start. Every query (count, entries, bucket, membership, last) agrees with that content, and results of insert and delete say truthfully what changed.",
  ["histories"], "all operation sequences up to a depth over a small colliding key set, from empty, nearly full and full buckets",
  "One test fills one bucket by networking and checks two sizes.",
  ["kademlia/table.go", "kademlia/binary.go"],
  [("bucket index", "kademlia/table.go getBucketIndex"), ("move to front / push front / remove", "kademlia/table.go")],
  [("buckets and size", "recency lists", "kademlia/table.go Table")], ["Table methods"])

p("C22", "Closest-peer queries are exact",
  "Asked for the k peers closest to a key, the routing table returns exactly the k entries (all of them if it has fewer) with the smallest XOR distance to that key among all its entries other than the key itself, sorted from closest to farthest, without duplicates, for every table content, key and k. The distance helpers agree: XOR is bytewise, the prefix length counts leading zero bits, and sorting by distance orders by XOR compared as a big-endian number.",
  ["inputs", "histories"], "all subsets of a 5-bit key space embedded at different bit positions x all targets x all k",
  "The metric test only checks that every random ID is somebody's neighbour.",
  ["kademlia/table.go", "kademlia/binary.go"],
  [("bucket expansion and sort", "kademlia/table.go FindClosest"), ("metric", "kademlia/binary.go")],
  (), ["(*Table).FindClosest/Peers", "XOR/PrefixLen/SortByDistance"])

p("C23", "The routing table is atomic under concurrency",
  "Concurrent routing-table operations behave as if executed one at a time in some order consistent with their real-time order: no update is lost or duplicated, no query sees a half-done change, the count always equals the number of entries, and no operation panics or deadlocks.",
  ["schedules"], "all interleavings of 2-3 threads with 1-3 operations each on colliding keys, checked for linearizability against a reference table",
  "The table is only used sequentially in unit tests.",
  ["kademlia/table.go"],
  [("table lock", "kademlia/table.go Table (embedded RWMutex)")],
  [("buckets and size", "shared state", "kademlia/table.go Table")], ["results of concurrent Table methods"])

p("C24", "Peer admission follows the eviction policy",
  "A peer a node exchanges traffic with is admitted to its routing table if its bucket has room; if the bucket is full, the least recently active peer of that bucket is pinged: if it answers it stays, is moved to the front and the newcomer is not admitted, and otherwise it is evicted and the newcomer admitted. Peers that the node fails to dial at the address of their ID are evicted; and for every peer the number of admitted notifications minus the number of evicted notifications equals one while it is in the table and zero while it is not.",
  ["histories", "fault_sequences", "schedules"], "all sequences of peer activity over full/not-full buckets with alive, dead, wrongly answering and silent peers, plus concurrent admissions",
  "One test evicts one dead peer once; events are never asserted.",
  ["kademlia/protocol.go", "kademlia/table.go"],
  [("admission loop", "kademlia/protocol.go Ack"), ("dial failure hook", "kademlia/protocol.go OnPingFailed")],
  [("routing table", "admitted peers", "kademlia/table.go Table")], ["Events callbacks", "(*Protocol).Table"])

p("C25", "Lookups find the closest reachable peers and terminate",
  "A lookup asks the peers it learns of, each at most once, for the peers closest to its target, follows every answer, and returns the closest to the target of all peers that answered: sorted by distance, without duplicates or the local node, at most the configured number, and none that did not answer. It terminates for every overlay topology, including cycles, unreachable, silent and misbehaving peers, and every parallelism setting of at least one.",
  ["schedules", "configurations", "fault_sequences"], "all answer graphs over 3-4 peers with all reachability patterns, small parallelism settings, schedules up to the bound",
  "Discovery is tested on one three-node clique.",
  ["kademlia/iterator.go", "kademlia/protocol.go", "kademlia/iterator_options.go"],
  [("disjoint parallel lookups", "kademlia/iterator.go iterate/processLookupBucket"), ("visited set", "kademlia/iterator.go")],
  [("visited, buckets, results", "lookup state", "kademlia/iterator.go Iterator")], ["(*Protocol).Find/Discover result", "FIND_NODE requests seen by peers"])

p("C26", "Gossip is delivered once per node, everywhere, and dies out",
  "A message pushed into a connected overlay is reported to every other node exactly once, and never to its origin, whatever the topology, duplicates, concurrency and size of the message; after that all traffic about it ceases. A node does not send a message to a peer it has already received that message from or sent it to; if the application rejects a message, it is not forwarded and the connection to its sender is closed.",
  ["schedules", "configurations", "inputs"], "all connected topologies of 2-4 nodes, schedules up to the bound, message sizes across the cache-entry limits",
  "One fully connected run with one small message, counting nodes reached but not deliveries.",
  ["gossip/protocol.go"],
  [("seen cache", "gossip/protocol.go Push/Handle/hash")],
  [("seen", "(peer, message) pairs already covered", "gossip/protocol.go Protocol.seen")], ["OnGossipReceived", "gossip frames between nodes"])

p("C27", "Concurrent use is free of data races",
  "Operations documented as safe for concurrent use, and the library's own goroutines, never access shared memory without synchronisation: no execution of concurrent sends, requests, pings, closes, evictions, node closes, replies, logger changes, connection listings, typed-message coding, routing-table operations, lookups or gossip contains a data race.",
  ["schedules"], "all schedules up to the bound of the concurrency harnesses, each monitored for unordered conflicting accesses",
  "The race detector only sees the schedules the tests happen to run.",
  ["client.go", "node.go", "map.go", "msg.go", "codec.go", "kademlia/table.go", "kademlia/iterator.go", "gossip/protocol.go"],
  [("locks, channels and atomics of each component", "client.go, map.go, codec.go, kademlia/table.go")],
  (), ["happens-before monitor on every explored schedule"])

p("C28", "Overlay nodes answer pings and lookups correctly",
  "A node running the overlay answers every ping request with a pong and every lookup request with exactly the (at most 16) entries of its own routing table closest to the requested key, excluding that key itself; other or undecodable messages are ignored, and a ping or lookup that is not sent as a request closes the sender's connection. A ping of a peer succeeds if and only if that peer answers with a pong before the context ends and the connection drops.",
  ["inputs", "fault_sequences"], "all message kinds x request/plain x table contents of a small alphabet; all replies of an adversarial responder to a ping",
  "Only exercised implicitly by discovery between honest nodes.",
  ["kademlia/protocol.go", "kademlia/msg.go"],
  [("RPC service", "kademlia/protocol.go Handle"), ("ping client", "kademlia/protocol.go Ping")],
  (), ["reply frames", "(*Protocol).Ping error"])

p("C29", "A stalled peer or busy handler holds up nothing else",
  "A peer that stalls (while it is dialled, at any point of the handshake, in the middle of a message, or by not reading what is sent to it) and a handler that takes its time while another worker is free delay only their own connection, the message being handled and the calls to that peer: accepting, dialling, sending, requesting, answering, listing connections and taking a stalled peer's place in a full pool all proceed at once with every other peer, and the answer to a request made within a handler reaches it. None of this waits for a timeout. (An overlay node that is asked to admit a newcomer to a full bucket may hold up that newcomer while it checks whether the bucket's least recently active peer is alive.)",
  ["schedules", "fault_sequences"], "all points at which one or two peers can stall, inbound and outbound, with schedules up to the bound, on a clock that only advances when nothing else can happen",
  "The tests use peers that always take part.",
  ["node.go", "client.go", "map.go"],
  [("accept loop", "node.go Listen"), ("a goroutine per connection and direction", "client.go outbound/inbound/writeLoop"), ("send queue", "client.go send")],
  (), ["results of calls and the time on the virtual clock"])

p("C30", "Handlers run on exactly the configured number of workers",
  "At any time at most the configured number of messages are being handled by a node (at least one, and by default as many as there are processors), and as long as that many messages have been received and not been handled, that many are being handled, whether they came over one connection or several, and whatever happened to the messages and connections handled before. A message is handled by one worker, all its handlers one after the other.",
  ["histories", "schedules", "configurations"], "all orders in which up to 6 messages over one or two connections are let go on, by 0 to 4 workers and one or two handlers, with a failing handler or a lost connection at the start, schedules up to the bound",
  "No test counts handlers in progress.",
  ["node.go", "node_options.go"],
  [("worker pool", "node.go Listen"), ("number of workers", "node_options.go WithNodeNumWorkers")],
  [("work", "messages waiting for a worker", "node.go Node.work")], ["handlers in progress at quiescence"])

p("C31", "A listening node serves until it is closed",
  "From the moment Listen returns without an error until Close is called, a node accepts and serves every peer that connects, keeps serving those that are connected, and can dial out, whatever happened before: connections refused, stalled, closed, evicted or cut in whatever state, remotes that sent garbage, handlers that failed, and connections that could not be accepted for a while because the system was out of descriptors or memory or the network failed. Nothing but Close stops it.",
  ["histories", "fault_sequences", "schedules"], "all sequences of up to 3 (thorough: 4) incidents out of 10, each incident alone under all schedules up to the bound; up to 3 failures to accept of 6 kinds while peers connect and the node closes",
  "The tests end after one incident, and never let the system fail.",
  ["node.go", "client.go", "map.go"],
  [("accept loop", "node.go Listen"), ("workers", "node.go Listen"), ("pools", "map.go clientMap")],
  (), ["requests by and to new and connected peers after each history"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
