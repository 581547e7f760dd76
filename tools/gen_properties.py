#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (the list lives here so it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {}),
                    "hook_needed": None},
    })

A = "src/adnl/"
p("A01", "A datagram acts for a peer only if that peer's key produced it",
  "An incoming ADNL datagram has an effect that is attributed to a peer (a message delivered, a query executed, an address, a peer or a channel recorded) only if it was built by the holder of that peer's private key (or of that pair's channel secret) for one of the node's own identities. Every tampered, truncated, re-addressed or re-keyed datagram, every handshake whose signature is missing, wrong or made by another key while signatures are required, and every packet whose claimed source does not match its key, is dropped without any effect.",
  ["inputs", "histories"],
  "every mutation of every valid handshake or channel datagram, every claimed-identity combination, in every channel state, with and without an ADNL version prefix",
  "The unit tests encrypt and decrypt one fixed packet; no test checks a forged, modified or misattributed packet against a running node.",
  [A+"node/receiver.rs", A+"handshake.rs", A+"channel.rs", A+"encryption.rs", "src/proto/adnl.rs"],
  [("checksum-bound packet encryption", A+"handshake.rs, "+A+"channel.rs"), ("source and signature checks", A+"node/receiver.rs")],
  ["message/query subscribers", "Node::metrics", "Node::get_peer_address"])
p("A02", "Messages of any size are delivered byte-exact or not at all",
  "A custom message, query or answer of any length that the sender accepts reaches the receiver's handlers byte-for-byte, attributed to the right local and remote identity, whenever all of its datagrams arrive, in any order and with any repetition and with no gap as long as the transfer timeout less a second (copies of one message from one peer that are in flight together may count as one). If a datagram of it is lost it is not delivered, and no handler ever sees bytes that were not sent.",
  ["inputs", "schedules", "fault_sequences"],
  "every payload length around and above the one-packet limit, every permutation, duplication and loss of the datagrams, in every channel state",
  "No existing test sends a message between two nodes, let alone a multipart one with reordering, duplicates or losses.",
  [A+"node/sender.rs", A+"node/receiver.rs", A+"transfer.rs"],
  [("splitting into parts", A+"node/sender.rs"), ("reassembly keyed by hash", A+"transfer.rs")],
  ["MessageSubscriber::try_consume_custom", "QuerySubscriber::try_consume_query"])
p("A03", "Channel establishment converges under loss, duplication and reordering",
  "For every pattern of loss, duplication, reordering and simultaneous opening during channel setup, every message whose datagrams get through is still delivered, and once datagrams get through again both sides reach, within a bounded number of exchanged messages, a state in which traffic in both directions uses the encrypted channel. Reaching that state never requires a restart, and duplicated or stale setup packets never break an established channel.",
  ["schedules", "fault_sequences", "histories"],
  "every drop/duplicate/reorder schedule over the datagrams of two nodes that start talking, either side first or both at once",
  "Existing tests never run two nodes; the channel state machine is only reached through schedules of datagrams.",
  [A+"node/receiver.rs", A+"node/sender.rs", A+"channel.rs"],
  [("create/confirm channel messages", A+"node/sender.rs"), ("channel creation and readiness", A+"node/receiver.rs")],
  ["datagrams on the wire", "Node::metrics", "message subscribers"])
p("A04", "With packet history on, no authentic packet is processed twice",
  "When the duplicate-packet check is enabled, a packet of a peer is processed at most once for every sequence number, separately for ordinary and priority traffic, whatever the order, the gaps and the size of the sequence numbers. A packet with a sequence number that was not used before and is not older than the retained window is always processed, and replaying any recorded datagram never executes its messages again.",
  ["histories", "inputs"],
  "every sequence of 64-bit sequence numbers with repeats, gaps, window jumps and reordering",
  "There is no test of the history; the defect space lies beyond the first 256 packets and in window transitions.",
  ["src/util/packets_history.rs", A+"node/receiver.rs"],
  [("sliding bitmap of sequence numbers", "src/util/packets_history.rs")],
  ["subscribers' invocation counts"])
p("A05", "Reinit dates and confirmed seqnos are validated as the protocol says",
  "A packet that carries reinit dates is processed only if the destination date is zero or equals the start date the node announced to that peer (its start, advanced by each reset of that peer), and the source date is neither older than the newest one accepted from that peer nor further in the future than the clock tolerance; a packet confirming a sequence number that was never sent is dropped. A newer source date makes the node treat the peer as restarted (sequence numbers start again and old replays stay rejected), and a stale destination date is answered so that the peer can resynchronise.",
  ["inputs", "histories"],
  "every combination and history of source date, destination date, clock offset, tolerance and confirmed sequence number, for handshake and channel packets",
  "No test feeds packets into a node, and the clock is real in tests.",
  [A+"node/receiver.rs", A+"peer.rs", "src/proto/adnl.rs"],
  [("packet timing checks", A+"node/receiver.rs"), ("per-peer reinit state", A+"peer.rs")],
  ["subscribers", "datagrams on the wire"])
p("A06", "Each query gets its own answer exactly once, or times out",
  "A query resolves with the bytes of the first answer that carries its id, no matter how many queries are in flight, in which order answers arrive, or how many duplicate, late or unknown answers arrive; otherwise it resolves to no answer once its timeout (the requested one raised to the configured minimum, or the default) has passed and not earlier. After it resolves or its future is dropped nothing of it stays pending in the node.",
  ["schedules", "histories", "inputs"],
  "every interleaving of concurrent queries with answers that are delayed, duplicated, reordered, lost or made up, and every timeout configuration",
  "No existing test issues a query.",
  [A+"queries_cache.rs", A+"node/mod.rs", A+"node/receiver.rs"],
  [("pending queries table", A+"queries_cache.rs"), ("query timeouts", A+"node/mod.rs")],
  ["Node::query_raw result", "Node::metrics"])
p("A07", "The peer table reflects exactly the additions, removals and filter decisions",
  "For every sequence of operations a node knows exactly the remote peers that were added (explicitly or by an accepted packet with an address) under that local identity and not removed since, each at the address given last; a peer refused by the filter, the node's own identity and the node's own address are never added. Peers, addresses and channels of one local identity never influence those of another local identity, and a removed peer's channel stops working.",
  ["histories", "configurations"],
  "every sequence of add/remove/lookup/packet operations over several local identities, peers, addresses and filter answers",
  "Tests only cover packing an address into an integer.",
  [A+"node/mod.rs", A+"peer.rs", A+"node/receiver.rs", "src/util/address_list.rs"],
  [("per-identity peer tables", A+"node/mod.rs"), ("peer filter", A+"peer.rs")],
  ["Node::get_peer_address", "Node::match_peer_addresses", "Node::metrics", "messages sent"])
p("A08", "A dead channel is dropped after silence and communication recovers",
  "When the remote side loses its channel state (restart, peer removal) and does not answer over the old channel, the channel is dropped after queries kept failing for longer than the configured reset time, and from then on queries succeed again without restarting anything. A channel over which packets keep arriving is never reset, whatever the pattern of unanswered queries. After any number of recoveries the node keeps exactly one channel of a peer, in both of its tables.",
  ["fault_sequences", "histories", "configurations"],
  "every history of restarts, silences, clock steps and option settings (history on or off, versions, reset times)",
  "Needs a controlled clock, a remote restart and many seconds of protocol time; nothing like it is tested.",
  [A+"node/mod.rs", A+"channel.rs", A+"peer.rs", A+"node/receiver.rs"],
  [("drop timeout", A+"channel.rs"), ("peer reset", A+"node/mod.rs"), ("reinit dates", A+"peer.rs")],
  ["Node::query results", "Node::metrics"])
p("A09", "No datagram or message content can crash, hang or leak the ADNL node",
  "For every sequence of datagrams, well-formed or not, including authenticated packets with arbitrary TL content, the node neither panics nor hangs nor stops serving other peers, and a correct query sent afterwards is answered. Incomplete multipart messages and their memory are released once the transfer timeout has passed.",
  ["inputs", "histories"],
  "every byte string as datagram, every byte string inside an authenticated packet, structured mutations of every message type",
  "No test feeds malformed input to anything.",
  [A+"node/receiver.rs", A+"transfer.rs", "src/proto/adnl.rs", A+"packet_view.rs"],
  [("packet parsing", "src/proto/adnl.rs"), ("transfer bookkeeping", A+"transfer.rs")],
  ["panic hook", "liveness query", "Node::metrics"])
p("A10", "Packets interoperate with an independent ADNL implementation",
  "Every datagram a node emits (handshake or channel, ordinary or priority, with or without version prefix) decrypts, verifies and parses under an independent implementation of the published ADNL format and carries correct source, address list, sequence numbers and reinit dates. Every packet built by such an implementation within the format (any legal flags, padding, message count and channel key order) is accepted and acted on. With `use_loopback_for_neighbours`, and only then, a peer on the node's own non-loopback address is addressed by (and told) the loopback address. A peer that never sends priority packets is, after a few attempts, addressed over the ordinary channel; otherwise an answer goes by the channel its query came by.",
  ["inputs", "configurations"],
  "all key pairs and orderings, payload lengths, versions, message combinations and optional-field combinations",
  "The code is only tested against itself: one encrypt/decrypt pair with the same functions on both ends.",
  [A+"handshake.rs", A+"channel.rs", A+"encryption.rs", "src/proto/adnl.rs", A+"node/sender.rs"],
  [("packet encryption", A+"encryption.rs"), ("packet serialization", "src/proto/adnl.rs")],
  ["datagrams on the wire"])
p("A11", "Subscribers are tried in order until one consumes; answers follow them",
  "Every incoming query or custom message is offered to the subscribers in registration order, each at most once, with the original bytes, its constructor and the true local and remote identity, until one consumes it; the answer returned by the consuming one is sent and nothing is sent otherwise. An error or rejection affects only that message, the built-in ping is answered with the same value unless a subscriber took it first, and nothing can be subscribed after start.",
  ["inputs", "configurations"],
  "every list of subscribers with every assignment of accept/reject/answer/error to payloads, and every mix of queries and messages",
  "Only the doc examples construct subscribers; none is ever invoked in a test.",
  ["src/subscriber/mod.rs", A+"node/receiver.rs", A+"node/mod.rs", A+"ping_subscriber.rs"],
  [("subscriber chain", "src/subscriber/mod.rs"), ("ping", A+"ping_subscriber.rs")],
  ["subscriber call log", "datagrams on the wire"])
p("A12", "Every datagram sent fits the MTU",
  "No datagram emitted by the node, for any message size, message kind, channel state, version setting, and protocol on top, is as long as the documented MTU of 1500 bytes.",
  ["inputs", "configurations"],
  "all message sizes and kinds around every size boundary, in each channel state and version setting",
  "Sizes are assembled from hand-written constants that no test exercises.",
  [A+"node/sender.rs", "src/proto/adnl.rs", A+"mod.rs"],
  [("message size limit and splitting", A+"node/sender.rs")],
  ["datagram lengths on the wire"])

p("A13", "A restarted node is heard again, a stopped one is silent",
  "A node is started once: later starts are refused and change nothing. After its shutdown it hands nothing to its subscribers, sends nothing, queries still waiting end by their timeout, and once dropped its memory is freed. When a node is replaced by a new one with the same keys at least two seconds later, on the same or another port, everything the new node sends arrives at once; peers that have heard it reach it again at once, and peers that have not reach it (same port) after their queries failed for longer than the reset time. Throughout, nothing arrives twice or altered and every answer belongs to its query.",
  ["histories", "schedules"],
  "every history of messages and queries in both directions, pauses, stops, restarts and moves to another port of either side, with any point of time of the stop",
  "The tests never stop or restart a node; the outcome depends on channel keys, reinit dates and sequence numbers of both lives.",
  [A+"node/mod.rs", A+"node/sender.rs", A+"node/receiver.rs", A+"peer.rs"],
  [("start and shutdown", A+"node/mod.rs"), ("channel and reinit dates of a known peer", A+"peer.rs")],
  ["handler calls, datagrams, query results, weak references"])

U = "src/"
p("U01", "The bounded peers set behaves as a bounded set with oldest-first eviction",
  "For every sequence of operations the peers set contains no duplicates and at most its capacity, insertion reports exactly whether the id was absent, a full set evicts its oldest entry, membership, indexing, iteration, length and fullness agree with each other, and the version grows exactly when an id is added or removed. Random selection returns distinct current members, never the excepted ones, as many as requested or available.",
  ["histories"],
  "every sequence of constructor, insert, remove, extend, random fill and selection calls, also from several threads with any capacity and overlapping ids",
  "The tests cover a handful of fixed sequences and never compare against a model.",
  [A+"peers_set.rs"], [("ring buffer with index map", A+"peers_set.rs")],
  ["PeersSet API"])
p("U02", "The keystore is a consistent one-key-per-tag map and rejects duplicates cleanly",
  "After every sequence of key additions, exactly the successfully added keys can be found, by id and by tag, and they sign verifiably for their ids; adding a duplicate tag or a duplicate key fails and leaves the keystore as it was, and re-adding the same key under its own tag changes nothing.",
  ["histories"],
  "every sequence of (secret, tag) additions with repeats of either",
  "Not tested at all.",
  [A+"keystore.rs"], [("keys and tags tables", A+"keystore.rs")],
  ["Keystore API"])
p("U03", "Identifiers and signatures match the published definitions",
  "Short node ids, overlay ids and channel/stored-key ids are the SHA-256 of the published TL encodings, equal exactly for equal inputs; a signature verifies exactly when it was made over the same content by the key that is named, and a signed overlay node record is accepted exactly when the overlay id, the key, the version and the signature all match.",
  ["inputs"],
  "all keys, ids, node lists, versions, and every alteration of a signed record",
  "No test computes an id or verifies a record against an independent definition.",
  [A+"node_id.rs", "src/overlay/overlay_id.rs", A+"keystore.rs"],
  [("short id computation", A+"node_id.rs"), ("overlay record verification", "src/overlay/overlay_id.rs")],
  ["NodeIdFull/NodeIdShort/IdFull/IdShort API"])

p("U04", "Protocol types have their published wire form",
  "Every protocol type of the crate is written as exactly the bytes that the published TL scheme prescribes, for every combination of present and absent fields, and reads back from these bytes to the same value with nothing left over; cut-off bytes and foreign constructors are refused, and reading arbitrary bytes never panics and takes memory in proportion to their length only.",
  ["inputs"],
  "all protocol types with all field values and all combinations of optional fields; every truncation; bit flips anywhere",
  "Unit tests round-trip a few samples through the same code, so they cannot notice a wrong but consistent wire form, which other implementations would not understand.",
  ["src/proto/adnl.rs", "src/proto/dht.rs", "src/proto/overlay.rs", "src/proto/rldp.rs", "src/proto/rpc.rs", "src/scheme.tl"],
  [("packet contents reader and writer with flags", "src/proto/adnl.rs"), ("overlay broadcast messages", "src/proto/overlay.rs"), ("DHT values and rules", "src/proto/dht.rs")],
  ["proto::* with tl-proto serialization and deserialization"])
p("U05", "Layers of a node work side by side",
  "A node built with NetworkBuilder from ADNL, RLDP, DHT and overlay layers in any order, each with its own key, and with user handlers registered before or after them, serves concurrent requests of all layers: every request reaches exactly the handler of its layer with the right local and remote identity, every answer goes to the request it belongs to, every layer uses the key of its own tag, and the given peer filter decides which peers become known. Building fails when a tag names no key. The node listens on, and announces in its packets, exactly the IPv4 address it was built with, and the port the system chose for port 0; building at an address that is not IPv4 or not readable, or at a port that is in use, is an error.",
  ["inputs", "histories"],
  "all orders of layers and tags, two or three nodes, all mixes of concurrent requests of all layers, duplicating and delaying networks",
  "Tests build one layer at a time and never run several protocols over one socket.",
  ["src/util/network_builder.rs", "src/adnl/mod.rs", "src/adnl/node/mod.rs", "src/rldp/node.rs", "src/dht/node.rs", "src/overlay/node.rs"],
  [("order of subscribers", "src/util/network_builder.rs"), ("dispatch of queries and messages", "src/adnl/node/mod.rs")],
  ["NetworkBuilder, adnl::Node, rldp::Node, dht::Node, overlay::Node public APIs; UDP sockets"])

R = "src/rldp/"
p("R01", "RLDP queries and answers of any size are delivered exactly or reported lost",
  "A query handed to the RLDP layer reaches the remote handler byte-exact and at most once (within the time the receiver keeps finished transfers), and the caller receives exactly the bytes that handler returned for that very query, for every size (including several parts) and every pattern of datagram loss, duplication, delay and reordering; otherwise the caller gets no answer after the configured time. While the receiver keeps a finished transfer (also while the handler is still working), it answers every repeated symbol with the completion of that part, so a sender whose acknowledgements were lost learns that it is done. When only a bounded share of datagrams is lost, a transfer that fits the configured time completes.",
  ["inputs", "schedules", "fault_sequences"],
  "all payload sizes from empty to several multi-megabyte parts, all loss/duplication/reordering schedules of parts, confirmations and completions",
  "Only compression has a unit test; no transfer is ever run in a test.",
  [R+"transfers_cache.rs", R+"incoming_transfer.rs", R+"outgoing_transfer.rs", R+"encoder.rs", R+"decoder.rs", R+"node.rs"],
  [("fountain coded parts", R+"encoder.rs, "+R+"decoder.rs"), ("transfer state machines", R+"transfers_cache.rs")],
  ["rldp::Node::query result", "QuerySubscriber calls"])
p("R02", "RLDP never delivers data beyond the configured or requested size limit",
  "A transfer that announces or produces more bytes (its message envelope included) than the receiver's configured maximum is never delivered, an answer larger than the limit the asker announced is not sent, and everything up to the limit is delivered. Memory for an oversized transfer is never reserved on the word of the remote side.",
  ["inputs", "configurations"],
  "all sizes around the limits on either side, and all announced sizes up to 2^64",
  "No test runs a transfer.",
  [R+"incoming_transfer.rs", R+"transfers_cache.rs", R+"node.rs"],
  [("size checks on receive", R+"incoming_transfer.rs"), ("answer size check", R+"transfers_cache.rs")],
  ["rldp::Node::query result"])
p("R03", "RLDP state is bounded: transfers end, concurrency is limited, nothing leaks",
  "Every transfer, however it ends (answered, rejected, failed, timed out, abandoned or never completed), leaves the transfer table within the configured completion time (an incomplete incoming one within twice that), and the table returns to empty. At most the configured number of queries per peer are in flight, waiting ones start as slots free up, and the garbage collection removes exactly the idle per-peer limiters. Once its node is shut down and dropped, nothing of it stays alive after that time.",
  ["histories", "fault_sequences", "schedules"],
  "every history of concurrent, cancelled, lost, rejected and repeated queries on both sides",
  "Needs many seconds of protocol time and concurrent queries; nothing is tested.",
  [R+"transfers_cache.rs", R+"node.rs"],
  [("deferred removal of transfers", R+"transfers_cache.rs"), ("per-peer semaphore", R+"node.rs")],
  ["rldp::Node::metrics", "messages on the wire"])
p("R04", "Compression is transparent to the users of RLDP and overlays",
  "With compression enabled on either, both or no side, handlers see exactly the query bytes the caller passed and the caller sees exactly the answer bytes the handler returned, for compressible, incompressible, short, long and empty payloads; a compressed query is answered compressed. Bytes that are not a valid compressed blob are delivered unchanged. A message that would decompress to more than the greater of 64 MiB and the configured size limit is refused without reserving memory for it.",
  ["inputs", "configurations"],
  "all payloads around the compression threshold and of any entropy, including payloads that end with the compression tag, in all four configurations",
  "One fixed-size random buffer is compressed and decompressed by the unit test.",
  [R+"compression.rs", R+"node.rs", R+"transfers_cache.rs"],
  [("tagged zstd framing", R+"compression.rs")],
  ["rldp::Node::query result", "QuerySubscriber calls"])
p("R05", "No RLDP message can crash, hang or corrupt the transfers of others",
  "For every sequence of RLDP parts, confirmations and completions with arbitrary field values, sent before, during or after a transfer and by anyone who does not know its random id, the node neither panics nor hangs, and transfers of honest peers still complete with the right bytes. Acknowledgements for unknown, finished or impossible parts are harmless, and parts that contradict earlier ones of their transfer (another total size or coding) never alter what is delivered.",
  ["inputs", "histories"],
  "all field values (part numbers, sequence numbers, code parameters, sizes, data lengths) in all transfer states",
  "No test feeds an RLDP message to the node.",
  [R+"transfers_cache.rs", R+"incoming_transfer.rs", R+"outgoing_transfer.rs", R+"decoder.rs"],
  [("part handling", R+"incoming_transfer.rs"), ("acknowledgement handling", R+"outgoing_transfer.rs")],
  ["panic hook", "honest queries"])

D = "src/dht/"
p("D01", "The DHT stores only values its update rule authorises",
  "A value can be stored in or overwritten on a node, locally or by a remote request, only if its key id is the hash of the named owner, its key name and index are within the configured limits, it is not expired, and it satisfies its update rule: valid owner signatures over key and value for signed values, the fixed overlay key with no signatures and only correctly signed member records for overlay lists; every other rule or any alteration is refused and leaves the stored state untouched.",
  ["inputs", "histories"],
  "every field alteration of every valid value under every update rule and limit setting",
  "Only a bucket helper is unit tested; no value is ever stored in a test.",
  [D+"storage.rs", D+"node.rs"],
  [("store validation", D+"storage.rs")],
  ["dht.store / dht.findValue answers", "dht::Node::metrics"])
p("D02", "Stored DHT values are newest-wins, expire on time and are never resurrected",
  "For every history of stores, clock advances and collections, a lookup on a node returns exactly the stored signed value with the greatest expiry time for that key while that time is in the future, and nothing otherwise; storing an older or equal one never replaces a newer. Collected entries disappear from the counts, and unexpired ones never do.",
  ["histories"],
  "every sequence of store, lookup, clock and collection steps over several keys and expiry times",
  "The clock is real in the unit tests and the storage is not exercised.",
  [D+"storage.rs", D+"node.rs"],
  [("ttl comparison and collection", D+"storage.rs")],
  ["dht.findValue answers", "dht::Node::metrics"])
p("D03", "Overlay member lists merge to the newest valid record per member",
  "The stored list of an overlay contains, for every member ever stored in the list's current lifetime, exactly the record with the highest version, no invalid record, and no member that was not stored, independent of the order in which lists arrive; an update that expires earlier than the stored one changes nothing.",
  ["histories", "inputs"],
  "every sequence of overlay lists with overlapping members, versions, invalid records and expiry times",
  "Not tested.",
  [D+"storage.rs", "src/overlay/overlay_id.rs"],
  [("member list merge", D+"storage.rs")],
  ["dht.findValue answers"])
p("D04", "DHT lookups only return values authentic for the requested key",
  "A value, address or overlay member list returned by a lookup is always one that its owner signed for exactly the requested key (for overlay lists: that the overlay's update rule accepts), whatever the queried nodes reply; forged, altered, foreign-key, unsigned or malformed replies are skipped and cannot hide a genuine value held by another queried node. Every lookup ends.",
  ["inputs", "fault_sequences"],
  "every reply a malicious DHT node can give, mixed with honest replies in any order",
  "No test performs a lookup.",
  [D+"node.rs", D+"streams.rs", D+"entry.rs"],
  [("result validation", D+"node.rs")],
  ["Node::find_address", "Entry::values", "Entry::value_from", "Node::find_overlay_nodes"])
p("D05", "A DHT node answers find requests with at most k of the closest known nodes",
  "The answer to a node search contains only known, correctly signed nodes, without duplicates, at most as many as requested, and among the nodes at least as close to the target as the node itself none is left out in favour of one from a more distant prefix group (nodes sharing the same number of leading bits with the node's own id); the answer to a value search is the value if stored, otherwise at most the requested number of known nodes, and value searches outside the allowed count get no answer. Requests are accepted in the bare and in the self-introducing form alike.",
  ["inputs", "histories"],
  "every set of known nodes, key and count, bare and prefixed requests",
  "One test checks the bit-affinity helper on fixed values.",
  [D+"buckets.rs", D+"node.rs"],
  [("bucket search", D+"buckets.rs"), ("request processing", D+"node.rs")],
  ["dht.findNode / dht.findValue answers"])
p("D06", "DHT peers are admitted only with a valid signature and address",
  "A remote node becomes a known DHT peer, whether introduced by the application, by a request or inside an answer, exactly if its record is signed by its own key over exactly the recorded contents, its address list is valid and unexpired, the peer filter agrees and it is not the node itself; a record that fails is skipped without affecting the others. The record handed to third parties is always a validly signed one and newer records never lose to older ones.",
  ["inputs", "histories"],
  "every alteration of a signed node record, every way of introduction, in any sequence",
  "Not tested.",
  [D+"node.rs", D+"buckets.rs", "src/util/address_list.rs"],
  [("peer admission", D+"node.rs")],
  ["Node::add_dht_peer", "Node::metrics", "dht.findNode answers"])
p("D07", "Unresponsive DHT peers are penalised as documented and recover",
  "Every unsuccessful query adds two points to the peer and every good action removes one, never below zero; a peer counts as bad exactly while its points exceed the configured threshold, bad peers are skipped by value searches, and a peer that answers again or is re-added becomes usable again. A ping succeeds only if its own value comes back. The score depends only on that peer's own behaviour.",
  ["histories", "configurations"],
  "every history of answered, unanswered and failing queries and re-additions, for every threshold",
  "Not tested; needs query timeouts.",
  [D+"node.rs", D+"peers_iter.rs"],
  [("penalty points", D+"node.rs"), ("peer iteration", D+"peers_iter.rs")],
  ["Node::is_bad_peer", "queries on the wire"])
p("D08", "A value stored through the DHT is found by others, while reachable",
  "After a store reports success, every reachable known node that accepted it answers a lookup with it, and a full lookup (one that also asks the nodes named in answers) from any node that reaches at least one such node finds it within its lifetime, whatever other nodes stay silent or lose packets; a store that no node confirms reports failure. A lookup with a limited batch still asks at least that many good known peers, among them all that are closest to the key; the check of a store and the search for overlay nodes also ask peers that are named on the way. Stored addresses and overlay records are read back equal to what was stored.",
  ["configurations", "fault_sequences"],
  "every small topology of DHT nodes, silent nodes, values, names and indices",
  "No test runs more than zero DHT nodes.",
  [D+"node.rs", D+"futures.rs", D+"streams.rs", D+"entry.rs", D+"peers_iter.rs"],
  [("store and verify", D+"futures.rs"), ("value search", D+"streams.rs")],
  ["Node::store_address", "Node::find_address", "Node::store_overlay_node", "Entry::values"])
p("D09", "No DHT request or answer can crash or hang a DHT node",
  "For every sequence of DHT requests and answers with arbitrary content, including nested, truncated and oversized ones, the node neither panics, aborts nor hangs, its lookups end, its stored values and known peers stay unchanged by refused requests, and honest requests are still answered.",
  ["inputs"],
  "every byte string as request or answer body, and structured mutations of every request and answer type",
  "No test feeds a request to the node.",
  [D+"node.rs", D+"storage.rs", "src/proto/dht.rs", "src/proto/rpc.rs"],
  [("request dispatch", D+"node.rs"), ("TL parsing", "src/proto/dht.rs")],
  ["panic hook", "child process exit status"])

p("D10", "A DHT node asks and stores exactly what its interface documents",
  "Every request a DHT node makes goes exactly once to exactly the peers it is for (the named peer, or all known ones), names exactly the right key (its own id for node searches; the hash of the entry's id, name and index for values; 'address' or 'nodes' at index 0 for addresses and overlay members) and the given count, introduces the node, with a validly signed record of its current address, exactly when asked to, and gives the caller exactly what honest peers answered. Values are stored and signed with exactly the given key, name, index, data and expiry time (given, as a duration from now, or by default). A store reports success exactly if one of the peers asked afterwards holds the stored value; values of the same key that other peers hold (older, outdated or unreadable ones) never make it fail with an error; an overlay member record with an invalid signature is refused and nothing is sent. Every single request ends within the configured query timeout.",
  ["histories", "configurations"],
  "every sequence of node searches, value searches, stores, signatures and waits over generated peers, keys, indices, expiry times and default durations",
  "No test sends a DHT request.",
  [D+"node.rs", D+"entry.rs", D+"futures.rs", D+"streams.rs"],
  [("DHT requests", D+"node.rs"), ("entries", D+"entry.rs")],
  ["the queries that arrive at reference DHT peers", "results of the public methods"])

O = "src/overlay/"
p("O01", "Ordinary broadcasts are delivered only if their named author signed them",
  "A node delivers an ordinary overlay broadcast, and passes it on, only if the signature verifies for the named source over exactly the delivered data, date and flags; the delivered bytes and the reported author are exactly those. Anything altered, expired, for an unknown overlay or of an unsupported kind is neither delivered nor forwarded.",
  ["inputs"],
  "every alteration of every field of a valid broadcast, compressed or not, with either sender flag",
  "No overlay test exists.",
  [O+"overlay.rs", O+"node.rs"],
  [("broadcast signature check", O+"overlay.rs")],
  ["Overlay::wait_for_broadcast", "datagrams to neighbours"])
p("O02", "Large (FEC) broadcasts deliver exactly the signed data, whatever is injected",
  "A node delivers a large broadcast exactly if enough parts signed by its author arrive, byte-identical to the data whose hash is its id and attributed to that author, for every order, loss and duplication of parts (equal data of two authors may count as one broadcast, of the author whose parts complete first). Parts that are forged, altered, mismatching or malformed are neither used nor passed on, never crash the node, and cannot prevent the delivery of the genuine broadcast.",
  ["inputs", "schedules", "fault_sequences"],
  "all data sizes and part schedules, and every altered or forged part injected at any moment, including first",
  "No overlay test exists.",
  [O+"overlay.rs", R+"decoder.rs", R+"encoder.rs"],
  [("part signature check and decoding", O+"overlay.rs")],
  ["Overlay::wait_for_broadcast", "datagrams to neighbours"])
p("O03", "Every broadcast is delivered and forwarded at most once per node",
  "Within the retention time (the broadcast timeout, from receipt) a node delivers each broadcast at most once and passes on each of its packets at most once, however often, from whichever peers and in whatever order the packets arrive, concurrently or long after completion; the originator never delivers its own broadcast to itself.",
  ["schedules", "histories"],
  "every multiset and order of repeated ordinary and FEC packets from several peers, including after completion and after clock advances within the retention time",
  "No overlay test exists.",
  [O+"overlay.rs"],
  [("broadcast log", O+"overlay.rs"), ("per-broadcast part history", "src/util/packets_history.rs")],
  ["Overlay::wait_for_broadcast", "datagrams to neighbours"])
p("O04", "A broadcast reaches its targets complete, of any size, and is reported truly",
  "A broadcast of any size, not sent before within the retention time, that is sent to explicit known targets or random neighbours reaches every one of them that receives the datagrams (for large data: enough of them), byte-exact and attributed to the sending key, as an ordinary broadcast up to the configured length and as parts above it. The reported recipient count is the number of peers it was sent to, and it is sent to no one else.",
  ["inputs", "configurations"],
  "all data sizes, compression settings, target kinds and signing keys",
  "No overlay test exists.",
  [O+"overlay.rs"],
  [("ordinary and FEC sending", O+"overlay.rs")],
  ["Overlay::broadcast", "Overlay::wait_for_broadcast", "datagrams on the wire"])
p("O05", "Forwarding goes unchanged to few neighbours and never back to the sender",
  "A received broadcast packet that is accepted is passed on byte-identical, immediately, to distinct current neighbours, at most as many as configured for its kind and as many as available up to that number, and never to the peer it came from.",
  ["inputs", "configurations", "histories"],
  "every neighbour set, forwarding limit, sender position and broadcast kind",
  "No overlay test exists.",
  [O+"overlay.rs", A+"peers_set.rs"],
  [("redistribution", O+"overlay.rs"), ("random peers selection", A+"peers_set.rs")],
  ["datagrams to neighbours"])
p("O06", "Overlay membership reflects verified additions and removals",
  "A peer is a known overlay member exactly if a correctly signed record of it for this overlay was added (and the peer filter agreed) or it was given at creation; it is active exactly if it was not removed after its latest addition, only active members are offered for random selection or receive the node's broadcasts, and every invalid record is refused without affecting others. The counts agree with that and neighbours are as many as there are active members, up to their limit. While there are more members than that, at most one neighbour is exchanged for a random active member per configured interval, and so every active member becomes a neighbour in time.",
  ["histories", "inputs"],
  "every sequence of additions, removals, re-additions, invalid records and neighbour updates over time",
  "No overlay test exists.",
  [O+"overlay.rs", O+"overlay_id.rs"],
  [("public peer tables", O+"overlay.rs")],
  ["Overlay::is_known_peer", "Overlay::is_active_public_peer", "Overlay::metrics", "broadcast recipients"])
p("O07", "Peer exchange returns and records only valid, newest records of other nodes",
  "An answer to a random-peers request holds the node's own freshly signed record and at most four records of members, all valid for this overlay; received records are kept for the application exactly if they are valid and not the node's own, in their highest version, and taking them empties the collection. The asking side is told exactly the valid peers in the answer that it did not know.",
  ["inputs", "histories"],
  "every list of valid, altered, outdated, own and repeated records on either side",
  "No overlay test exists.",
  [O+"overlay.rs", O+"node.rs"],
  [("record filter", O+"overlay.rs"), ("random peers answer", O+"overlay.rs")],
  ["overlay.getRandomPeers answers", "Overlay::take_new_peers", "Overlay::exchange_random_peers"])
p("O08", "Overlay queries reach exactly the handler of their overlay",
  "A query prefixed with an overlay id reaches exactly the handler registered for that id, with the exact remaining bytes, constructor and identities, over ADNL and RLDP alike, and its answer returns to the asker; queries for other overlays, rejected or unprefixed ones do not reach it. Registering a handler or creating an overlay twice keeps the first one, and overlays never see each other's messages. A direct message or query of an overlay reaches exactly the named peer, prefixed with the overlay's id, from the overlay's own key. A direct query or peer exchange that stays unanswered ends without an answer after the time given to it, raised to the configured minimum (over RLDP also limited by the maximum).",
  ["inputs", "configurations"],
  "every assignment of overlays, handlers and payloads, over both transports",
  "No overlay test exists.",
  [O+"node.rs", O+"overlay.rs"],
  [("overlay dispatch", O+"node.rs")],
  ["QuerySubscriber calls", "Overlay::adnl_query", "Overlay::rldp_query"])
p("O09", "Old broadcasts are dropped and the broadcast log stays bounded",
  "A broadcast packet older than the configured broadcast timeout is ignored and a newer one is not, for every date value; after the retention time the log of finished broadcasts holds at most the configured number of entries, unfinished large broadcasts are abandoned once no part came for the timeout (to the second) and not before, and broadcasts still within retention are never forgotten early. Once its node is shut down and dropped, an overlay is freed after at most twice the timeout, whatever it had received.",
  ["histories", "configurations", "inputs"],
  "every date, log limit and history of broadcasts over time",
  "Needs a controlled clock; no overlay test exists.",
  [O+"overlay.rs"],
  [("outdated check and log collection", O+"overlay.rs")],
  ["Overlay::metrics", "Overlay::wait_for_broadcast"])
p("O10", "Received broadcasts are handed out exactly once and never stuck",
  "Every received broadcast is handed to exactly one of the waiting consumers, in order of arrival for a single consumer, whatever the number of concurrent waiters and even if waiters are cancelled at any point; a waiting consumer is woken for every broadcast that arrives and none is lost or stuck behind a cancelled waiter.",
  ["schedules", "histories"],
  "every interleaving of arrivals, waits and cancelled waits with one or several consumers",
  "No overlay test exists; cancellation points are schedules.",
  [O+"broadcast_receiver.rs", O+"overlay.rs"],
  [("received broadcasts queue", O+"broadcast_receiver.rs")],
  ["Overlay::wait_for_broadcast", "Overlay::metrics"])

p("O11", "A broadcast floods a connected overlay exactly once per node",
  "When every member forwards to all of its neighbours, a broadcast of any size originated by one member is delivered exactly once, byte-exact and attributed to its author, on every member that is connected to the originator through neighbour links, under every delay, reordering and duplication of the datagrams. The originator does not deliver it to itself and the flood ends.",
  ["configurations", "schedules", "inputs"],
  "every small overlay topology, data size, originator and schedule of datagrams",
  "No overlay test exists; needs several nodes and a controlled network.",
  [O+"overlay.rs", O+"node.rs", A+"peers_set.rs"],
  [("redistribution", O+"overlay.rs"), ("broadcast log", O+"overlay.rs")],
  ["Overlay::wait_for_broadcast", "datagrams on the wire"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, s)
print(len(P), "properties")
