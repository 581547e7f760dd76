# id -> (generated, oracle, bounds / why tests cannot)
N = {
'A01': ('datagrams built by the reference peer with every combination of source fields, signatures, keys, channels and reinit dates, then spoiled at bit, field, key or address level; the node has several identities, known and unknown peers, filters', 'exact prediction of the effect of each datagram (delivery, peer, address, channel) from the key that really produced it; all handlers, peer tables, replies compared', 'up to ~20 datagrams per case, 1–3 identities'),
'A02': ('message lists of 4 bytes to ~200 kB split by the reference side or by the node, datagrams permuted, repeated, lost, delayed around the transfer timeout; equal messages; two peers; `pieces`: the parts of many messages arriving at the same time on several threads', 'the list of delivered messages: exactly the predicted bytes and identities', 'messages up to some hundred kB in quick'),
'A03': ('two real nodes or node and reference peer; both sides open at once; per-datagram loss, duplication, delay, replays of recorded setup datagrams', 'every message whose datagrams passed is delivered; after loss ends both directions are on the channel within a bounded number of messages (the wire is parsed to see it)', 'about 40 steps'),
'A04': ('sequence-number histories (steps, jumps, wraps of the window, u64 extremes, replays) for ordinary and priority, handshake and channel', 'reference model of the window: processed exactly once; never for a used number; always for a new one inside of the window', 'thousands of packets in `long_runs`'),
'A05': ('packets with arbitrary reinit dates and confirmations, clock moves, resets, restarts', 'state machine of the protocol (own announced date, newest accepted date, highest sent number) predicts processed/dropped and the resynchronising reply', '~25 steps'),
'A06': ('histories of queries with timeouts, dropped futures, answers (right, late, repeated, unknown id, other peer) and clock moves', 'map of pending ids: outcome and moment of each query, pending count in the metrics', '~30 steps'),
'A07': ('histories of add/remove/packets/filters over several identities and peers; packets from other hosts with address matching on and off; `peers_at_once`: one peer added and removed from several threads that start together', 'model map (identity, peer) → address; what is on the wire after each step', '~25 steps'),
'A08': ('restarting and forgetting peers, silence patterns, query failures, reset times; generated clock tolerance', 'the channel is given up exactly after the reset time without arrivals, communication recovers within a bounded number of queries; a channel with arrivals stays', 'minutes of virtual time'),
'A09': ('structured hostile packets: valid envelope with generated TL (nested, truncated, huge counts), raw bytes, multipart floods', 'no panic/hang, honest query answered afterwards, live memory and incomplete transfers back to the start after the timeout', '~40 packets, 50–2000 incomplete messages'),
'A10': ('everything the node can emit/accept: flags, paddings, orders of keys, versions, priority, message lists; packets without version whose first bytes look like a version (`lookalike`, `lookalike_handshake`), found by search over the random bytes; `numbers_at_once`: packets sent by several threads together', 'independent encoder/decoder in both directions (round trip against an independent implementation)', 'all flag combinations sampled'),
'A11': ('subscriber lists with generated consume/reject/answer/error behaviour, at once or after letting other tasks run for up to 20 turns before and after deciding, messages in lists', 'the predicted offer log and answers', 'up to 5 subscribers'),
'A12': ('message sizes around every splitting border, every kind, channel state and version; RLDP, DHT and overlay on top', 'length of every datagram on the wire < 1500', 'borders enumerated by generator weights'),
'A13': ('two real nodes; messages and queries of both sides, waits, failing runs, restarts on the same or another port after any downtime; stops in the middle of traffic, second starts; a node with a DHT dropped while its requests are under way', 'exact deliveries and answers per life, reachability rule of the reset time, silence on the wire and memory freed after the stop', '13 operations, 100 s per wait'),
'U01': ('operation histories incl. random selection with any amount, several sets', 'reference ring model; set relations for random choices', '~60 operations'),
'U02': ('histories of key additions with colliding tags/keys', 'model map; signatures verified by the independent crypto', '~25 operations'),
'U03': ('all kinds of keys, names, shards, records; spoils', 'independent TL + SHA-256 + Ed25519', '-'),
'U04': ('50 kinds of protocol values with all combinations of optional fields and lengths around the TL length boundaries; truncations, foreign constructors, bit flips', 'independent TL writer (bytes equal), read back and written again, refusal, memory high-water mark', 'fields up to 66 KB'),
 'U05': ('2–3 nodes built in three layer orders with keys per layer and handlers before/after; up to 8 concurrent requests of ten kinds per batch over a duplicating, delaying network; missing tags; `places`: addresses and ports given, port 0, used ports, IPv6 and unreadable addresses', 'exact multiset of handler calls with identities; every answer belongs to its query; build errors', '3 batches'),
 'R01': ('two real nodes over the simulated network (loss up to 90 %, delay, duplication, blackouts, wave sizes, timeouts), and the reference peer as responder or asker with any legal slicing, symbol size, symbol order, lost acknowledgements and repetition; repeated symbols of finished transfers, also while a slow handler works', 'bytes at the handler and at the caller; liveness bound only for networks within stated limits; contents of every symbol emitted (RaptorQ reference); the completion message for every repeated symbol', 'up to ~4.5 MB, 60 s of virtual time'),
'R02': ('announced sizes and real sizes around the limits, disagreeing announcements', 'delivered exactly up to the limit; memory high-water mark', '-'),
'R03': ('all ways a transfer can end on both sides, abandoned futures, concurrency limits; `queries_at_once`: first queries of a peer started by several threads together; nodes dropped with transfers under way', 'table length and limiter count in the metrics at the documented moments; number of queries on the wire at a time', '-'),
'R04': ('payloads of all entropies, compression on either side, forged envelopes, bombs', 'bytes at handler and caller; parsed wire; memory high-water mark', 'bombs of up to GBs announced'),
'R05': ('hostile parts/acks for random, finished, running transfers', 'no panic/hang, honest transfers complete with the right bytes', '-'),
'D01': ('values with every field and signature altered, every rule, limits, expiry; local and remote', 'independent update-rule check; state compared before/after', '-'),
'D02': ('histories of stores, clock moves (to the second), collections; two arrival orders; `at_once`: conflicting stores of one key from several threads that start together', 'model map newest-wins; counts', '-'),
'D03': ('lists with versions, invalid members, expiry, orders; `at_once`: lists stored from several threads that start together', 'model merge', '-'),
'D04': ('lookups against reference servers replying with forgeries, foreign keys, garbage, silence and genuine values', 'returned value is in the set of genuine ones; found if an honest holder was asked; the lookup ends within bounded virtual time', 'up to ~8 servers'),
'D05': ('tables of nodes in generated prefix groups, requests of all k', 'set relation per prefix group', '-'),
'D06': ('records by application, request and answer with every field spoiled; `at_once`: records of one node from several threads that start together', 'exact prediction of the known set and of the records handed out', '-'),
'D07': ('histories of pings, answers, silence, re-adds', 'score model; which peers are asked', '-'),
'D08': ('networks of real and reference nodes with silent and lossy ones; `rounds`: member searches over servers that name each other and hold several lists', 'store result ⇔ confirmations seen; every accepting node answers; full lookup finds', 'up to ~8 nodes'),
'D09': ('structured hostile requests/answers incl. nesting of thousands of prefixes', 'no panic/abort/hang, state unchanged by refused ones, honest requests answered', '-'),
'D10': ('histories of pings, node and value searches, stores, signatures, address and member stores, waits over up to 5 reference peers that hold values and name each other; option values; `stores`: peers that forget, are silent, or hold older, outdated or unreadable values; forged members; query timeouts', 'bytes of every query at every peer, independently encoded; introductions; results', '5 peers'),
'O01': ('packet histories: genuine, altered in each field, expired, unknown overlay, two overlays, flags', 'independent signature and id check predicts delivery and forwarding of each packet', '-'),
'O02': ('FEC parts of several broadcasts interleaved with altered, forged, mismatching, malformed ones; loss, order, duplication', 'delivered exactly when enough genuine parts arrived (± RaptorQ decodability by the reference decoder), exact bytes and author', 'up to ~100 kB'),
'O03': ('repetitions from all peers, also from several threads at once', 'each delivery/forward at most once within retention', '-'),
'O04': ('sizes around the ordinary/large border, targets, neighbours; real nodes', 'what every neighbour\'s socket got, decoded by the reference', '-'),
'O05': ('as O01/O02 with many neighbours and limits', 'forwarded bytes, distinct targets, count, sender excluded', '-'),
'O06': ('histories of records (valid, spoiled), removals, re-adds, exchanges, broadcasts; `at_once`: one overlay and records of one member of it created and removed by several threads that start together; more members than neighbours over many refresh intervals', 'model of member states; wire recipients; counts; neighbours offered at every interval', '60 refresh intervals per member'),
'O07': ('requests and answers with generated records; `at_once`: one overlay and records of one member of it created and removed by several threads that start together; `requests_at_once`: requests handled by several threads together', 'model of newest valid records', '-'),
'O08': ('queries over ADNL and RLDP with prefixes of several overlays; `at_once`: one overlay and records of one member of it created and removed by several threads that start together; direct queries and exchanges with a silent peer', 'predicted handler log and answers', '-'),
'O09': ('dates to the second around the timeout, log limits, slow large broadcasts; nodes dropped with broadcasts under way', 'model of the log with retention; the overlay object is gone', 'minutes of virtual time'),
'O10': ('histories of waiters, cancellations and arrivals, and threads', 'each broadcast handed out exactly once, FIFO for one consumer', '-'),
'O11': ('graphs of up to ~8 real nodes, delays, duplication', 'exactly one delivery on every reachable node, flood ends', '-'),
}
