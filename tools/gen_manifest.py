#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, re
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
reg = set(re.findall(r'\("([A-Z]\d\d)"', open("/verif/harness/src/p/mod.rs").read()))
T = {
 "A01": "structured mutation fuzzing of datagrams built by an independent ADNL implementation; oracle: no effect in handlers, tables or counters",
 "A02": "property-based testing of messages through an intercepted network (split, permuted, lost, duplicated, mixed); oracle: exact delivery by arrival",
 "A03": "stateful property-based testing of channel setup between two nodes and against a reference peer under generated schedules; oracle: delivery and convergence",
 "A04": "stateful property-based testing against a sliding-window reference model",
 "A05": "property-based testing of packets with generated reinit dates and seqnos against a reference model of the acceptance rule",
 "A06": "stateful property-based testing of interleaved queries in virtual time against a reference model",
 "A07": "stateful (model-based) testing of the peer table with several local identities",
 "A08": "stateful property-based testing of restarts, removals and silence in virtual time; reference model of the reset rule",
 "A09": "structured fuzzing of authenticated and raw datagrams; invariants: no panic, service continues, memory returns",
 "A10": "differential property-based testing against an independent implementation of the packet format, in both directions",
 "A11": "stateful property-based testing of subscriber chains against a reference model",
 "A12": "property-based search for the longest datagram over message sizes, states and protocols; invariant: below the MTU",
 "A13": "stateful property-based testing of stops, restarts and moves of real nodes in virtual time; oracle: exact deliveries, silence after the stop, reachability after the restart",
 "U01": "stateful (model-based) testing of the peers set",
 "U02": "stateful (model-based) testing of the keystore",
 "U03": "differential property-based testing of identifiers and signatures against independent encodings",
 "U04": "differential structured fuzzing of every protocol type against an independent TL writer, with truncations, constructor and bit flips and a counting allocator",
 "U05": "model-based property testing of complete nodes: random concurrent mixes of requests of all layers over a simulated network; oracle: exact multiset of handler calls and answers",
 "R01": "property-based testing of RLDP over a simulated lossy network in virtual time, and against a reference RLDP peer; oracle: exact bytes, at most once, symbol-exact encoding",
 "R02": "property-based testing of transfer sizes around the limits with a counting allocator",
 "R03": "stateful property-based testing of transfer endings in virtual time; invariant: the table empties",
 "R04": "property-based testing of payload and compression combinations against a reference codec",
 "R05": "structured fuzzing of RLDP messages next to honest transfers; invariants: no panic, honest transfers complete",
 "D01": "structured mutation fuzzing of stored values under every update rule; oracle: independent validation of the rule, state read back",
 "D02": "stateful property-based testing against a newest-wins map in virtual time",
 "D03": "stateful property-based testing against a highest-version map; metamorphic relation over the order of lists",
 "D04": "fault injection by generated malicious DHT peers next to honest ones; oracle: independently verified values, genuine value found, lookup ends",
 "D05": "property-based testing of find answers against a reference search over the known records",
 "D06": "stateful property-based testing with mutated node records over every way of introduction; reference model of admission",
 "D07": "stateful (model-based) testing of penalty points in virtual time",
 "D08": "property-based testing of generated DHT topologies with silent nodes and losses; oracle: reachability in a reference model",
 "D09": "structured and byte-level fuzzing of DHT requests and answers in a child process; invariants: no crash or hang, state unchanged, service continues",
 "D10": "stateful property-based testing of the node's own requests against reference DHT peers; oracle: independently encoded queries, signed records and values, exact results",
 "O01": "structured mutation fuzzing of signed broadcasts; oracle: independent signature rule, deliveries and forwards",
 "O02": "property-based testing of part schedules with injected forged parts; oracle: exact data and author, nothing forged forwarded",
 "O03": "stateful property-based testing of repeated packets from several peers, also from several threads at once; oracle: at most once",
 "O04": "property-based testing of sending to generated targets, observed on the wire and at real receivers",
 "O05": "property-based testing of redistribution over generated neighbour sets; oracle: byte equality, counts and sender exclusion",
 "O06": "stateful (model-based) testing of overlay membership",
 "O07": "stateful (model-based) testing of peer exchange with mutated records on both sides",
 "O08": "property-based testing of overlay dispatch over ADNL and RLDP against a routing model",
 "O09": "stateful property-based testing of dates and the broadcast log in virtual time",
 "O10": "stateful testing of generated schedules of arrivals, waits and cancellations, single and multi-threaded; oracle: multiset and order",
 "O11": "property-based testing of generated overlay graphs over a simulated network; oracle: connected component, exactly once",
}
NOTE = "generated-input search over the real node on loopback sockets in virtual time; covers what was explored, not all inputs"
checks, na = [], []
for i in ids:
    if i in reg:
        checks.append({"property": i, "quick_cmd": f"bash /verif/run.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash /verif/run.sh {i}",
                       "technique": T[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash /verif/run.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness uses the public API, loopback sockets, an interposed clock and a counting allocator. Genuine defects found are listed in KNOWN_FINDINGS."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "open:", [x["property"] for x in na])
