//! U05: all layers of a node side by side
use super::r1::{sized_answer, sized_query};
use crate::dh::{ONode, Rec};
use crate::fx::*;
use crate::ov::*;
use crate::rl::{NetCfg, World};
use everscale_network::overlay::{self, BroadcastTarget, IdShort, Overlay};
use everscale_network::{adnl, dht, proto, rldp, tl, NetworkBuilder, QuerySubscriber};
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct Layout {
    /// order of the layers
    order: u8,
    /// whether the user's subscribers come before the layers
    first: bool,
    dht_tag: u8,
    ov_tag: u8,
    compress: bool,
    /// whether a peer filter is given
    filter: bool,
    /// whether there is a handler for the second overlay
    second: bool,
}
#[derive(Clone, Debug)]
struct Op {
    kind: u8,
    from: u8,
    to: u8,
    /// local and remote key
    keys: (u8, u8),
    len: u16,
    ans: u16,
}
#[derive(Clone, Debug)]
struct C5 {
    seed: u64,
    nodes: Vec<Layout>,
    /// the second overlay is private
    private: bool,
    net: NetCfg,
    batches: Vec<Vec<Op>>,
}
fn layout() -> impl Strategy<Value = Layout> {
    (0u8..3, any::<bool>(), 0u8..3, 0u8..3, any::<bool>(), any::<bool>(), prop::bool::weighted(0.7)).prop_map(|(order, first, dht_tag, ov_tag, compress, filter, second)| Layout { order, first, dht_tag, ov_tag, compress, filter, second })
}
fn c5() -> impl Strategy<Value = C5> {
    let len = || prop_oneof![4 => 16u16..200, 1 => 600u16..4000];
    let op = (0u8..12, any::<u8>(), any::<u8>(), (0u8..3, 0u8..3), len(), len()).prop_map(|(kind, from, to, keys, len, ans)| Op { kind, from, to, keys, len, ans });
    (
        1u64..1_000_000,
        prop::collection::vec(layout(), 2..4),
        any::<bool>(),
        (any::<u64>(), prop_oneof![2 => Just(0u16), 1 => 0u16..300], prop_oneof![2 => Just(0u32), 1 => 0u32..60], prop_oneof![1 => Just(0u32), 2 => 0u32..30]).prop_map(|(seed, dup, delay, jitter)| NetCfg { seed, dup, delay, jitter, ..Default::default() }),
        prop::collection::vec(prop::collection::vec(op, 1..9), 1..4),
    )
        .prop_map(|(seed, nodes, private, net, batches)| C5 { seed: seed * 1000, nodes, private, net, batches })
}

struct Full {
    adnl: Arc<adnl::Node>,
    rldp: Arc<rldp::Node>,
    dht: Arc<dht::Node>,
    /// two overlays
    o: [Arc<Overlay>; 2],
    keys: Vec<Key>,
    addr: SocketAddrV4,
    events: Arc<Mutex<Vec<Ev>>>,
    l: Layout,
}
const MINE: u32 = 0x4e55_0001;
fn behave(e: &Ev) -> Reply {
    match (e.constructor == MINE, e.query) {
        (false, _) => Reply::Reject,
        (true, true) => Reply::Answer(sized_answer(&e.data)),
        (true, false) => Reply::NoAnswer,
    }
}
/// Refuses peers with even ports below 1024
struct NoEvens;
impl adnl::PeerFilter for NoEvens {
    fn check(&self, _ctx: adnl::NewPeerContext, addr: SocketAddrV4, _peer_id: &adnl::NodeIdShort) -> bool {
        addr.port() >= 1024 || addr.port() % 2 == 1
    }
}
type Layers = (Arc<adnl::Node>, Arc<rldp::Node>, Arc<dht::Node>, Arc<overlay::Node>);
fn build(keys: &[Key], at: usize, l: &Layout, tags: (usize, usize), events: &Arc<Mutex<Vec<Ev>>>) -> Result<(Layers, SocketAddrV4), Fail> {
    let mut last = String::new();
    for _ in 0..50 {
        let mut b = adnl::Keystore::builder();
        for (i, k) in keys.iter().enumerate() {
            b = b.with_tagged_key(k.seed, i).map_err(|e| Fail::Harness(format!("keystore: {e}")))?;
        }
        let addr = SocketAddrV4::new(ip(at), net::port());
        let ro = rldp::NodeOptions { force_compression: l.compress, query_min_timeout_ms: 500, query_max_timeout_ms: 3000, ..Default::default() };
        let ext: Arc<dyn QuerySubscriber> = Recorder::new(events, 2, behave);
        let user = Recorder::new(events, 1, behave);
        let mut nb = match l.filter {
            true => NetworkBuilder::with_adnl_ext(addr, b.build(), opts(), Arc::new(NoEvens)),
            false => NetworkBuilder::with_adnl(addr, b.build(), opts()),
        };
        if l.first {
            nb = nb.with_query_subscriber(user.clone()).with_message_subscriber(user.clone());
        }
        let r = match l.order {
            0 => {
                let n = nb.with_rldp_ext(ro, vec![ext]).with_dht(tags.0, dht::NodeOptions::default()).with_overlay(tags.1);
                let n = if l.first { n } else { n.with_query_subscriber(user.clone()).with_message_subscriber(user) };
                n.build().map(|(a, r, d, o)| (a, r, d, o))
            }
            1 => {
                let n = nb.with_rldp_ext(ro, vec![ext]).with_overlay(tags.1).with_dht(tags.0, dht::NodeOptions::default());
                let n = if l.first { n } else { n.with_query_subscriber(user.clone()).with_message_subscriber(user) };
                n.build().map(|(a, r, o, d)| (a, r, d, o))
            }
            _ => {
                let n = nb.with_dht(tags.0, dht::NodeOptions::default()).with_rldp_ext(ro, vec![ext]).with_overlay(tags.1);
                let n = if l.first { n } else { n.with_query_subscriber(user.clone()).with_message_subscriber(user) };
                n.build().map(|(a, d, r, o)| (a, r, d, o))
            }
        };
        match r {
            Ok(x) => return Ok((x, addr)),
            Err(e) => last = format!("{e:#}"),
        }
        // the port may be in use; a wrong tag will not help
        if tags.0 >= keys.len() || tags.1 >= keys.len() {
            return Err(Fail::Viol(last));
        }
    }
    Err(Fail::Harness(format!("cannot build a node: {last}")))
}

type Slot = Arc<Mutex<Option<Result<(), String>>>>;
fn spawn(f: impl Future<Output = Result<(), String>> + Send + 'static) -> Slot {
    let slot: Slot = Arc::new(Mutex::new(None));
    let s = slot.clone();
    tokio::spawn(async move {
        let r = f.await;
        *s.lock().unwrap() = Some(r);
    });
    slot
}
fn text<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

async fn layers(c: &C5) -> CaseResult {
    let full_id = overlay::IdFull::for_workchain_overlay(c.seed as i32, &sha256(&c.seed.to_le_bytes()));
    let oid = full_id.compute_short_id();
    let id = *oid.as_slice();
    let oid2 = overlay::IdFull::for_workchain_overlay(c.seed as i32 + 1, &sha256(&c.seed.to_le_bytes())).compute_short_id();
    let mut all: Vec<B32> = vec![];
    for (i, l) in c.nodes.iter().enumerate() {
        all.push(Key::nth(c.seed + i as u64 * 10 + l.ov_tag as u64).id);
    }
    let mut ns: Vec<Full> = vec![];
    for (i, l) in c.nodes.iter().enumerate() {
        let keys: Vec<Key> = (0..3).map(|k| Key::nth(c.seed + i as u64 * 10 + k)).collect();
        let events = Arc::new(Mutex::new(vec![]));
        let ((adnl, rldp, dht, on), addr) = build(&keys, i, l, (l.dht_tag as usize, l.ov_tag as usize), &events)?;
        check!(Arc::ptr_eq(rldp.adnl(), &adnl) && Arc::ptr_eq(dht.adnl(), &adnl) && Arc::ptr_eq(on.adnl(), &adnl), "the layers are of different nodes");
        check!(*dht.key().id() == short(&keys[l.dht_tag as usize].id), "the DHT has another key");
        let r: Arc<dyn QuerySubscriber> = Recorder::new(&events, 3, behave);
        check!(on.add_overlay_subscriber(IdShort::new(id), r), "a handler is refused");
        if l.second {
            let r: Arc<dyn QuerySubscriber> = Recorder::new(&events, 4, behave);
            check!(on.add_overlay_subscriber(oid2, r), "a handler is refused");
        }
        let r: Arc<dyn QuerySubscriber> = Recorder::new(&events, 5, behave);
        check!(!on.add_overlay_subscriber(IdShort::new(id), r), "a second handler is accepted");
        let (o, new) = on.add_public_overlay(&oid, oopts());
        check!(new && *o.overlay_key().id() == short(&keys[l.ov_tag as usize].id), "the overlay has another key");
        let (o2, new) = if c.private {
            let others: Vec<_> = all.iter().enumerate().filter(|x| x.0 != i).map(|x| short(x.1)).collect();
            on.add_private_overlay(&oid2, adnl.key_by_tag(l.ov_tag as usize).unwrap().clone(), &others, oopts())
        } else {
            on.add_public_overlay(&oid2, oopts())
        };
        check!(new && o2.id() == &oid2 && o.id() == &oid, "the overlays have other ids");
        check!(matches!(on.get_overlay(&oid2), Ok(x) if Arc::ptr_eq(&x, &o2)) && !on.add_public_overlay(&oid, oopts()).1, "an overlay is not found");
        let o = [o, o2];
        // building has started it
        check!(adnl.start().is_err(), "a node starts twice");
        ns.push(Full { adnl, rldp, dht, o, keys, addr, events, l: l.clone() });
    }
    // everybody knows everybody
    for a in &ns {
        for (i, k) in a.keys.iter().enumerate() {
            let r = Key::nth(c.seed + 700 + i as u64);
            for port in [1022, 1023] {
                let x = a.adnl.add_peer(adnl::NewPeerContext::Dht, &short(&k.id), &short(&r.id), SocketAddrV4::new(ip(9), port), full(&r.public));
                check!(matches!(x, Ok(y) if y == !(a.l.filter && port == 1022)), "a peer that the filter {} is added: {x:?}", if port == 1022 { "refuses" } else { "accepts" });
            }
        }
        for b in &ns {
            if Arc::ptr_eq(&a.adnl, &b.adnl) {
                continue;
            }
            for k in &a.keys {
                for r in &b.keys {
                    let x = a.adnl.add_peer(adnl::NewPeerContext::Dht, &short(&k.id), &short(&r.id), b.addr, full(&r.public));
                    check!(matches!(x, Ok(true)), "add_peer: {x:?}");
                }
            }
            let rec = Rec::new(&b.keys[b.l.dht_tag as usize], b.addr, 1);
            let x = a.dht.add_dht_peer(rec.owned());
            check!(matches!(x, Ok(Some(_))), "add_dht_peer: {x:?}");
            let n = ONode::new(&b.keys[b.l.ov_tag as usize], &id, 1).owned();
            let x = a.o[0].add_public_peer(&a.adnl, b.addr, n.as_equivalent_ref());
            check!(matches!(x, Ok(Some(_))), "add_public_peer: {x:?}");
            if !c.private {
                let n = ONode::new(&b.keys[b.l.ov_tag as usize], oid2.as_slice(), 1).owned();
                let x = a.o[1].add_public_peer(&a.adnl, b.addr, n.as_equivalent_ref());
                check!(matches!(x, Ok(Some(_))), "add_public_peer: {x:?}");
            }
        }
    }
    let addrs: Vec<_> = ns.iter().map(|n| n.addr).collect();
    let mut w = World::new(&addrs, c.net.clone())?;
    let mut tag = c.seed;
    let mut most = 0;
    for batch in &c.batches {
        // (node, subscriber, query, local, peer, data)
        let mut want: Vec<(usize, Ev)> = vec![];
        let mut bcast: Vec<[BTreeMap<Vec<u8>, B32>; 2]> = vec![Default::default(); ns.len()];
        let mut slots: Vec<(usize, Slot)> = vec![];
        let mut stored = false;
        let mut kinds = std::collections::BTreeSet::new();
        for (n, op) in batch.iter().enumerate() {
            let i = op.from as usize % ns.len();
            let j = (i + 1 + op.to as usize % (ns.len() - 1)) % ns.len();
            let (a, b) = (&ns[i], &ns[j]);
            tag += 1;
            kinds.insert(op.kind);
            let mut d = sized_query(tag, op.len as usize, op.ans as usize);
            d[..4].copy_from_slice(&MINE.to_le_bytes());
            let ans = sized_answer(&d);
            let (lk, rk) = (op.keys.0 as usize, op.keys.1 as usize);
            let (l, r) = (short(&a.keys[lk].id), short(&b.keys[rk].id));
            let which = lk % 2;
            let (ol, or) = (*a.o[which].overlay_key().id(), *b.o[which].overlay_key().id());
            let heard = which == 0 || b.l.second;
            let dr = *b.dht.key().id();
            let mut expect = |sub: usize, query: bool, l: &adnl::NodeIdShort, r: &adnl::NodeIdShort, d: &[u8]| {
                want.push((j, Ev { sub, query, local: *r.as_slice(), peer: *l.as_slice(), constructor: MINE, data: d.to_vec() }))
            };
            let (adnl, rl, o, dh) = (a.adnl.clone(), a.rldp.clone(), a.o[which].clone(), a.dht.clone());
            let slot = match op.kind {
                0 => {
                    expect(1, true, &l, &r, &d);
                    spawn(async move {
                        let x = adnl.query_raw(&l, &r, d.into(), Some(3000)).await.map_err(text)?;
                        if x.as_deref() == Some(&ans) { Ok(()) } else { Err(format!("the answer is {:?} bytes", x.map(|x| x.len()))) }
                    })
                }
                1 => {
                    expect(2, true, &l, &r, &d);
                    spawn(async move {
                        let x = rl.query(&l, &r, d, None).await.map_err(text)?.0;
                        if x.as_deref() == Some(&ans) { Ok(()) } else { Err(format!("the answer is {:?} bytes", x.map(|x| x.len()))) }
                    })
                }
                2 => spawn(async move {
                    match dh.ping(&dr).await {
                        Ok(true) => Ok(()),
                        x => Err(format!("{x:?}")),
                    }
                }),
                3 if !stored => {
                    stored = true;
                    // an address is stored by one node and found by the other
                    let (dh2, key, addr) = (b.dht.clone(), adnl.key_by_tag(lk).unwrap().clone(), a.addr);
                    let public = a.keys[lk].public;
                    spawn(async move {
                        match dh.store_address(&key, addr).await {
                            Ok(true) => {}
                            x => return Err(format!("storing: {x:?}")),
                        }
                        match dh2.find_address(key.id()).await {
                            Ok((x, k)) if x == addr && k == full(&public) => Ok(()),
                            x => Err(format!("finding: {x:?}")),
                        }
                    })
                }
                4 if !stored => {
                    stored = true;
                    // an overlay member is stored by one node and found by the other
                    let (dh2, n, addr) = (b.dht.clone(), a.o[0].sign_local_node(), a.addr);
                    let key = adnl.key_by_tag(a.l.ov_tag as usize).unwrap().clone();
                    spawn(async move {
                        match dh.store_overlay_node(&full_id, n.as_equivalent_ref()).await {
                            Ok(true) => {}
                            x => return Err(format!("storing: {x:?}")),
                        }
                        match dh.store_address(&key, addr).await {
                            Ok(true) => {}
                            x => return Err(format!("storing the address: {x:?}")),
                        }
                        match dh2.find_overlay_nodes(&oid).await {
                            Ok(v) if v.iter().any(|(x, r)| *x == addr && tl::serialize(r.id.as_equivalent_ref()) == tl::serialize(n.id.as_equivalent_ref())) => Ok(()),
                            x => Err(format!("finding: {x:?}")),
                        }
                    })
                }
                5 => {
                    if heard {
                        expect(3 + which, true, &ol, &or, &d);
                    }
                    spawn(async move {
                        let x = o.adnl_query(&adnl, &or, tl::RawBytes::<tl::Boxed>::new(&d), Some(3000)).await.map_err(text)?;
                        if x.as_deref() == heard.then_some(&ans[..]) { Ok(()) } else { Err(format!("the answer is {:?} bytes", x.map(|x| x.len()))) }
                    })
                }
                6 => {
                    if heard {
                        expect(3 + which, true, &ol, &or, &d);
                    }
                    spawn(async move {
                        let x = o.rldp_query(&rl, &or, tl::RawBytes::<tl::Boxed>::new(&d), None).await.map_err(text)?.0;
                        if x.as_deref() == heard.then_some(&ans[..]) { Ok(()) } else { Err(format!("the answer is {:?} bytes", x.map(|x| x.len()))) }
                    })
                }
                7 => {
                    for (k, b) in bcast.iter_mut().enumerate() {
                        if k != i {
                            b[which].insert(d.clone(), *ol.as_slice());
                        }
                    }
                    let info = o.broadcast(&adnl, d, None, BroadcastTarget::RandomNeighbours);
                    check!(info.recipient_count == ns.len() - 1, "{} recipients are reported", info.recipient_count);
                    spawn(async { Ok(()) })
                }
                8 => {
                    expect(1, false, &l, &r, &d);
                    let x = adnl.send_custom_message(&l, &r, &d);
                    check!(x.is_ok(), "a custom message is refused: {x:?}");
                    spawn(async { Ok(()) })
                }
                9 | 10 => {
                    // requests that nobody knows, or of another layer
                    let known = op.kind == 10;
                    let mut d = d;
                    d[..4].copy_from_slice(&if known { vcore::tl::id::dht_ping() } else { MINE ^ 1 }.to_le_bytes());
                    spawn(async move {
                        let x = if known { rl.query(&l, &r, d, None).await.map_err(text)?.0 } else { adnl.query_raw(&l, &r, d.into(), Some(700)).await.map_err(text)? };
                        x.map_or(Ok(()), |x| Err(format!("an answer of {} bytes", x.len())))
                    })
                }
                _ => {
                    let own = *dh.key().id();
                    let known: Vec<B32> = ns.iter().map(|x| *x.dht.key().id().as_slice()).collect();
                    spawn(async move {
                        let v = dh.query_dht_nodes(&dr, 10, op_bool(n)).await.map_err(text)?;
                        let ids: Vec<B32> = v.iter().map(|x: &proto::dht::NodeOwned| sha256(&tl::serialize(x.id.as_equivalent_ref()))).collect();
                        if ids.iter().all(|x| known.contains(x)) && ids.contains(own.as_slice()) {
                            Ok(())
                        } else {
                            Err(format!("{} records, the own one is among them: {}", ids.len(), ids.contains(own.as_slice())))
                        }
                    })
                }
            };
            slots.push((n, slot));
        }
        most = most.max(kinds.len());
        let all = |slots: &[(usize, Slot)]| slots.iter().all(|s| s.1.lock().unwrap().is_some());
        let ok = w.run(30_000, 20, || all(&slots)).await;
        for (n, s) in &slots {
            let r = s.lock().unwrap().take();
            let op = &batch[*n];
            match r {
                Some(Ok(())) => {}
                Some(Err(e)) => viol!("{op:?} fails: {e}"),
                None => viol!("{op:?} does not end ({ok})"),
            }
        }
        // large broadcasts take their time
        w.run(1500, 10, || false).await;
        let mut got: Vec<(usize, Ev)> = vec![];
        for (k, n) in ns.iter().enumerate() {
            got.extend(std::mem::take(&mut *n.events.lock().unwrap()).into_iter().filter(|e| e.constructor == MINE).map(|e| (k, e)));
            for (x, o) in n.o.iter().enumerate() {
                let mut d = vec![];
                while o.metrics().received_broadcasts_data_len > 0 {
                    let b = o.wait_for_broadcast().await;
                    d.push((b.data, *b.from.as_slice()));
                }
                let m: BTreeMap<_, _> = d.iter().cloned().collect();
                check!(m.len() == d.len() && m == bcast[k][x], "node {k} gets {} broadcasts of overlay {x} instead of {}", d.len(), bcast[k][x].len());
            }
        }
        got.sort();
        want.sort();
        if c.net.dup > 0 {
            // requests carry their own numbers; the history of packets is off
            got.dedup();
        }
        if got != want {
            let brief = |v: &[(usize, Ev)]| v.iter().map(|(k, e)| format!("node {k} sub {} query {} {} bytes", e.sub, e.query, e.data.len())).collect::<Vec<_>>();
            viol!("handlers got {:?} instead of {:?} (or under other identities)", brief(&got), brief(&want));
        }
    }
    Ok(most > 2)
}
fn op_bool(n: usize) -> bool {
    n % 2 == 0
}

/// A layer whose key is not there
async fn wrong_tag(seed: u64, l: &Layout, tags: (usize, usize)) -> CaseResult {
    let keys: Vec<Key> = (0..3).map(|k| Key::nth(seed + k)).collect();
    let events = Arc::new(Mutex::new(vec![]));
    let bad = tags.0 > 2 || tags.1 > 2;
    match build(&keys, 0, l, tags, &events) {
        Ok(((a, ..), _)) => {
            check!(!bad, "a node is built with a key that does not exist ({tags:?})");
            check!(a.start().is_err(), "a node starts twice");
        }
        Err(Fail::Viol(_)) if bad => {}
        Err(e) => return Err(e),
    }
    Ok(bad)
}

/// Where a node listens
#[derive(Clone, Debug)]
struct Place {
    seed: u64,
    /// 0: Node::new, 1: builder with an address, 2: builder with a text, 3: builder with a list, 4: with a filter besides
    way: u8,
    /// 0: a port that is free, 1: any, 2: one that is in use
    port: u8,
    /// 0: an IPv4 address, 1: IPv6, 2: not an address, 3: no address at all
    kind: u8,
    host: usize,
    /// IPv6 addresses behind the first one of a list
    behind: bool,
}
async fn places(c: &Place) -> CaseResult {
    let me = Key::nth(c.seed);
    let ks = || adnl::Keystore::builder().with_tagged_key(me.seed, 5).map(|b| b.build()).map_err(|e| Fail::Harness(e.to_string()));
    let other = std::net::UdpSocket::bind((std::net::Ipv4Addr::UNSPECIFIED, 0)).map_err(|e| Fail::Harness(e.to_string()))?;
    let events = Arc::new(Mutex::new(vec![]));
    let rec = Recorder::new(&events, 1, |e: &Ev| if e.query { Reply::Answer(answer_for(&e.data)) } else { Reply::NoAnswer });
    let mut n = 0;
    let (node, port) = loop {
        let port = match c.port {
            0 => net::port(),
            1 => 0,
            _ => other.local_addr().unwrap().port(),
        };
        let v4 = std::net::SocketAddr::from((ip(c.host), port));
        let v6 = std::net::SocketAddr::from((std::net::Ipv6Addr::LOCALHOST, port));
        let mut list = vec![v4];
        if c.behind {
            list.push(v6);
        }
        let r = if c.way == 0 {
            adnl::Node::new(SocketAddrV4::new(ip(c.host), port), ks()?, opts(), None).and_then(|x| {
                x.add_query_subscriber(rec.clone())?;
                x.add_message_subscriber(rec.clone())?;
                x.start()?;
                Ok(x)
            })
        } else {
            let nb = match (c.way, c.kind) {
                (1, 1) => NetworkBuilder::with_adnl(v6, ks()?, opts()),
                (1, _) => NetworkBuilder::with_adnl(v4, ks()?, opts()),
                (2, 0) => NetworkBuilder::with_adnl(v4.to_string(), ks()?, opts()),
                (2, 1) => NetworkBuilder::with_adnl(v6.to_string(), ks()?, opts()),
                (2, _) => NetworkBuilder::with_adnl("300.1.2:70000", ks()?, opts()),
                (4, 0) => NetworkBuilder::with_adnl_ext(v4.to_string(), ks()?, opts(), Arc::new(NoEvens)),
                (4, 1) => NetworkBuilder::with_adnl_ext(v6, ks()?, opts(), Arc::new(NoEvens)),
                (_, 0) => NetworkBuilder::with_adnl(&list[..], ks()?, opts()),
                (_, 1) => NetworkBuilder::with_adnl(&[v6, v4][..], ks()?, opts()),
                _ => NetworkBuilder::with_adnl(&[][..], ks()?, opts()),
            };
            nb.with_query_subscriber(rec.clone()).with_message_subscriber(rec.clone()).build()
        };
        let bad = c.port == 2 || c.way > 0 && (c.kind == 1 || c.kind > 1 && c.way > 1);
        match r {
            Ok(_) if bad => viol!("a node is built {}", if c.port == 2 { "at a port that is in use" } else { "without an IPv4 address" }),
            Err(_) if bad => {
                check!(other.local_addr().is_ok(), "the other socket is gone");
                return Ok(true);
            }
            Ok(x) => break (x, port),
            Err(e) => {
                // somebody took the port meanwhile
                n += 1;
                need!(n < 50 && c.port == 0, "cannot build a node: {e:#}");
            }
        }
    };
    let at = node.socket_addr();
    check!(*at.ip() == ip(c.host) && at.port() != 0 && (port == 0 || at.port() == port), "a node for {}:{port} says it is at {at}", ip(c.host));
    check!(node.key_by_tag(5).is_ok() && node.key_by_tag(4).is_err(), "keys by tag");
    check!(matches!(node.key_by_id(&short(&me.id)), Ok(k) if *k.id() == short(&me.id)) && node.key_by_id(&short(&Key::nth(c.seed + 1).id)).is_err(), "keys by id");
    let l = node.build_address_list();
    check!(l.address.map(|a| SocketAddrV4::from(a)) == Some(at) && l.reinit_date == node.start_time(), "another address is in the list than {at}");
    let mut p = RefPeer::to_key(Key::nth(c.seed + 1), &me, SocketAddrV4::new(std::net::Ipv4Addr::LOCALHOST, at.port()));
    // its packets are the first thing the node hears: they arrive, and the answers name the place
    let d = p.link.handshake(vec![Msg::Query { id: [7; 32], data: vec![1; 8] }]);
    p.raw(&d);
    let mut got = vec![];
    let ok = until(|| {
        got.extend(p.poll());
        got.iter().any(|g: &vcore::adnl::Got| g.packet.messages.iter().any(|m| matches!(m, Msg::Answer { id, data } if *id == [7; 32] && *data == answer_for(&[1; 8]))))
    })
    .await;
    check!(ok, "a node at {at} does not answer");
    for g in &got {
        let a = g.packet.address.as_ref().map(|a| a.addrs.clone()).unwrap_or_default();
        check!(a == [(u32::from(*at.ip()), at.port() as u32)], "a node at {at} announces {a:?}");
    }
    node.shutdown();
    Ok(c.port == 1 || c.way > 0)
}

pub fn u05_run(c: &mut Ctx) {
    c.scenario("layers", "more than two kinds of requests at once", 1500, c5, |v| run(layers(v)));
    c.scenario(
        "wrong_tag",
        "a layer's key does not exist",
        100,
        || (1u64..1_000_000, layout(), (0usize..5, 0usize..5)),
        |(s, l, t)| run(wrong_tag(*s * 1000, l, *t)),
    );
    c.scenario(
        "places",
        "the port is chosen by the system, or the address given to the builder",
        300,
        || (1u64..1_000_000, 0u8..5, prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8)], prop_oneof![5 => Just(0u8), 1 => 1u8..4], 1usize..200, any::<bool>()).prop_map(|(seed, way, port, kind, host, behind)| Place { seed: seed * 1000, way, port, kind, host, behind }),
        |v| run(places(v)),
    );
}
