//! A13
use crate::fx::*;
use everscale_network::adnl;
use proptest::prelude::*;
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ restarts

#[derive(Clone, Debug)]
enum LifeOp {
    Tell { from: u8, len: u16 },
    Ask { from: u8, len: u16 },
    Wait { ms: u32 },
    /// the node is stopped and started again with the same key, perhaps on another port
    Restart { who: u8, moved: bool, down: u16 },
    /// a run of queries over `sec` seconds
    Keep { from: u8, sec: u8 },
}
#[derive(Clone, Debug)]
struct Life {
    seed: u64,
    history: bool,
    priority: bool,
    version: bool,
    ops: Vec<LifeOp>,
}
fn life_gen() -> impl Strategy<Value = Life> {
    let who = || 0u8..2;
    let op = prop_oneof![
        4 => (who(), 0u16..3000).prop_map(|(from, len)| LifeOp::Tell { from, len }),
        4 => (who(), 0u16..3000).prop_map(|(from, len)| LifeOp::Ask { from, len }),
        2 => (0u32..5000).prop_map(|ms| LifeOp::Wait { ms }),
        1 => (0u32..100_000).prop_map(|ms| LifeOp::Wait { ms }),
        3 => (who(), prop::bool::weighted(0.25), 0u16..20_000).prop_map(|(who, moved, down)| LifeOp::Restart { who, moved, down }),
        1 => (who(), 33u8..60).prop_map(|(from, sec)| LifeOp::Keep { from, sec }),
    ];
    (1u64..1_000_000, any::<bool>(), any::<bool>(), prop::bool::weighted(0.2), prop::collection::vec(op, 3..14))
        .prop_map(|(seed, history, priority, version, ops)| Life { seed, history, priority, version, ops })
}

struct LiveNode {
    key: Key,
    sut: Option<Sut>,
    addr: SocketAddrV4,
    /// nothing was exchanged since its start
    fresh: bool,
    /// it may know an earlier life of the other one
    stale: bool,
    /// it may know an old address of the other one
    lost: bool,
    /// end of the first failed query of a run
    failing: Option<u64>,
}

fn live(key: &Key, o: adnl::NodeOptions, at: Option<SocketAddrV4>) -> Result<Sut, Fail> {
    let Some(addr) = at else { return Sut::with(std::slice::from_ref(key), LOCAL, o, default_reply) };
    let b = adnl::Keystore::builder().with_tagged_key(key.seed, 0).map_err(|e| Fail::Harness(e.to_string()))?.build();
    let node = adnl::Node::new(addr, b, o, None).map_err(|e| Fail::Harness(format!("the port was not free again: {e}")))?;
    let events = Arc::new(Mutex::new(vec![]));
    let r = Recorder::new(&events, 0, default_reply);
    node.add_query_subscriber(r.clone()).unwrap();
    node.add_message_subscriber(r).unwrap();
    node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
    Ok(Sut { node, keys: vec![key.clone()], addr, events })
}

async fn life(c: &Life) -> CaseResult {
    let o = adnl::NodeOptions {
        packet_history_enabled: c.history,
        force_use_priority_channels: c.priority,
        version: c.version.then_some(0),
        ..opts()
    };
    let mut n: Vec<LiveNode> = vec![];
    for i in 0..2u64 {
        let key = Key::nth(c.seed * 10 + i);
        let sut = live(&key, o, None)?;
        let addr = sut.addr;
        n.push(LiveNode { key, sut: Some(sut), addr, fresh: true, stale: false, lost: false, failing: None });
    }
    for i in 0..2 {
        let (k, a) = (n[1 - i].key.clone(), n[1 - i].addr);
        n[i].sut.as_ref().unwrap().add_peer(&k, a);
    }
    let mut serial = 0u64;
    let mut restarts = 0;
    let mut after = 0;
    let ops: Vec<LifeOp> = c
        .ops
        .iter()
        .flat_map(|op| match op {
            LifeOp::Keep { from, sec } => {
                let mut v = vec![LifeOp::Ask { from: *from, len: 8 }, LifeOp::Wait { ms: *sec as u32 * 1000 }];
                v.extend([LifeOp::Ask { from: *from, len: 8 }, LifeOp::Ask { from: *from, len: 8 }]);
                v
            }
            op => vec![op.clone()],
        })
        .collect();
    for op in &ops {
        match op {
            LifeOp::Wait { ms } => advance(*ms as u64, 500).await,
            LifeOp::Restart { who, moved, down } => {
                let (x, y) = (*who as usize, 1 - *who as usize);
                let old = n[x].sut.take().unwrap();
                let weak = Arc::downgrade(&old.node);
                old.node.shutdown();
                advance(2000, 500).await;
                drop(old);
                advance(*down as u64, 500).await;
                check!(weak.upgrade().is_none(), "a node that was stopped and dropped is still there {} ms later", 2000 + *down as u64);
                let at = (!moved).then_some(n[x].addr);
                let sut = live(&n[x].key, o, at)?;
                n[x].addr = sut.addr;
                sut.add_peer(&n[y].key.clone(), n[y].addr);
                let (k, a) = (n[y].key.clone(), n[y].addr);
                n[x] = LiveNode { key: n[x].key.clone(), addr: n[x].addr, sut: Some(sut), fresh: true, stale: false, lost: false, failing: None };
                let _ = (k, a);
                n[y].stale |= !n[y].fresh;
                n[y].lost |= *moved;
                n[y].failing = None;
                restarts += 1;
            }
            LifeOp::Tell { from, len } | LifeOp::Ask { from, len } => {
                let ask = matches!(op, LifeOp::Ask { .. });
                let (x, y) = (*from as usize, 1 - *from as usize);
                serial += 1;
                let data = payload(c.seed * 1000 + serial, *len as usize + 8);
                let sure = !n[x].stale && !n[x].lost;
                n[0].fresh = false;
                n[1].fresh = false;
                let (node, me, you) = (n[x].sut.as_ref().unwrap().node.clone(), n[x].key.clone(), n[y].key.clone());
                let mut answered = false;
                if ask {
                    let d = data.clone();
                    let h = tokio::spawn(async move { node.query_raw(&short(&me.id), &short(&you.id), d.into(), Some(1000)).await });
                    if sure {
                        until(|| h.is_finished()).await;
                    } else {
                        settle().await;
                        std::thread::sleep(std::time::Duration::from_micros(50));
                        settle().await;
                    }
                    let t0 = clock::ms();
                    while !h.is_finished() && clock::ms() < t0 + 1200 {
                        advance(50, 50).await;
                    }
                    check!(h.is_finished(), "a query with a timeout of 1 s is not over after {} ms", clock::ms() - t0);
                    let r = h.await.map_err(|e| Fail::Harness(e.to_string()))?;
                    match r {
                        Ok(Some(a)) => {
                            check!(a == answer_for(&data), "a query of {} bytes got another answer of {} bytes", data.len(), a.len());
                            answered = true;
                        }
                        Ok(None) => {}
                        Err(e) => viol!("a query failed: {e}"),
                    }
                    if sure && !answered {
                        viol!("node {x} asks {y} after {restarts} restarts, nothing is lost, and gets no answer");
                    }
                } else {
                    if let Err(e) = node.send_custom_message(&short(&me.id), &short(&you.id), &data) {
                        viol!("a message could not be sent: {e}");
                    }
                    let ev = n[y].sut.as_ref().unwrap().events.clone();
                    if sure {
                        until(|| !ev.lock().unwrap().is_empty()).await;
                    }
                    settle().await;
                }
                let evs = n[y].sut.as_ref().unwrap().take();
                check!(evs.len() <= 1, "one request was handled {} times", evs.len());
                check!(n[x].sut.as_ref().unwrap().take().is_empty(), "a request came to its own sender");
                for e in &evs {
                    let want = (ask, n[y].key.id, n[x].key.id, &data);
                    check!((e.query, e.local, e.peer, &e.data) == want, "a request of {} bytes arrived as {} bytes, query: {}", data.len(), e.data.len(), e.query);
                }
                if sure && evs.is_empty() {
                    viol!("a message from {x} to {y} after {restarts} restarts, nothing is lost, does not arrive");
                }
                if restarts > 0 && sure {
                    after += 1;
                }
                if !evs.is_empty() {
                    n[y].stale = false;
                    n[y].lost = false;
                    n[y].failing = None;
                }
                if answered {
                    n[x].stale = false;
                    n[x].failing = None;
                } else if ask {
                    match n[x].failing {
                        None => n[x].failing = Some(clock::ms()),
                        // whatever it knew is dropped now
                        Some(t) if clock::ms() >= t + 32_000 => {
                            n[x].stale = false;
                            n[x].failing = None;
                        }
                        _ => {}
                    }
                }
            }
            LifeOp::Keep { .. } => unreachable!(),
        }
    }
    Ok(restarts > 0 && after > 1)
}

// ------------------------------------------------------------------ stop

#[derive(Clone, Debug)]
struct Stop {
    seed: u64,
    peers: u8,
    /// pending queries: peer, timeout
    pending: Vec<(u8, Option<u16>)>,
    /// when it is stopped
    at: u16,
    /// what arrives afterwards: peer, query, priority, length, over the channel
    later: Vec<(u8, bool, bool, u16, bool)>,
    /// parts of a message are there already
    part: bool,
    /// what the user does with the stopped node
    own: Vec<(bool, u8)>,
}
fn stop_gen() -> impl Strategy<Value = Stop> {
    (
        1u64..1_000_000,
        1u8..4,
        prop::collection::vec((0u8..4, prop::option::of(100u16..8000)), 0..5),
        0u16..3000,
        prop::collection::vec((0u8..4, any::<bool>(), any::<bool>(), 0u16..3000, any::<bool>()), 1..10),
        any::<bool>(),
        prop::collection::vec((any::<bool>(), 0u8..4), 0..4),
    )
        .prop_map(|(seed, peers, pending, at, later, part, own)| Stop { seed, peers, pending, at, later, part, own })
}
async fn stop(c: &Stop) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed * 10), opts())?;
    let r = Recorder::new(&s.events, 1, default_reply);
    check!(s.node.add_query_subscriber(r.clone()).is_err(), "a query handler is taken after the start");
    check!(s.node.add_message_subscriber(r).is_err(), "a message handler is taken after the start");
    check!(s.node.start().is_err(), "a node starts twice");
    let mut peers = vec![];
    for i in 0..c.peers as u64 {
        let mut p = RefPeer::new(Key::nth(c.seed * 10 + 1 + i), &s);
        p.connect().await?;
        peers.push(p);
    }
    let p = |i: u8| i as usize % c.peers as usize;
    let part = |l: &mut vcore::adnl::Link| {
        let d = l.datagrams(false, Msg::Custom(payload(c.seed + 5, 2500)));
        (d[0].clone(), d[1..].to_vec())
    };
    let mut rest = vec![];
    if c.part {
        let (a, b) = part(&mut peers[0].link);
        peers[0].raw(&a);
        rest = b;
    }
    let mut hs = vec![];
    for (i, (who, timeout)) in c.pending.iter().enumerate() {
        let (node, me, you) = (s.node.clone(), s.id(), peers[p(*who)].id());
        let (d, t) = (payload(c.seed + 50 + i as u64, 40), timeout.map(|x| x as u64));
        let limit = clock::ms() + t.unwrap_or(5000).max(500);
        hs.push((tokio::spawn(async move { node.query_raw(&me, &you, d.into(), t).await }), limit));
    }
    settle().await;
    advance(c.at as u64, 50).await;
    s.take();
    for q in peers.iter_mut() {
        q.poll();
    }
    s.node.shutdown();
    settle().await;
    let mut ended = vec![];
    for (h, limit) in hs {
        if h.is_finished() {
            ended.push(h);
        } else {
            // still to end
            while !h.is_finished() && clock::ms() < limit + 100 {
                advance(20, 20).await;
            }
            check!(h.is_finished(), "a query is pending {} ms after its timeout, the node was stopped", clock::ms() - limit);
            ended.push(h);
        }
    }
    for h in ended {
        if let Ok(Ok(Some(a))) = h.await {
            viol!("a query got an answer of {} bytes that nobody sent", a.len());
        }
    }
    for d in &rest {
        peers[0].raw(d);
    }
    for (i, (who, query, prio, len, chan)) in c.later.iter().enumerate() {
        let q = &mut peers[p(*who)];
        let d = payload(c.seed + 100 + i as u64, *len as usize + 8);
        let m = match query {
            true => Msg::Query { id: sha256(&d), data: d },
            false => Msg::Custom(d),
        };
        if !chan {
            q.link = vcore::adnl::Link::new(q.link.me.clone(), q.sock.addr, s.keys[0].public);
        }
        q.send_msg(*prio, m);
        settle().await;
    }
    for (query, who) in &c.own {
        let (me, you) = (s.id(), peers[p(*who)].id());
        match query {
            true => {
                let node = s.node.clone();
                let h = tokio::spawn(async move { node.query_raw(&me, &you, payload(1, 20).into(), Some(700)).await });
                settle().await;
                advance(800, 50).await;
                check!(h.is_finished(), "a query of a stopped node does not end");
                if let Ok(Ok(Some(_))) = h.await {
                    viol!("a query of a stopped node got an answer");
                }
            }
            false => {
                // refused or lost
                s.node.send_custom_message(&me, &you, &payload(2, 20)).ok();
            }
        }
    }
    advance(6000, 500).await;
    let ev = s.take();
    check!(ev.is_empty(), "{} requests were handed out by a stopped node", ev.len());
    for q in peers.iter_mut() {
        let got = q.sock.recv();
        check!(got.is_none(), "a stopped node sent a datagram");
    }
    check!(s.node.start().is_err(), "a stopped node starts again");
    check!(s.node.metrics().query_count == 0, "{} queries are left in a stopped node", s.node.metrics().query_count);
    Ok(!c.pending.is_empty())
}

/// A node with a DHT that is stopped and dropped while its searches and stores are under way
#[derive(Clone, Debug)]
struct Gone {
    seed: u64,
    peers: u8,
    /// what is under way, whether the caller gives up
    work: Vec<(u8, bool)>,
    later: u32,
    gc_ms: u64,
}
fn gone_gen() -> impl Strategy<Value = Gone> {
    (any::<u32>(), 0u8..6, prop::collection::vec((0u8..6, any::<bool>()), 0..5), 0u32..3000, 500u64..15_000).prop_map(|(seed, peers, work, later, gc_ms)| Gone { seed: seed as u64, peers, work, later, gc_ms })
}
async fn gone(c: &Gone) -> CaseResult {
    use crate::dh::{dopts, Dht, Rec};
    let o = everscale_network::dht::NodeOptions { storage_gc_interval_ms: c.gc_ms, ..dopts() };
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let mut silent = vec![];
    for i in 0..c.peers {
        let p = RefPeer::new(Key::nth(c.seed + 1 + i as u64), &d.s);
        need!(matches!(d.d.add_dht_peer(Rec::new(p.key(), p.addr(), clock::unix()).owned()), Ok(Some(_))), "a peer is refused");
        silent.push(p);
    }
    let mut open = vec![];
    for (w, abort) in &c.work {
        let (dd, w, seed) = (d.d.clone(), *w, c.seed);
        let to = silent.first().map(|p| short(&p.key().id));
        let h = tokio::spawn(async move {
            let k = Key::nth(seed + 50 + w as u64);
            match (w, to) {
                (0, Some(to)) => drop(dd.ping(&to).await),
                (1, Some(to)) => drop(dd.query_dht_nodes(&to, 5, true).await),
                (2, _) => drop(dd.find_more_dht_nodes().await),
                (3, _) => drop(dd.store_address(&adnl::Key::from_bytes(k.seed), SocketAddrV4::new(ip(3), 77)).await),
                (4, _) => drop(dd.find_overlay_nodes(&everscale_network::overlay::IdShort::new(k.id)).await),
                _ => drop(dd.find_address(&short(&k.id)).await),
            }
        });
        open.push((h, *abort));
    }
    settle().await;
    advance(c.later as u64, 250).await;
    for (h, abort) in &open {
        if *abort {
            h.abort();
        }
    }
    settle().await;
    let busy = open.iter().filter(|x| !x.0.is_finished()).count();
    let (wn, wd) = (Arc::downgrade(&d.s.node), Arc::downgrade(&d.d));
    d.s.node.shutdown();
    drop(d);
    let t0 = clock::ms();
    while open.iter().any(|x| !x.0.is_finished()) {
        advance(250, 250).await;
        check!(clock::ms() < t0 + 120_000, "a DHT request has not ended two minutes after its node was stopped");
    }
    advance(c.gc_ms + 1500, 250).await;
    check!(until(|| wn.strong_count() == 0 && wd.strong_count() == 0).await, "a node with a DHT that was stopped and dropped is still there ({} and {} references) after its {busy} open requests ended", wn.strong_count(), wd.strong_count());
    Ok(busy > 0)
}

pub fn a13_run(c: &mut Ctx) {
    c.scenario("restarts", "guaranteed requests after a restart", 1500, life_gen, |v| run(life(v)));
    c.scenario("gone", "DHT requests were under way", 120, gone_gen, |v| run(gone(v)));
    c.scenario("stopped", "queries were pending when the node was stopped", 800, stop_gen, |v| run(stop(v)));
}
