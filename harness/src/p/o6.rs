//! O08, O09, A12
use super::o2::{fec_gen, FecGen};
use super::o4;
use super::r1::{sized_answer, sized_query};
use crate::fx::*;
use crate::ov::*;
use crate::rl::{NetCfg, World};
use everscale_network::overlay::{BroadcastTarget, IdShort, OverlayOptions};
use everscale_network::{rldp, tl, QuerySubscriber};
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ O08

#[derive(Clone, Debug)]
struct Ask8 {
    /// ADNL or RLDP through the overlay, RLDP or ADNL with bytes of one's own
    way: u8,
    overlay: u8,
    class: u8,
    len: u16,
    ans: u16,
    /// of the prefix, for one's own bytes
    spoil: u8,
}
#[derive(Clone, Debug)]
struct C8 {
    seed: u64,
    /// which overlays exist at the answering side, which have handlers
    exist: u8,
    handlers: u8,
    compress: (bool, bool),
    twice: bool,
    net: NetCfg,
    batches: Vec<Vec<Ask8>>,
}
fn c8() -> impl Strategy<Value = C8> {
    let ask = (0u8..5, 0u8..4, prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop_oneof![3 => 16u16..200, 1 => 600u16..3000], prop_oneof![3 => 4u16..200, 1 => 600u16..3000], any::<u8>())
        .prop_map(|(way, overlay, class, len, ans, spoil)| Ask8 { way, overlay, class, len, ans, spoil });
    (
        (1u64..1_000_000, any::<u8>(), prop_oneof![1 => Just(0xffu8), 2 => any::<u8>()], any::<(bool, bool)>(), any::<bool>()),
        (any::<u64>(), prop_oneof![2 => Just(0u32), 1 => 0u32..60], prop_oneof![2 => Just(0u32), 1 => 0u32..30]).prop_map(|(seed, delay, jitter)| NetCfg { seed, delay, jitter, ..Default::default() }),
        prop::collection::vec(prop::collection::vec(ask, 1..6), 1..4),
    )
        .prop_map(|((seed, exist, handlers, compress, twice), net, batches)| C8 { seed: seed * 1000, exist, handlers, compress, twice, net, batches })
}
/// 0..4: constructors of the four behaviours
fn ctor(class: u8) -> u32 {
    0x4e55_0001 + class as u32 * 0x0101
}
async fn queries(c: &C8) -> CaseResult {
    let ids: Vec<B32> = (0..4).map(|i| ov_id(c.seed, i)).collect();
    let behave = |e: &Ev| match (0..4).find(|k| ctor(*k) == e.constructor) {
        Some(0) => if e.query { Reply::Answer(sized_answer(&e.data)) } else { Reply::NoAnswer },
        Some(1) => Reply::NoAnswer,
        Some(2) => Reply::Reject,
        _ => Reply::Error,
    };
    let ro = |f| rldp::NodeOptions { force_compression: f, query_min_timeout_ms: 300, query_max_timeout_ms: 1500, ..Default::default() };
    // the node itself tells the difference of its own messages
    let all: Vec<_> = ids.iter().map(|i| (*i, oopts())).collect();
    let a = Ov::with(&Key::nth(c.seed), ip(0), opts(), None, Some(ro(c.compress.0)), &all, default_reply)?;
    let some: Vec<_> = ids.iter().enumerate().filter(|(i, _)| c.exist >> i & 1 == 1).map(|(_, i)| (*i, oopts())).collect();
    let b = Ov::with(&Key::nth(c.seed + 1), ip(1), opts(), None, Some(ro(c.compress.1)), &some, default_reply)?;
    let events = b.s.events.clone();
    for (i, o) in ids.iter().enumerate() {
        if c.handlers >> i & 1 == 1 {
            let r: Arc<dyn QuerySubscriber> = Recorder::new(&events, 10 + i, behave);
            check!(b.on.add_overlay_subscriber(IdShort::new(*o), r), "a handler is refused");
            if c.twice {
                let r: Arc<dyn QuerySubscriber> = Recorder::new(&events, 50 + i, default_reply);
                check!(!b.on.add_overlay_subscriber(IdShort::new(*o), r), "a second handler is registered");
            }
        }
        if c.twice {
            let opt = OverlayOptions { max_neighbours: 7, ..oopts() };
            let was = b.on.get_overlay(&IdShort::new(*o)).ok();
            check!(was.is_some() == (c.exist >> i & 1 == 1), "overlay {i} exists: {}", was.is_some());
            if let Some(was) = was {
                let (x, new) = if c.seed / 1000 % 2 == 0 { b.on.add_public_overlay(&IdShort::new(*o), opt) } else { b.on.add_private_overlay(&IdShort::new(*o), Arc::new(everscale_network::adnl::Key::from_bytes([9; 32])), &[], opt) };
                check!(!new && Arc::ptr_eq(&x, &was) && x.options().max_neighbours == oopts().max_neighbours && x.overlay_key().id() == &b.s.id(), "an overlay is created twice");
            }
        }
    }
    need!(a.s.add_peer(b.s.key(), b.s.addr) && b.s.add_peer(a.s.key(), a.s.addr), "add_peer");
    let mut w = World::new(&[a.s.addr, b.s.addr], c.net.clone())?;
    let (bid, aid) = (b.s.id(), a.s.id());
    let (mut reached, mut refused) = (0, 0);
    let mut tag = c.seed;
    for batch in &c.batches {
        let mut want: Vec<(usize, u32, Vec<u8>)> = vec![];
        type Slot = Arc<Mutex<Option<Result<Option<Vec<u8>>, String>>>>;
        let mut slots: Vec<(Slot, Option<Vec<u8>>, bool)> = vec![];
        for q in batch {
            tag += 1;
            let mut d = sized_query(tag, q.len as usize, q.ans as usize);
            d[..4].copy_from_slice(&ctor(q.class).to_le_bytes());
            let i = q.overlay as usize % 4;
            let mut hits = c.handlers >> i & 1 == 1;
            // any: who else gets a query that is not for an overlay is not said here
            let mut any = false;
            let slot: Slot = Arc::new(Mutex::new(None));
            let s2 = slot.clone();
            let (on, rl, node, d2) = (a.o[i].clone(), a.rl.clone().unwrap(), a.s.node.clone(), d.clone());
            match q.way {
                0 | 1 => {
                    tokio::spawn(async move {
                        let r = on.adnl_query(&node, &bid, tl::RawBytes::<tl::Boxed>::new(&d2), Some(1500)).await;
                        *s2.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
                    });
                }
                2 => {
                    tokio::spawn(async move {
                        let r = on.rldp_query(&rl, &bid, tl::RawBytes::<tl::Boxed>::new(&d2), None).await;
                        *s2.lock().unwrap() = Some(r.map(|x| x.0).map_err(|e| e.to_string()));
                    });
                }
                _ => {
                    // with bytes of one's own
                    let mut raw = wrap_query(&ids[i], &d);
                    match q.spoil % 8 {
                        0 => raw.truncate(36),
                        1 => raw.truncate(20),
                        2 => raw[4 + q.spoil as usize % 32] ^= 1 << (q.spoil / 32),
                        3 => raw = d.clone(),
                        4 => raw[..4].copy_from_slice(&id::overlay_message().to_le_bytes()),
                        _ => {}
                    }
                    if q.spoil % 8 < 5 {
                        hits = false;
                        any = q.spoil % 8 >= 3;
                    }
                    let rldp = q.way == 3;
                    tokio::spawn(async move {
                        let r = if rldp {
                            rl.query(&aid, &bid, raw, None).await.map(|x| x.0)
                        } else {
                            let r = node.query_raw(&aid, &bid, raw.into(), Some(1500)).await;
                            r.map(|x| x.map(|x| x.to_vec()))
                        };
                        *s2.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
                    });
                }
            }
            if hits {
                want.push((10 + i, ctor(q.class), d.clone()));
                reached += 1;
            } else {
                refused += 1;
            }
            slots.push((slot, (hits && q.class == 0).then(|| sized_answer(&d)), any));
        }
        let ok = w.run(8000, 25, || slots.iter().all(|s| s.0.lock().unwrap().is_some())).await;
        check!(ok, "a query does not end");
        let mut got: Vec<_> = b.s.take();
        got.retain(|e| e.sub >= 10);
        for e in &got {
            check!(e.query && e.local == b.s.keys[0].id && e.peer == a.s.keys[0].id, "wrong identities at the handler");
        }
        let mut got: Vec<_> = got.into_iter().map(|e| (e.sub, e.constructor, e.data)).collect();
        got.sort();
        want.sort();
        if got != want {
            let brief = |v: &[(usize, u32, Vec<u8>)]| v.iter().map(|x| format!("handler {}: {:x}, {} bytes", x.0, x.1, x.2.len())).collect::<Vec<_>>();
            viol!("handlers got {:?} instead of {:?} in {batch:?}", brief(&got), brief(&want));
        }
        for (k, (s, want, any)) in slots.iter().enumerate() {
            let r = s.lock().unwrap().take().unwrap();
            if *any {
                continue;
            }
            match (r, want) {
                (Ok(g), w) => check!(g == *w, "the answer to {:?} is {:?} bytes instead of {:?}", batch[k], g.map(|x| x.len()), w.as_ref().map(|x| x.len())),
                (Err(e), w) => check!(w.is_none(), "{:?} fails: {e}", batch[k]),
            }
        }
    }
    Ok(reached > 0 && refused > 0)
}
/// Queries of an overlay to a peer that never answers end when they were told to
#[derive(Clone, Debug)]
struct Alone {
    seed: u64,
    /// (0 ADNL, 1 RLDP, 2 exchange of peers, 3 the same with an own filter; time given; started at)
    asks: Vec<(u8, Option<u64>, u32)>,
    min_ms: u64,
    more_ms: u64,
    len: usize,
}
fn alone_gen() -> impl Strategy<Value = Alone> {
    let ask = (0u8..4, prop::option::weighted(0.8, prop_oneof![3 => 0u64..4000, 1 => 4000u64..20_000]), 0u32..500);
    (any::<u32>(), prop::collection::vec(ask, 1..5), 50u64..900, 0u64..6000, 0usize..1500).prop_map(|(seed, asks, min_ms, more_ms, len)| Alone { seed: seed as u64, asks, min_ms, more_ms, len })
}
async fn alone(c: &Alone) -> CaseResult {
    let max_ms = c.min_ms + c.more_ms;
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: max_ms, ..Default::default() };
    let mut ao = opts();
    ao.query_min_timeout_ms = c.min_ms;
    ao.query_default_timeout_ms = max_ms;
    let idv = ov_id(c.seed, 1);
    let a = Ov::with(&Key::nth(c.seed), LOCAL, ao, None, Some(ro), &[(idv, oopts())], default_reply)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let (o, rl, node, to) = (a.o[0].clone(), a.rl.clone().unwrap(), a.s.node.clone(), p.id());
    let mut asks = c.asks.clone();
    asks.sort_by_key(|x| x.2);
    type Slot = Arc<Mutex<Option<(u64, Result<bool, String>)>>>;
    let mut open: Vec<(u8, Option<u64>, u64, Slot)> = vec![];
    let t0 = clock::ms();
    let end = t0 + 500 + asks.iter().map(|x| x.1.unwrap_or(0)).max().unwrap_or(0).max(max_ms) + 1000;
    while clock::ms() < end {
        while let Some((way, time, _)) = asks.first().copied().filter(|x| t0 + x.2 as u64 <= clock::ms()) {
            asks.remove(0);
            let slot: Slot = Default::default();
            let (s2, o, rl, node) = (slot.clone(), o.clone(), rl.clone(), node.clone());
            let d = sized_query(c.seed + open.len() as u64, c.len, 4);
            tokio::spawn(async move {
                let raw = tl::RawBytes::<tl::Boxed>::new(&d);
                let r = match way {
                    0 => o.adnl_query(&node, &to, raw, time).await.map(|x| x.is_some()),
                    1 => o.rldp_query(&rl, &to, raw, time).await.map(|x| x.0.is_some()),
                    2 => o.exchange_random_peers(&node, &to, time).await.map(|x| x.is_some()),
                    _ => o.exchange_random_peers_ext(&node, &to, time, &()).await.map(|x| x.is_some()),
                };
                *s2.lock().unwrap() = Some((clock::ms(), r.map_err(|e| e.to_string())));
            });
            open.push((way, time, clock::ms(), slot));
        }
        settle().await;
        p.msgs();
        advance(5, 5).await;
        if asks.is_empty() && open.iter().all(|x| x.3.lock().unwrap().is_some()) {
            break;
        }
    }
    for (way, time, at, slot) in &open {
        let want = match (way, time) {
            (1, None) => max_ms,
            (1, Some(t)) => (*t).max(c.min_ms).min(max_ms),
            (_, None) => max_ms,
            (_, Some(t)) => (*t).max(c.min_ms),
        };
        let what = ["a query", "an RLDP query", "an exchange of peers", "an exchange of peers"][*way as usize];
        let Some((t, r)) = slot.lock().unwrap().clone() else { viol!("{what} without answer (time given: {time:?}) has not ended {} ms later, it is due after {want} ms", clock::ms() - at) };
        check!(r == Ok(false), "{what} without answer ends with {r:?} instead of no answer");
        let took = t - at;
        check!(took >= want && took <= want + 250, "{what} without answer (time given: {time:?}, limits {} .. {max_ms}) ended after {took} ms instead of {want} ms", c.min_ms);
    }
    Ok(open.len() > 1)
}

pub fn o08_run(c: &mut Ctx) {
    super::o4::direct_run(c);
    c.scenario("at_once", "more than three threads", 40, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::overlays_at_once(v)));
    c.scenario("unanswered", "several are under way", 150, alone_gen, |v| run(alone(v)));
    c.scenario("queries", "some queries reach a handler and some do not", 700, c8, |v| run(queries(v)));
}

// ------------------------------------------------------------------ O09

#[derive(Clone, Debug)]
enum Op9 {
    /// so many new ordinary broadcasts
    Small(u8),
    /// parts of a large one
    Large(u8, u8),
    Own(u8, u16),
    /// earlier packets once more
    Again(u8),
    Wait(u16),
}
#[derive(Clone, Debug)]
struct C9 {
    seed: u64,
    log: u32,
    timeout: u64,
    gc: u64,
    large: Vec<FecGen>,
    ops: Vec<Op9>,
}
fn c9() -> impl Strategy<Value = C9> {
    let op = prop_oneof![
        4 => (1u8..12).prop_map(Op9::Small),
        3 => (any::<u8>(), 1u8..40).prop_map(|(a, b)| Op9::Large(a, b)),
        1 => (1u8..4, prop_oneof![0u16..700, 769u16..4000]).prop_map(|(a, b)| Op9::Own(a, b)),
        4 => any::<u8>().prop_map(Op9::Again),
        4 => (0u16..2500).prop_map(Op9::Wait),
    ];
    (
        1u64..1_000_000,
        prop_oneof![3 => 0u32..6, 1 => 6u32..40, 1 => Just(1000u32)],
        1u64..5,
        prop_oneof![1 => Just(1000u64), 2 => 50u64..1500],
        prop::collection::vec(fec_gen(), 1..3),
        prop::collection::vec(op, 1..14),
    )
        .prop_map(|(seed, log, timeout, gc, large, ops)| C9 { seed: seed * 1000, log, timeout, gc, large, ops })
}
async fn log(c: &C9) -> CaseResult {
    let o = OverlayOptions { max_broadcast_log: c.log, broadcast_timeout_sec: c.timeout, broadcast_gc_interval_ms: c.gc, ..oopts() };
    let idv = ov_id(c.seed, 0);
    let ov = Ov::new(&Key::nth(c.seed), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &ov.s);
    p.connect().await?;
    let author = Key::nth(c.seed + 2);
    // far enough in the future to be accepted all the time
    let date = clock::unix() + 1000;
    let large: Vec<Sender> = c.large.iter().enumerate().map(|(i, g)| Sender::new(&author, &payload(c.seed + 900 + i as u64, g.len() as usize % 4000 + 65), 1, false, 64)).collect();
    let mut next = vec![0u32; large.len()];
    let mut n = 0u64;
    // what was delivered, and when
    let mut seen: BTreeMap<Vec<u8>, u64> = Default::default();
    let mut sent: Vec<(Vec<Vec<u8>>, Vec<u8>)> = vec![];
    let (mut again, mut total) = (0, 0usize);
    for op in &c.ops {
        let mut batch: Vec<Vec<u8>> = vec![];
        match op {
            Op9::Small(k) => {
                for _ in 0..*k {
                    n += 1;
                    let d = payload(c.seed + n, 30);
                    let m = wrap(&idv, &Bc::new(&author, 1, &d, date).tl());
                    batch.push(m.clone());
                    sent.push((vec![m], d));
                    total += 1;
                }
            }
            Op9::Large(i, k) => {
                let i = *i as usize % large.len();
                let s = &large[i];
                for _ in 0..*k {
                    batch.push(wrap(&idv, &s.part(next[i], date).tl()));
                    next[i] += 1;
                }
                if next[i] >= s.sym.k() + 3 {
                    sent.push(((0..s.sym.k() + 3).map(|q| wrap(&idv, &s.part(q, date).tl())).collect(), s.data.clone()));
                }
                total += 1;
            }
            Op9::Own(k, len) => {
                for _ in 0..*k {
                    n += 1;
                    ov.o[0].broadcast(&ov.s.node, payload(c.seed + 500 + n, *len as usize + 8), None, BroadcastTarget::RandomNeighbours);
                    total += 1;
                }
            }
            Op9::Again(i) => {
                if !sent.is_empty() {
                    let x = &sent[*i as usize % sent.len()];
                    again += seen.get(&x.1).map(|t| clock::ms() - t < c.timeout * 1000).unwrap_or(false) as usize;
                    batch = x.0.clone();
                }
            }
            Op9::Wait(ms) => advance(*ms as u64, 100).await,
        }
        for ch in batch.chunks(40) {
            for m in ch {
                p.send_msg(false, Msg::Custom(m.clone()));
            }
            mark(&mut p).await?;
        }
        for (d, _, _) in ov.drain(0).await {
            let now = clock::ms();
            if let Some(t) = seen.insert(d.clone(), now) {
                check!(now - t >= c.timeout * 1000, "a broadcast of {} bytes is delivered again after {} ms", d.len(), now - t);
            }
        }
        if batch.len() == 1 && matches!(op, Op9::Small(1)) {
            check!(seen.get(&sent.last().unwrap().1) == Some(&clock::ms()), "a new broadcast is not delivered");
        }
        customs(&mut p);
    }
    // everything is over: the timeout passes for the parts, then for the record of it
    let step = 50.max(c.timeout * 20);
    advance(c.timeout * 2200 + c.timeout * 1000 + 3 * c.gc + 2000, step).await;
    let m = ov.o[0].metrics();
    check!(m.owned_broadcasts_len <= c.log as usize, "{} broadcasts are in the log, at most {} are allowed", m.owned_broadcasts_len, c.log);
    check!(m.finished_broadcasts_len <= c.log, "{} finished broadcasts are in the log, at most {} are allowed", m.finished_broadcasts_len, c.log);
    Ok(again > 0 && total > c.log as usize)
}
/// A large broadcast that comes in slowly, between others that fill the log
#[derive(Clone, Debug)]
struct C9s {
    seed: u64,
    log: u32,
    timeout: u64,
    gc: u64,
    len: u16,
    /// before each batch of parts: tenths of the longest allowed pause, other broadcasts
    steps: Vec<(u8, u8)>,
    /// parts come in this many batches
    order: u64,
}
fn c9s() -> impl Strategy<Value = C9s> {
    (
        1u64..1_000_000,
        prop_oneof![3 => 0u32..4, 1 => 4u32..20],
        2u64..6,
        prop_oneof![1 => Just(1000u64), 2 => 50u64..1500],
        65u16..3000,
        prop::collection::vec((prop_oneof![1 => 0u8..10, 2 => 6u8..11], 0u8..8), 3..14),
        any::<u64>(),
    )
        .prop_map(|(seed, log, timeout, gc, len, steps, order)| C9s { seed: seed * 1000, log, timeout, gc, len, steps, order })
}
async fn slow(c: &C9s) -> CaseResult {
    let o = OverlayOptions { max_broadcast_log: c.log, broadcast_timeout_sec: c.timeout, broadcast_gc_interval_ms: c.gc, ..oopts() };
    let idv = ov_id(c.seed, 0);
    let ov = Ov::new(&Key::nth(c.seed), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &ov.s);
    p.connect().await?;
    let author = Key::nth(c.seed + 2);
    let s = Sender::new(&author, &payload(c.seed + 900, c.len as usize), 1, false, 64);
    // a few repair symbols more than needed, in some order
    let mut parts: Vec<u32> = (0..s.sym.k() + 4).collect();
    let mut x = c.order | 1;
    for i in (1..parts.len()).rev() {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        parts.swap(i, (x % (i as u64 + 1)) as usize);
    }
    let (first, per) = (clock::ms(), parts.len().div_ceil(c.steps.len()));
    let (mut others, mut delivered) = (0usize, 0);
    let mut span = 0;
    for (i, (pause, small)) in c.steps.iter().enumerate() {
        advance((*pause as u64).min(10) * (c.timeout - 1) * 100, 100).await;
        let mut batch: Vec<Vec<u8>> = vec![];
        for k in 0..*small {
            let d = payload(c.seed + 1 + i as u64 * 20 + k as u64, 40);
            batch.push(wrap(&idv, &Bc::new(&author, 1, &d, clock::unix()).tl()));
        }
        let some: Vec<u32> = parts.iter().skip(i * per).take(per).copied().collect();
        if some.is_empty() {
            break;
        }
        for q in some {
            batch.push(wrap(&idv, &s.part(q, clock::unix()).tl()));
        }
        for m in &batch {
            p.send_msg(false, Msg::Custom(m.clone()));
        }
        mark(&mut p).await?;
        for (d, from, _) in ov.drain(0).await {
            check!(from == author.id, "another author");
            if d == s.data {
                delivered += 1;
                if delivered == 1 {
                    span = clock::ms() - first;
                }
                // late parts may start it anew, but not within the retention time
                check!(delivered == 1 || clock::ms() - first - span >= c.timeout * 1000, "the large broadcast is delivered twice");
                continue;
            }
            others += 1;
        }
        customs(&mut p);
    }
    check!(others == c.steps.iter().enumerate().filter(|(i, _)| i * per < parts.len()).map(|x| x.1 .1 as usize).sum::<usize>(), "{others} small broadcasts are delivered");
    check!(delivered > 0, "all parts have come without a pause of {} s, but the broadcast is not delivered", c.timeout);
    Ok(span > c.timeout * 1200 && others > c.log as usize)
}
/// A node that is shut down and dropped leaves nothing of its overlays behind
#[derive(Clone, Debug)]
struct Dropped {
    seed: u64,
    gc_ms: u64,
    timeout_s: u64,
    broadcasts: u8,
    parts: u8,
    waiter: bool,
}
fn dropped_gen() -> impl Strategy<Value = Dropped> {
    (any::<u32>(), 100u64..3000, 1u64..20, 0u8..4, 0u8..3, any::<bool>())
        .prop_map(|(seed, gc_ms, timeout_s, broadcasts, parts, waiter)| Dropped { seed: seed as u64, gc_ms, timeout_s, broadcasts, parts, waiter })
}
async fn dropped(c: &Dropped) -> CaseResult {
    let idv = ov_id(c.seed, 1);
    let o = OverlayOptions { broadcast_gc_interval_ms: c.gc_ms, broadcast_timeout_sec: c.timeout_s, ..oopts() };
    let a = Ov::new(&Key::nth(c.seed), &[(idv, o)])?;
    let weak = Arc::downgrade(&a.o[0]);
    let mut m = a.members(0, &[Key::nth(c.seed + 1), Key::nth(c.seed + 2)]).await?;
    let author = Key::nth(c.seed + 3);
    for i in 0..c.broadcasts {
        send_custom(&mut m[0], &wrap(&idv, &Bc::new(&author, 0, &payload(c.seed + i as u64, 40), clock::unix()).tl())).await?;
    }
    for i in 0..c.parts {
        let s = Sender::new(&author, &payload(c.seed + 50 + i as u64, 5000), 0, false, 768);
        send_custom(&mut m[1], &wrap(&idv, &s.part(0, clock::unix()).tl())).await?;
    }
    let waiter = c.waiter.then(|| {
        let o = a.o[0].clone();
        tokio::spawn(async move {
            loop {
                o.wait_for_broadcast().await;
            }
        })
    });
    settle().await;
    a.s.node.shutdown();
    if let Some(h) = waiter {
        h.abort();
    }
    drop(a);
    // unfinished broadcasts are abandoned after one timeout and leave the log after another one
    let most = 3000 + 2200 * c.timeout_s + 2 * c.gc_ms;
    advance(most, 100).await;
    for _ in 0..3 {
        // receiving ends with a packet at the latest
        m[0].send_msg(false, Msg::Custom(vec![1, 2, 3, 4]));
        settle().await;
        advance(1500, 100).await;
    }
    check!(until(|| weak.strong_count() == 0).await, "an overlay is still alive {most} ms after its node was shut down and dropped (collection interval {} ms, broadcast timeout {} s)", c.gc_ms, c.timeout_s);
    Ok(c.broadcasts + c.parts > 0)
}

pub fn o09_run(c: &mut Ctx) {
    c.scenario("log", "more broadcasts than the log may hold, and some come again", 1000, c9, |v| run(log(v)));
    c.scenario("dropped", "broadcasts were under way", 120, dropped_gen, |v| run(dropped(v)));
    c.scenario("slow", "a large broadcast takes longer than the timeout and the log overflows meanwhile", 250, c9s, |v| run(slow(v)));
    c.scenario("dates", "genuine broadcasts are delivered and others refused", 1000, || super::o1::c1(true, false), |v| run(super::o1::ordinary(v)));
    c.scenario("parts", "a large broadcast is delivered and parts are refused", 300, || super::o2::c2(1, 2), |v| run(super::o2::large(v)));
}

// ------------------------------------------------------------------ A12

#[derive(Clone, Debug)]
enum Op12 {
    Custom(bool, u16),
    Query(bool, u16, u16),
    Rldp(bool, u16, u16),
    /// several in a row without waiting, so that everything happens before the channel is confirmed
    Burst(bool, Vec<u16>),
    Forget(bool),
    Wait(u16),
}
#[derive(Clone, Debug)]
struct C12 {
    seed: u64,
    version: (Option<u16>, Option<u16>),
    net: NetCfg,
    ops: Vec<Op12>,
}
fn c12() -> impl Strategy<Value = C12> {
    let len = || prop_oneof![2 => 4u16..3000, 5 => 850u16..1060, 2 => 960u16..1030];
    let op = prop_oneof![
        3 => (any::<bool>(), len()).prop_map(|(a, b)| Op12::Custom(a, b)),
        3 => (any::<bool>(), len(), len()).prop_map(|(a, b, c)| Op12::Query(a, b, c)),
        1 => (any::<bool>(), len(), len()).prop_map(|(a, b, c)| Op12::Rldp(a, b, c)),
        2 => (any::<bool>(), prop::collection::vec(len(), 1..5)).prop_map(|(a, b)| Op12::Burst(a, b)),
        1 => any::<bool>().prop_map(Op12::Forget),
        1 => (0u16..20_000).prop_map(Op12::Wait),
    ];
    let v = || prop_oneof![2 => Just(None), 1 => Just(Some(0u16)), 1 => any::<u16>().prop_map(Some)];
    (
        1u64..1_000_000,
        (v(), v()),
        (any::<u64>(), prop_oneof![2 => Just(0u16), 1 => 0u16..400], prop_oneof![2 => Just(0u32), 1 => 0u32..80]).prop_map(|(seed, loss, delay)| NetCfg { seed, loss: vec![loss], delay, ..Default::default() }),
        prop::collection::vec(op, 1..12),
    )
        .prop_map(|(seed, version, net, ops)| C12 { seed: seed * 1000, version, net, ops })
}
pub const MTU: usize = 1500;
async fn mtu(c: &C12) -> CaseResult {
    let ro = rldp::NodeOptions { query_min_timeout_ms: 200, query_max_timeout_ms: 1000, ..Default::default() };
    let mk = |i: u64, v: Option<u16>| {
        let mut o = opts();
        o.version = v;
        let f = |e: &Ev| if e.query { Reply::Answer(sized_answer(&e.data)) } else { Reply::NoAnswer };
        Ov::with(&Key::nth(c.seed + i), ip(i as usize), o, None, Some(ro), &[(ov_id(c.seed, 0), oopts())], f)
    };
    let n = [mk(0, c.version.0)?, mk(1, c.version.1)?];
    need!(n[0].s.add_peer(n[1].s.key(), n[1].s.addr) && n[1].s.add_peer(n[0].s.key(), n[0].s.addr), "add_peer");
    let mut w = World::new(&[n[0].s.addr, n[1].s.addr], c.net.clone())?;
    let mut tag = c.seed;
    for op in &c.ops {
        tag += 1;
        let at = |b: &bool| {
            let i = *b as usize;
            (n[i].s.node.clone(), n[i].s.id(), n[1 - i].s.id(), n[i].rl.clone().unwrap())
        };
        match op {
            Op12::Custom(b, len) => {
                let (node, l, p, _) = at(b);
                let _ = node.send_custom_message(&l, &p, &payload(tag, *len as usize));
            }
            Op12::Burst(b, v) => {
                let (node, l, p, _) = at(b);
                for x in v {
                    let _ = node.send_custom_message(&l, &p, &payload(tag, *x as usize));
                }
            }
            Op12::Query(b, q, a) => {
                let (node, l, p, _) = at(b);
                let d = sized_query(tag, *q as usize, *a as usize);
                tokio::spawn(async move { node.query_raw(&l, &p, d.into(), Some(1000)).await.ok() });
            }
            Op12::Rldp(b, q, a) => {
                let (_, l, p, r) = at(b);
                let d = sized_query(tag, *q as usize, *a as usize);
                tokio::spawn(async move { r.query(&l, &p, d, None).await.ok() });
            }
            Op12::Forget(b) => {
                let (node, l, p, _) = at(b);
                let _ = node.remove_peer(&l, &p);
                let i = *b as usize;
                need!(n[i].s.add_peer(n[1 - i].s.key(), n[1 - i].s.addr), "add_peer");
            }
            Op12::Wait(ms) => {
                w.run(*ms as u64, 250, || false).await;
            }
        }
        if !matches!(op, Op12::Burst(..)) {
            w.run(100, 20, || false).await;
        }
        check!(w.longest < MTU, "a datagram of {} bytes after {op:?}", w.longest);
    }
    w.run(500, 50, || false).await;
    check!(w.longest < MTU, "a datagram of {} bytes at the end", w.longest);
    Ok(w.longest > 1000)
}
pub fn a12_run(c: &mut Ctx) {
    c.scenario("sizes", "a datagram is longer than 1000 bytes", 5000, c12, |v| run(mtu(v)));
    c.scenario("broadcasts", "a broadcast goes over several links", 600, || o4::nodes_gen(true), |v| {
        run(async {
            let (nt, longest) = o4::nodes(v).await?;
            check!(longest < MTU, "a datagram of {longest} bytes");
            Ok(nt)
        })
    });
}
