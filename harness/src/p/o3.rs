//! O03 (at once), O10
use super::o2::{fec_gen, FecGen};
use crate::fx::*;
use crate::ov::*;
use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::future::Future;
use std::time::Duration;

// ------------------------------------------------------------------ O03, several threads

#[derive(Clone, Debug)]
pub struct AtOnce {
    seed: u64,
    peers: u8,
    secondary: u32,
    /// ordinary broadcasts: length and flags
    small: Vec<(u16, u32)>,
    large: Vec<FecGen>,
    /// the node sends this much itself, and everything comes back at once
    own: Vec<u16>,
    rounds: u8,
}
fn at_once_gen() -> impl Strategy<Value = AtOnce> {
    (
        1u64..1_000_000,
        2u8..6,
        0u32..6,
        prop::collection::vec((1u16..700, 0u32..2), 1..6),
        prop::collection::vec(fec_gen(), 0..2),
        prop::collection::vec(1u16..5000, 0..2),
        10u8..30,
    )
        .prop_map(|(seed, peers, secondary, small, large, own, rounds)| AtOnce { seed: seed * 1000, peers, secondary, small, large, own, rounds })
}
async fn at_once(c: &AtOnce) -> CaseResult {
    let o = OverlayOptions { secondary_broadcast_target_count: c.secondary, secondary_fec_broadcast_target_count: c.secondary, ..oopts() };
    let id = ov_id(c.seed, 0);
    let ov = Ov::new(&Key::nth(c.seed), &[(id, o)])?;
    let keys: Vec<Key> = (0..c.peers as u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut peers = ov.members(0, &keys).await?;
    let date = clock::unix();
    let author = Key::nth(c.seed + 50);
    for round in 0..c.rounds as u64 {
        let mut packets: Vec<Vec<u8>> = vec![];
        let mut want: BTreeMap<Vec<u8>, B32> = BTreeMap::new();
        for (i, (len, flags)) in c.small.iter().enumerate() {
            let d = payload(c.seed + round * 100 + i as u64, *len as usize + 8);
            packets.push(wrap(&id, &Bc::new(&author, *flags, &d, date).tl()));
            want.insert(d, author.id);
        }
        let small = packets.len();
        for (i, g) in c.large.iter().enumerate() {
            let d = payload(c.seed + round * 100 + 50 + i as u64, g.len() as usize % 3000 + 64);
            let s = Sender::new(&author, &d, 1, false, 64);
            packets.extend((0..s.sym.k() + 4).map(|q| wrap(&id, &s.part(q, date).tl())));
            want.insert(d, author.id);
        }
        for (i, len) in c.own.iter().enumerate() {
            let d = payload(c.seed + round * 100 + 70 + i as u64, *len as usize + 8);
            ov.o[0].broadcast(&ov.s.node, d, None, BroadcastTarget::RandomNeighbours);
        }
        // who got which own packet
        let mut own: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
        if !c.own.is_empty() {
            tokio::time::sleep(Duration::from_millis(10)).await;
            for (i, p) in peers.iter_mut().enumerate() {
                for m in customs(p) {
                    own.entry(m).or_default().push(i);
                }
            }
        }
        packets.extend(own.keys().cloned());
        // every peer sends every packet, in the same order, interleaved
        for m in &packets {
            for p in &mut peers {
                p.send_msg(false, Msg::Custom(m.clone()));
            }
        }
        let mut got: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
        for i in 0..peers.len() {
            for m in mark(&mut peers[i]).await? {
                got.entry(m).or_default().push(i);
            }
        }
        let mut delivered = vec![];
        for n in 0..400 {
            delivered.extend(ov.drain(0).await);
            if delivered.len() >= want.len() && n > 2 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        for (i, p) in peers.iter_mut().enumerate() {
            for m in customs(p) {
                got.entry(m).or_default().push(i);
            }
        }
        let mut seen: BTreeSet<Vec<u8>> = Default::default();
        for (d, a, _) in delivered {
            check!(want.get(&d) == Some(&a), "a broadcast of {} bytes is delivered which nobody else sent", d.len());
            check!(seen.insert(d), "a broadcast is delivered twice");
        }
        check!(seen.len() == want.len(), "{} of {} broadcasts are delivered", seen.len(), want.len());
        for (m, to) in &got {
            if let Some(first) = own.get(m) {
                // sent to every member once, not passed on when it comes back
                let all: Vec<usize> = first.iter().chain(to).copied().collect();
                let set: BTreeSet<_> = all.iter().collect();
                check!(set.len() == all.len(), "an own broadcast is passed on again");
                continue;
            }
            let Some(k) = packets.iter().position(|x| x == m) else {
                // late parts of the own broadcast
                check!(!c.own.is_empty(), "something else is passed on");
                continue;
            };
            let set: BTreeSet<_> = to.iter().collect();
            check!(set.len() == to.len(), "packet {k} ({small} ordinary ones) is passed to a peer twice");
            let most = (c.secondary as usize).min(peers.len() - 1);
            check!(to.len() <= most, "packet {k} is passed to {} peers, at most {most} are allowed", to.len());
        }
    }
    Ok(c.secondary > 0)
}
pub fn o03_at_once(c: &mut Ctx) {
    c.scenario("at once", "packets are passed on", 24, at_once_gen, |v| run_mt(at_once(v)));
}

// ------------------------------------------------------------------ O10

#[derive(Clone, Debug)]
enum W1 {
    /// broadcasts arrive
    Arrive(u8),
    /// somebody starts to wait, for so many broadcasts
    Wait(u8),
    /// somebody who waits is cancelled
    Cancel(u8),
    /// a waiter which is dropped after so many polls
    Glance(u8),
    Yield(u8),
}
fn w1() -> impl Strategy<Value = Vec<W1>> {
    let op = prop_oneof![
        4 => (1u8..5).prop_map(W1::Arrive),
        3 => (1u8..4).prop_map(W1::Wait),
        2 => any::<u8>().prop_map(W1::Cancel),
        2 => (0u8..4).prop_map(W1::Glance),
        2 => (0u8..5).prop_map(W1::Yield),
    ];
    prop::collection::vec(op, 2..25)
}

struct Waiter {
    task: tokio::task::JoinHandle<()>,
    got: Arc<Mutex<Vec<Vec<u8>>>>,
    left: usize,
    cancelled: bool,
}
async fn waiters(seed: u64, ops: &[W1]) -> CaseResult {
    let ov = Ov::new(&Key::nth(seed), &[(ov_id(seed, 0), oopts())])?;
    let o = ov.o[0].clone();
    let mut p = RefPeer::new(Key::nth(seed + 1), &ov.s);
    p.connect().await?;
    let mut arrived: Vec<Vec<u8>> = vec![];
    let mut ws: Vec<Waiter> = vec![];
    // taken by waiters which were dropped afterwards
    let mut glanced: Vec<Vec<u8>> = vec![];
    let (mut woken, mut cancelled) = (false, false);
    for op in ops {
        match op {
            W1::Arrive(n) => {
                for _ in 0..*n {
                    let d = payload(seed + arrived.len() as u64 * 7, 16 + arrived.len() % 50);
                    let b = Bc::new(&Key::nth(seed + 2), 1, &d, clock::unix());
                    p.send_msg(false, Msg::Custom(wrap(&ov_id(seed, 0), &b.tl())));
                    mark(&mut p).await?;
                    arrived.push(d);
                }
            }
            W1::Wait(n) => {
                let got = Arc::new(Mutex::new(vec![]));
                let (g, o, n) = (got.clone(), o.clone(), *n as usize);
                let task = tokio::spawn(async move {
                    for _ in 0..n {
                        let b = o.wait_for_broadcast().await;
                        g.lock().unwrap().push(b.data);
                    }
                });
                ws.push(Waiter { task, got, left: n, cancelled: false });
            }
            W1::Cancel(i) if !ws.is_empty() => {
                let i = *i as usize % ws.len();
                cancelled |= !ws[i].task.is_finished();
                ws[i].task.abort();
                ws[i].cancelled = true;
            }
            W1::Glance(n) => {
                let mut f = Box::pin(o.wait_for_broadcast());
                for _ in 0..=*n {
                    match std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await {
                        std::task::Poll::Ready(b) => {
                            glanced.push(b.data);
                            break;
                        }
                        _ => yields(1).await,
                    }
                }
                cancelled = true;
            }
            W1::Yield(n) => {
                yields(*n as usize).await;
                continue;
            }
            _ => {}
        }
        settle().await;
        // everything was handed to one waiter at most, and in order at each of them
        let mut n = glanced.len();
        let mut seen: BTreeSet<Vec<u8>> = glanced.iter().cloned().collect();
        check!(seen.len() == n, "a broadcast is handed out twice");
        let mut idle = 0;
        for w in &ws {
            let g = w.got.lock().unwrap();
            let mut last = None;
            for d in g.iter() {
                let Some(i) = arrived.iter().position(|x| x == d) else { viol!("something else is handed out") };
                check!(seen.insert(d.clone()), "broadcast {i} is handed out twice");
                check!(last < Some(i), "broadcast {i} is handed out after {last:?}");
                last = Some(i);
            }
            n += g.len();
            woken |= !g.is_empty();
            if !w.cancelled && g.len() < w.left {
                idle += 1;
            }
        }
        let left = o.metrics().received_broadcasts_data_len;
        check!(n + left == arrived.len(), "{} broadcasts have arrived, {n} were handed out, {left} are left", arrived.len());
        check!(idle == 0 || left == 0, "{left} broadcasts are left while {idle} consumers wait");
    }
    // the rest is there for the next one, in order
    let left = o.metrics().received_broadcasts_data_len;
    for w in &ws {
        w.task.abort();
    }
    settle().await;
    let mut last = None;
    for k in 0..left {
        let mut f = Box::pin(o.wait_for_broadcast());
        let mut r = None;
        for _ in 0..20 {
            if let std::task::Poll::Ready(b) = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await {
                r = Some(b.data);
                break;
            }
            yields(1).await;
        }
        let Some(d) = r else { viol!("broadcast {k} of the {left} which are left is not handed out") };
        let i = arrived.iter().position(|x| *x == d);
        check!(i.is_some() && last < i, "broadcast {i:?} is handed out after {last:?}");
        last = i;
    }
    Ok(woken && cancelled)
}

#[derive(Clone, Debug)]
struct Unread {
    seed: u64,
    /// how many arrive, and how many are taken afterwards
    bursts: Vec<(u16, u16)>,
    large: bool,
}
fn unread_gen() -> impl Strategy<Value = Unread> {
    let n = || prop_oneof![3 => 0u16..60, 2 => 50u16..300, 1 => 250u16..1300];
    (1u64..1_000_000, prop::collection::vec((n(), n()), 1..5), prop::bool::weighted(0.3)).prop_map(|(seed, bursts, large)| Unread { seed: seed * 10_000, bursts, large })
}
/// Nobody reads for a long time
async fn unread(c: &Unread) -> CaseResult {
    let ov = Ov::new(&Key::nth(c.seed), &[(ov_id(c.seed, 0), oopts())])?;
    let o = ov.o[0].clone();
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &ov.s);
    p.connect().await?;
    let (mut next, mut taken, mut most) = (0usize, 0usize, 0);
    // every eighth is a large one
    let data = |i: usize| payload(c.seed + i as u64 * 3, if c.large && i % 8 == 7 { 100 } else { 16 });
    let mut last = vec![];
    if let Some(x) = c.bursts.last() {
        last.push((0, u16::MAX.max(x.1)));
    }
    for (arrive, take) in c.bursts.iter().copied().chain(last) {
        for _ in 0..arrive {
            let d = data(next);
            if c.large && next % 8 == 7 {
                let s = Sender::new(&Key::nth(c.seed + 2), &d, 1, false, 64);
                for q in 0..s.sym.k() as u32 {
                    p.send_msg(false, Msg::Custom(wrap(&ov_id(c.seed, 0), &s.part(q, clock::unix()).tl())));
                }
            } else {
                let b = Bc::new(&Key::nth(c.seed + 2), 1, &d, clock::unix());
                p.send_msg(false, Msg::Custom(wrap(&ov_id(c.seed, 0), &b.tl())));
            }
            next += 1;
            if next % 8 == 0 {
                mark(&mut p).await?;
            }
        }
        mark(&mut p).await?;
        settle().await;
        most = most.max(next - taken);
        for _ in 0..(take as usize).min(next - taken) {
            let mut f = Box::pin(o.wait_for_broadcast());
            let mut r = None;
            for _ in 0..20 {
                if let std::task::Poll::Ready(b) = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx))).await {
                    r = Some(b.data);
                    break;
                }
                yields(1).await;
            }
            let Some(d) = r else { viol!("broadcast {taken} of {next} which have arrived is not handed out") };
            check!(d == data(taken), "another broadcast than {taken} of {next} is handed out");
            taken += 1;
        }
    }
    check!(o.metrics().received_broadcasts_data_len == 0, "something is left after all have been handed out");
    Ok(most > 250)
}

#[derive(Clone, Debug)]
pub struct Many {
    seed: u64,
    consumers: Vec<Option<u16>>,
    bursts: Vec<u8>,
}
fn many_gen() -> impl Strategy<Value = Many> {
    (1u64..1_000_000, prop::collection::vec(prop::option::of(0u16..2000), 1..7), prop::collection::vec(1u8..40, 3..12))
        .prop_map(|(seed, consumers, bursts)| Many { seed: seed * 1000, consumers, bursts })
}
/// Consumers on several threads, some of which give up again and again
async fn many(c: &Many) -> CaseResult {
    let ov = Ov::new(&Key::nth(c.seed), &[(ov_id(c.seed, 0), oopts())])?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &ov.s);
    p.connect().await?;
    let got = Arc::new(Mutex::new(Vec::<Vec<u8>>::new()));
    let mut tasks = vec![];
    for k in &c.consumers {
        let (o, g, k) = (ov.o[0].clone(), got.clone(), *k);
        tasks.push(tokio::spawn(async move {
            loop {
                let f = async {
                    let b = o.wait_for_broadcast().await;
                    g.lock().unwrap().push(b.data);
                };
                match k {
                    None => f.await,
                    Some(us) => {
                        // polled for the last time at an arbitrary moment
                        let mut f = Box::pin(f);
                        let t = std::time::Instant::now();
                        loop {
                            let r = std::future::poll_fn(|cx| std::task::Poll::Ready(f.as_mut().poll(cx).is_ready())).await;
                            if r || t.elapsed() > Duration::from_micros(us as u64) {
                                break;
                            }
                            tokio::task::yield_now().await;
                        }
                    }
                }
            }
        }));
    }
    let stable = c.consumers.iter().any(|x| x.is_none());
    let mut want: BTreeSet<Vec<u8>> = Default::default();
    let date = clock::unix();
    for (i, n) in c.bursts.iter().enumerate() {
        for j in 0..*n as u64 {
            let d = payload(c.seed + i as u64 * 64 + j, 24);
            let b = Bc::new(&Key::nth(c.seed + 2), 1, &d, date);
            p.send_msg(false, Msg::Custom(wrap(&ov_id(c.seed, 0), &b.tl())));
            want.insert(d);
        }
        mark(&mut p).await?;
        let t = clock::real_ms();
        loop {
            let n = got.lock().unwrap().len();
            let left = ov.o[0].metrics().received_broadcasts_data_len;
            if n >= want.len() || clock::real_ms() - t > 4000 {
                check!(n == want.len(), "{n} of {} broadcasts are handed out, {left} are left while somebody waits", want.len());
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    for t in &tasks {
        t.abort();
    }
    let g: BTreeSet<Vec<u8>> = got.lock().unwrap().iter().cloned().collect();
    check!(g == want, "other broadcasts are handed out");
    Ok(stable && c.consumers.len() > 1)
}
pub fn o10_run(c: &mut Ctx) {
    c.scenario("waiters", "a consumer gets a broadcast and one is cancelled", 1500, || (1u64..1_000_000, w1()), |(s, v)| run(waiters(s * 1000, v)));
    c.scenario("unread", "more than 250 broadcasts wait to be read", 120, unread_gen, |v| run(unread(v)));
    c.scenario("threads", "several consumers", 40, many_gen, |v| run_mt(many(v)));
}
