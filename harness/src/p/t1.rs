//! Scenarios on several threads and in real time; each belongs to the property of its name
use crate::dh::*;
use crate::fx::*;
use everscale_network::adnl::{self, NodeIdShort, PeersSet};
use everscale_network::{dht, proto};
use everscale_network::tl;
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;


fn rnd(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *x >> 33
}
/// Waits in real time without blocking the thread
async fn wait(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..ms {
        if f() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    f()
}

// ------------------------------------------------------------------ A04: copies at the same time

#[derive(Clone, Debug)]
pub struct Copies {
    seed: u64,
    /// first number of each round, packets in it, copies of each, distance of the copies
    rounds: Vec<(u32, u8, u8, u8)>,
    priority: bool,
}
pub fn copies_gen() -> impl Strategy<Value = Copies> {
    let start = prop_oneof![2 => 0u32..5000, 1 => (1u32..20, 0u32..40).prop_map(|(a, b)| a * 1024 - b.min(a * 1024)), 1 => (1u32..40, 0u32..40).prop_map(|(a, b)| a * 512 - b)];
    (1u64..1_000_000, prop::collection::vec((start, 4u8..50, 2u8..6, 1u8..4), 2..8), any::<bool>())
        .prop_map(|(seed, rounds, priority)| Copies { seed, rounds, priority })
}
pub async fn copies(c: &Copies) -> CaseResult {
    let o = adnl::NodeOptions { packet_history_enabled: true, ..opts() };
    let s = Sut::new(&Key::nth(c.seed * 10), o)?;
    let mut p = RefPeer::new(Key::nth(c.seed * 10 + 1), &s);
    p.connect().await?;
    s.take();
    let mut at = p.link.sent[c.priority as usize];
    let mut tag = 0u64;
    for (skip, n, k, d) in &c.rounds {
        at += *skip as u64;
        p.link.sent[c.priority as usize] = at;
        let mut ds: Vec<Vec<u8>> = vec![];
        let mut want = BTreeSet::new();
        for _ in 0..*n {
            tag += 1;
            let data = payload(c.seed * 1000 + tag, 16);
            ds.push(p.link.packet(c.priority, vec![Msg::Custom(data.clone())]));
            want.insert(data);
        }
        at += *n as u64;
        for i in 0..ds.len() + *d as usize * (*k as usize - 1) {
            for j in 0..*k as usize {
                if let Some(x) = i.checked_sub(j * *d as usize).and_then(|x| ds.get(x)) {
                    p.raw(x);
                }
            }
        }
        wait(2000, || s.count() >= want.len()).await;
        tokio::time::sleep(Duration::from_millis(3)).await;
        let mut seen: BTreeMap<Vec<u8>, u32> = Default::default();
        for e in s.take() {
            check!(want.contains(&e.data), "something that was not sent is handed out");
            *seen.entry(e.data).or_default() += 1;
        }
        let twice = seen.values().filter(|n| **n > 1).count();
        check!(twice == 0, "{twice} of {n} packets from number {} on are processed more than once when {k} copies arrive at the same time", at - *n as u64 + 1);
        check!(seen.len() == want.len(), "{} of {n} new packets from number {} on are processed when {k} copies arrive at the same time", seen.len(), at - *n as u64 + 1);
    }
    Ok(c.rounds.iter().any(|r| r.1 > 10))
}

// ------------------------------------------------------------------ A02: parts of a message at the same time

#[derive(Clone, Debug)]
pub struct Pieces {
    seed: u64,
    /// messages of each round, parts of each, size of a part, messages that come mixed with each other
    rounds: Vec<(u8, u8, u8, u8)>,
    query: bool,
    priority: bool,
}
pub fn pieces_gen() -> impl Strategy<Value = Pieces> {
    (1u64..1_000_000, prop::collection::vec((20u8..120, 2u8..6, 12u8..60, prop_oneof![1 => 1u8..4, 2 => 8u8..120]), 3..10), any::<bool>(), any::<bool>())
        .prop_map(|(seed, rounds, query, priority)| Pieces { seed, rounds, query, priority })
}
pub async fn pieces(c: &Pieces) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed * 10), opts())?;
    let mut p = RefPeer::new(Key::nth(c.seed * 10 + 1), &s);
    p.connect().await?;
    s.take();
    let mut tag = 0u64;
    for (round, (n, k, size, mixed)) in c.rounds.iter().enumerate() {
        let (k, size) = (*k as usize, *size as usize);
        let mut want = BTreeSet::new();
        let mut all: Vec<Vec<Vec<u8>>> = vec![];
        for _ in 0..*n {
            tag += 1;
            let data = payload(c.seed * 1000 + tag, k * size - 8);
            let mut id = [0u8; 32];
            id[..8].copy_from_slice(&tag.to_le_bytes());
            let d = match c.query {
                true => Msg::Query { id, data: data.clone() },
                false => Msg::Custom(data.clone()),
            }
            .encode();
            want.insert(data);
            let one = (d.len() + k - 1) / k;
            let hash = sha256(&d);
            all.push(d.chunks(one).enumerate().map(|(i, x)| p.link.packet(c.priority, vec![Msg::Part { hash, total: d.len() as u32, offset: (i * one) as u32, data: x.to_vec() }])).collect());
        }
        for group in all.chunks(*mixed as usize) {
            for i in 0..k {
                for m in group {
                    if let Some(d) = m.get(i) {
                        p.raw(d);
                    }
                }
            }
        }
        wait(2000, || s.count() >= want.len()).await;
        tokio::time::sleep(Duration::from_millis(2)).await;
        let mut seen: BTreeMap<Vec<u8>, u32> = Default::default();
        for e in s.take() {
            check!(want.contains(&e.data), "something that was not sent is handed out");
            *seen.entry(e.data).or_default() += 1;
        }
        let twice = seen.values().filter(|n| **n > 1).count();
        check!(twice == 0, "round {round}: {twice} of {n} messages whose parts arrive at the same time are handed out more than once");
        check!(seen.len() == want.len(), "round {round}: {} of {n} messages whose parts arrive at the same time are handed out", seen.len());
    }
    Ok(c.rounds.iter().any(|r| r.0 > 50))
}

// ------------------------------------------------------------------ A06, A02, A03: two nodes, many tasks

#[derive(Clone, Debug)]
pub struct Crowd {
    seed: u64,
    history: bool,
    /// tasks of each side with their number of requests
    tasks: Vec<(bool, u8)>,
    /// largest request
    len: u16,
    /// unrelated peers come and go meanwhile
    noise: bool,
}
pub fn crowd_gen(len: u16) -> impl Strategy<Value = Crowd> {
    (1u64..1_000_000, any::<bool>(), prop::collection::vec((any::<bool>(), 5u8..40), 2..9), 20u16..len, any::<bool>())
        .prop_map(|(seed, history, tasks, len, noise)| Crowd { seed, history, tasks, len, noise })
}
pub async fn crowd(c: &Crowd) -> CaseResult {
    let o = adnl::NodeOptions { packet_history_enabled: c.history, query_default_timeout_ms: 3000, ..opts() };
    let mut s = vec![];
    for i in 0..2u64 {
        s.push(Sut::with(&[Key::nth(c.seed * 10 + i)], LOCAL, o, default_reply)?);
    }
    for i in 0..2 {
        let (k, a) = (s[1 - i].keys[0].clone(), s[1 - i].addr);
        s[i].add_peer(&k, a);
    }
    let stop = Arc::new(AtomicBool::new(false));
    if c.noise {
        for (i, x) in s.iter().enumerate() {
            let (node, me, stop, seed) = (x.node.clone(), x.id(), stop.clone(), c.seed * 10 + 5);
            let mut r = seed + i as u64;
            tokio::spawn(async move {
                while !stop.load(Ordering::Relaxed) {
                    let k = Key::nth(seed + rnd(&mut r) % 4);
                    let a = std::net::SocketAddrV4::new(LOCAL, 9);
                    node.add_peer(adnl::NewPeerContext::Dht, &me, &short(&k.id), a, full(&k.public)).ok();
                    node.send_custom_message(&me, &short(&k.id), &[1; 40]).ok();
                    if rnd(&mut r) % 2 == 0 {
                        node.remove_peer(&me, &short(&k.id)).ok();
                    }
                    tokio::time::sleep(Duration::from_micros(300)).await;
                }
            });
        }
    }
    let mut hs = vec![];
    let mut told: [BTreeMap<Vec<u8>, u32>; 2] = Default::default();
    let mut asked: [BTreeSet<Vec<u8>>; 2] = Default::default();
    for (t, (side, n)) in c.tasks.iter().enumerate() {
        let side = *side as usize;
        let (node, me, you) = (s[side].node.clone(), s[side].id(), s[1 - side].id());
        let mut r = c.seed * 100 + t as u64;
        let mut list = vec![];
        for i in 0..*n {
            let d = payload(c.seed * 10_000 + t as u64 * 100 + i as u64, 8 + rnd(&mut r) as usize % c.len as usize);
            let ask = rnd(&mut r) % 3 > 0;
            match ask {
                true => {
                    asked[1 - side].insert(d.clone());
                }
                false => {
                    told[1 - side].insert(d.clone(), 0);
                }
            }
            list.push((d, ask));
        }
        hs.push(tokio::spawn(async move {
            let mut none = 0;
            for (d, ask) in list {
                if ask {
                    match node.query_raw(&me, &you, d.clone().into(), None).await {
                        Ok(Some(a)) if a == answer_for(&d) => {}
                        Ok(Some(a)) => return Err(format!("a query of {} bytes is answered with {} bytes that are not its answer", d.len(), a.len())),
                        Ok(None) => none += 1,
                        Err(e) => return Err(format!("a query failed: {e}")),
                    }
                } else if let Err(e) = node.send_custom_message(&me, &you, &d) {
                    return Err(format!("a message could not be sent: {e}"));
                }
            }
            Ok(none)
        }));
    }
    let mut none = 0;
    for h in hs {
        match h.await.map_err(|e| Fail::Harness(e.to_string()))? {
            Ok(n) => none += n,
            Err(e) => viol!("{e}"),
        }
    }
    let total: usize = told.iter().map(|x| x.len()).sum::<usize>() + asked.iter().map(|x| x.len()).sum::<usize>();
    wait(1000, || s[0].count() + s[1].count() >= total).await;
    tokio::time::sleep(Duration::from_millis(2)).await;
    stop.store(true, Ordering::Relaxed);
    for i in 0..2 {
        for e in s[i].take() {
            if e.query {
                check!(asked[i].remove(&e.data), "a query of {} bytes is handled that was not sent, or for the second time", e.data.len());
            } else {
                match told[i].get_mut(&e.data) {
                    Some(n) => *n += 1,
                    None => viol!("a message of {} bytes is handed out that was not sent", e.data.len()),
                }
            }
            check!(e.peer == s[1 - i].keys[0].id && e.local == s[i].keys[0].id, "a request is attributed to someone else");
        }
    }
    let bad: Vec<u32> = told.iter().flat_map(|m| m.values().copied().filter(|n| *n != 1)).collect();
    check!(bad.iter().all(|n| *n == 0), "a message is handed out {} times", bad.iter().max().unwrap());
    check!(bad.is_empty(), "{} of {} messages do not arrive although nothing is lost", bad.len(), told.iter().map(|m| m.len()).sum::<usize>());
    let open: usize = asked.iter().map(|a| a.len()).sum();
    check!(open == 0 && none == 0, "{open} queries are not handled and {none} not answered although nothing is lost");
    for x in &s {
        let m = x.node.metrics();
        check!(m.query_count == 0, "{} queries are left", m.query_count);
        check!(m.incoming_transfers_len == 0, "{} transfers are left", m.incoming_transfers_len);
    }
    Ok(c.tasks.iter().any(|t| t.0) && c.tasks.iter().any(|t| !t.0))
}

// ------------------------------------------------------------------ A07: additions and removals at the same time

#[derive(Clone, Debug)]
pub struct Table {
    seed: u64,
    threads: u8,
    ids: u8,
    steps: u16,
    traffic: bool,
}
pub fn table_gen() -> impl Strategy<Value = Table> {
    (1u64..1_000_000, 2u8..6, 1u8..4, 50u16..600, any::<bool>()).prop_map(|(seed, threads, ids, steps, traffic)| Table { seed, threads, ids, steps, traffic })
}
pub async fn table(c: &Table) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed * 10), opts())?;
    let mut peers: Vec<RefPeer> = (0..c.ids as u64).map(|i| RefPeer::new(Key::nth(c.seed * 10 + 1 + i), &s)).collect();
    let who: Arc<Vec<_>> = Arc::new(peers.iter().map(|p| (p.id(), full(&p.key().public), p.addr())).collect());
    let sum: Arc<Vec<AtomicI64>> = Arc::new((0..c.ids).map(|_| AtomicI64::new(0)).collect());
    let mut hs = vec![];
    for t in 0..c.threads as u64 {
        let (node, me, who, sum, n) = (s.node.clone(), s.id(), who.clone(), sum.clone(), c.steps);
        let mut r = c.seed * 16 + t;
        hs.push(std::thread::spawn(move || {
            for _ in 0..n {
                let i = rnd(&mut r) as usize % who.len();
                if rnd(&mut r) % 2 == 0 {
                    if let Ok(true) = node.add_peer(adnl::NewPeerContext::Dht, &me, &who[i].0, who[i].2, who[i].1) {
                        sum[i].fetch_add(1, Ordering::SeqCst);
                    }
                } else if let Ok(true) = node.remove_peer(&me, &who[i].0) {
                    sum[i].fetch_sub(1, Ordering::SeqCst);
                }
                if rnd(&mut r) % 4 == 0 {
                    node.send_custom_message(&me, &who[i].0, &[3; 20]).ok();
                }
            }
        }));
    }
    while c.traffic && hs.iter().any(|h| !h.is_finished()) {
        // over a channel if there is one: such packets do not add a peer
        for p in peers.iter_mut() {
            p.poll();
            if p.link.ready {
                p.send(false, vec![Msg::Custom(payload(c.seed, 20))]);
            }
        }
        tokio::time::sleep(Duration::from_micros(200)).await;
    }
    for h in hs {
        if h.join().is_err() {
            viol!("adding and removing peers panicked");
        }
    }
    tokio::time::sleep(Duration::from_millis(2)).await;
    let m = s.node.metrics();
    let mut n = 0;
    for (i, w) in who.iter().enumerate() {
        let k = sum[i].load(Ordering::SeqCst);
        let there = s.node.get_peer_address(&s.id(), &w.0);
        // adding a known peer again is a success, too
        check!(k >= there.is_some() as i64, "a peer was removed more often than added");
        check!(there.map_or(true, |a| a == w.2), "the address of a peer is {there:?}");
        n += there.is_some() as i64;
    }
    check!(m.peer_count as i64 == n, "{} peers are counted instead of {n}", m.peer_count);
    check!(m.channels_by_id_len == 2 * m.channels_by_peers_len, "{} channel ids for {} channels", m.channels_by_id_len, m.channels_by_peers_len);
    // every remaining peer can be talked to
    for (i, p) in peers.iter_mut().enumerate() {
        p.poll();
        if s.node.get_peer_address(&s.id(), &p.id()).is_some() {
            let d = payload(c.seed + 7, 30);
            if s.node.send_custom_message(&s.id(), &p.id(), &d).is_err() {
                viol!("a known peer cannot be sent to");
            }
            let mut got = false;
            wait(1000, || {
                got |= p.msgs().iter().any(|m| *m == Msg::Custom(d.clone()));
                got
            })
            .await;
            check!(got, "a message to a known peer does not arrive");
        }
    }
    Ok(c.threads > 2)
}

// ------------------------------------------------------------------ U01: a set used by several threads

#[derive(Clone, Debug)]
pub struct Shared {
    seed: u64,
    cap: u32,
    ids: u8,
    threads: u8,
    steps: u16,
}
pub fn shared_gen() -> impl Strategy<Value = Shared> {
    (1u64..1_000_000, 1u32..12, 1u8..14, 2u8..6, 50u16..800).prop_map(|(seed, cap, ids, threads, steps)| Shared { seed, cap, ids, threads, steps })
}
pub fn shared(c: &Shared) -> CaseResult {
    let set = Arc::new(PeersSet::with_capacity(c.cap));
    let nid = |i: usize| NodeIdShort::new([i as u8 + 1; 32]);
    let all: Vec<NodeIdShort> = (0..c.ids as usize).map(nid).collect();
    let fits = c.ids as u32 <= c.cap;
    let sum: Arc<Vec<AtomicI64>> = Arc::new((0..c.ids).map(|_| AtomicI64::new(0)).collect());
    let ins = Arc::new(AtomicI64::new(0));
    let v0 = set.version();
    let hs: Vec<_> = (0..c.threads as u64)
        .map(|t| {
            let (set, all, sum, ins, n, cap) = (set.clone(), all.clone(), sum.clone(), ins.clone(), c.steps, c.cap);
            let mut r = c.seed * 16 + t;
            std::thread::spawn(move || -> Result<(), String> {
                for _ in 0..n {
                    let i = rnd(&mut r) as usize % all.len();
                    match rnd(&mut r) % 8 {
                        0..=2 => {
                            if set.insert(all[i]) {
                                sum[i].fetch_add(1, Ordering::SeqCst);
                                ins.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                        3 | 4 => {
                            if set.remove(&all[i]) {
                                sum[i].fetch_sub(1, Ordering::SeqCst);
                                ins.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                        5 => {
                            let l = set.clone_inner();
                            let u: BTreeSet<_> = l.iter().map(|x| *x.as_slice()).collect();
                            if u.len() != l.len() || l.len() > cap as usize {
                                return Err(format!("{} entries, {} distinct, capacity {cap}", l.len(), u.len()));
                            }
                        }
                        6 => {
                            let l = set.get_random_peers(rnd(&mut r) as u32 % 6, Some(&all[i]));
                            let u: BTreeSet<_> = l.iter().map(|x| *x.as_slice()).collect();
                            if u.len() != l.len() || l.contains(&all[i]) {
                                return Err("a random selection repeats itself or has the excepted one".into());
                            }
                        }
                        _ => {
                            let (a, b) = (set.len(), set.iter().count());
                            if a > cap as usize || b > cap as usize {
                                return Err(format!("{a} entries, iterated {b}, capacity {cap}"));
                            }
                        }
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => viol!("used by several threads: {e}"),
            Err(_) => viol!("used by several threads: it panicked"),
        }
    }
    let l = set.clone_inner();
    check!(l.len() == set.len() && set.is_empty() == l.is_empty() && set.is_full() == (l.len() == c.cap as usize), "length {} for {} entries", set.len(), l.len());
    for (i, id) in all.iter().enumerate() {
        check!(set.contains(id) == l.contains(id), "membership and contents disagree");
        if fits {
            let k = sum[i].load(Ordering::SeqCst);
            check!(k == set.contains(id) as i64, "an id was inserted {k} times more often than removed");
        }
    }
    for (i, id) in l.iter().enumerate() {
        check!(set.get(i) == Some(*id), "index {i} has another entry");
    }
    let v = (set.version() - v0) as i64;
    check!(v == ins.load(Ordering::SeqCst), "the version grew by {v} with {} insertions and removals", ins.load(Ordering::SeqCst));
    Ok(c.threads > 2 && c.steps > 100)
}

// ------------------------------------------------------------------ D02, D03: stores at the same time

#[derive(Clone, Debug)]
pub struct Stores {
    seed: u64,
    keys: u8,
    threads: u8,
    steps: u8,
    lists: bool,
}
pub fn stores_gen(lists: bool) -> impl Strategy<Value = Stores> {
    (1u64..1_000_000, 1u8..3, 2u8..6, 3u8..25).prop_map(move |(seed, keys, threads, steps)| Stores { seed: seed * 1000, keys, threads, steps, lists })
}
pub async fn stores(c: &Stores) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &d.s);
    p.connect().await?;
    let now = clock::unix();
    let owners: Vec<Key> = (0..4u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut r = c.seed;
    // what each thread stores, in order
    let mut work: Vec<Vec<Val>> = vec![vec![]; c.threads as usize];
    for l in work.iter_mut() {
        for _ in 0..c.steps {
            let k = rnd(&mut r) % c.keys as u64;
            let name = format!("shared {k} {}", c.seed).into_bytes();
            l.push(if c.lists {
                let ov = sha256(&overlay_pub(&name));
                let n = 1 + rnd(&mut r) % 2;
                let ms: Vec<ONode> = (0..n).map(|_| ONode::new(&owners[rnd(&mut r) as usize % owners.len()], &ov, rnd(&mut r) as u32 % 50)).collect();
                Val::overlay(&name, &ONode::list(&ms), now + 1000)
            } else {
                Val::signed(&owners[k as usize], &name, 0, &rnd(&mut r).to_le_bytes(), now + 100 + rnd(&mut r) as u32 % 2000)
            });
        }
    }
    let hs: Vec<_> = work
        .iter()
        .map(|l| {
            let (l, d): (Vec<Vec<u8>>, Arc<dht::Node>) = (l.iter().map(|v| v.tl()).collect(), d.d.clone());
            let h = tokio::runtime::Handle::current();
            std::thread::spawn(move || {
                let _g = h.enter();
                for t in &l {
                    let v: proto::dht::Value = tl::deserialize(t).expect("value");
                    match d.store_value(v) {
                        Ok(f) => f.only_locally(),
                        Err(e) => return Err(format!("a valid value is refused: {e}")),
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => viol!("{e}"),
            Err(_) => viol!("storing panicked"),
        }
    }
    let mut newest: BTreeMap<B32, Vec<&Val>> = Default::default();
    for v in work.iter().flatten() {
        newest.entry(v.key.hash()).or_default().push(v);
    }
    for (k, l) in &newest {
        let Found::Value(got) = ask_value(&mut p, k, 6).await? else { viol!("a stored value is not found") };
        if c.lists {
            let Some(mut have) = got.members() else { viol!("the stored list cannot be read") };
            let mut want: BTreeMap<Vec<u8>, ONode> = Default::default();
            for m in l.iter().flat_map(|v| v.members().unwrap()) {
                match want.get(&m.id) {
                    Some(o) if o.version >= m.version => {}
                    _ => {
                        want.insert(m.id.clone(), m);
                    }
                }
            }
            have.sort();
            let mut want: Vec<ONode> = want.into_values().collect();
            want.sort();
            check!(have == want, "{} lists were stored by {} threads and there are {} members instead of {}, or older ones", l.len(), c.threads, have.len(), want.len());
        } else {
            let t = l.iter().map(|v| v.ttl).max().unwrap();
            check!(got.ttl == t, "values were stored by {} threads until {t}, the one that is found ends at {}", c.threads, got.ttl);
            check!(l.iter().any(|v| **v == got), "a value is found that was not stored");
        }
    }
    Ok(c.steps > 5)
}

// ------------------------------------------------------------------ D02, D03: stores of one key at the very same time

/// One such case at a time, so that its threads can really run side by side
static ALONE: Mutex<()> = Mutex::new(());

/// Runs `f(thread, round)` on all threads, each round started on all of them at the same moment
fn aligned(threads: usize, rounds: usize, f: impl Fn(usize, usize) -> Result<(), String> + Send + Sync) -> Result<(), String> {
    use std::sync::atomic::AtomicUsize;
    let ready = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (ready, f) = (&ready, &f);
                sc.spawn(move || {
                    let mut r = Ok(());
                    for round in 0..rounds {
                        ready.fetch_add(1, Ordering::SeqCst);
                        let mut spins = 0;
                        while ready.load(Ordering::SeqCst) < threads * (round + 1) {
                            spins += 1;
                            if spins > 20_000 {
                                std::thread::yield_now();
                            } else {
                                std::hint::spin_loop();
                            }
                        }
                        // (a thread whose round failed stays in step)
                        if r.is_ok() {
                            r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(t, round))).unwrap_or_else(|_| Err("panicked".into()));
                        }
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked".into()))).collect::<Result<Vec<_>, _>>().map(|_| ())
    })
}

#[derive(Clone, Debug)]
pub struct AtOnce {
    seed: u64,
    threads: u8,
    rounds: u8,
    /// stores of a thread in one round
    each: u8,
}
pub fn at_once_gen() -> impl Strategy<Value = AtOnce> {
    (1u64..1_000_000, 2u8..9, 20u8..80, 1u8..3).prop_map(|(seed, threads, rounds, each)| AtOnce { seed: seed * 1000, threads, rounds, each })
}
pub async fn at_once(c: &AtOnce) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &d.s);
    p.connect().await?;
    let now = clock::unix();
    let owner = Key::nth(c.seed + 10);
    let mut r = c.seed;
    // per round and thread
    let work: Vec<Vec<Vec<Val>>> = (0..c.rounds)
        .map(|i| {
            let name = format!("round {i}").into_bytes();
            (0..c.threads).map(|_| (0..c.each).map(|_| Val::signed(&owner, &name, 0, &rnd(&mut r).to_le_bytes(), now + 1000 + rnd(&mut r) as u32 % 1000)).collect()).collect()
        })
        .collect();
    let bytes: Vec<Vec<Vec<Vec<u8>>>> = work.iter().map(|w| w.iter().map(|l| l.iter().map(|v| v.tl()).collect()).collect()).collect();
    let h = tokio::runtime::Handle::current();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let r = aligned(c.threads as usize, c.rounds as usize, |t, round| {
            let _g = h.enter();
            for b in &bytes[round][t] {
                let v: proto::dht::Value = tl::deserialize(b).map_err(|e| e.to_string())?;
                d.d.store_value(v).map_err(|e| format!("a valid value is refused: {e}"))?.only_locally();
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("storing on several threads: {e}");
        }
    }
    for (i, w) in work.iter().enumerate() {
        let all: Vec<&Val> = w.iter().flatten().collect();
        let t = all.iter().map(|v| v.ttl).max().unwrap();
        let Found::Value(got) = ask_value(&mut p, &all[0].key.hash(), 6).await? else { viol!("a stored value is not found") };
        check!(got.ttl == t, "round {i}: {} values of one key were stored at the same time until {t}, the one that is found ends at {}", all.len(), got.ttl);
        check!(all.iter().any(|v| **v == got), "a value is found that was not stored");
    }
    Ok(c.threads > 3)
}

/// Packets sent by several threads at once are numbered one after the other, each number once
pub async fn numbers_at_once(c: &AtOnce) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed), adnl::NodeOptions { force_use_priority_channels: c.seed / 3000 % 2 == 0, ..opts() })?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &s);
    let channel = c.seed / 1000 % 3 > 0;
    match channel {
        true => p.connect().await?,
        false => need!(s.add_peer(&p.key().clone(), p.addr()), "a peer is not added"),
    }
    settle().await;
    let mut last = [0u64; 2];
    let kind = |g: &vcore::adnl::Got| (g.how == vcore::adnl::How::Channel { priority: true }) as usize;
    for g in p.poll() {
        last[kind(&g)] = last[kind(&g)].max(g.packet.seqno.unwrap_or(0));
    }
    if channel {
        // one answer shows where the numbers are
        let q = sha256(b"where");
        p.send(false, vec![Msg::Query { id: q, data: vec![1, 2, 3, 4] }]);
        wait(2000, || {
            for g in p.poll() {
                last[kind(&g)] = last[kind(&g)].max(g.packet.seqno.unwrap_or(0));
                if g.packet.messages.iter().any(|m| matches!(m, Msg::Answer { id, .. } if *id == q)) {
                    return true;
                }
            }
            false
        })
        .await;
    }
    let (node, me, you) = (s.node.clone(), s.id(), p.id());
    let each = c.each as usize * if channel { 4 } else { 1 };
    let rounds = if channel { c.rounds as usize } else { c.rounds as usize / 3 + 1 };
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let h = tokio::runtime::Handle::current();
        let r = aligned(c.threads as usize, rounds, |t, round| {
            let _g = h.enter();
            for i in 0..each {
                let mut d = vec![9u8; 16];
                d[4..8].copy_from_slice(&((t << 16 | round) as u32).to_le_bytes());
                d[8..12].copy_from_slice(&(i as u32).to_le_bytes());
                node.send_custom_message(&me, &you, &d).map_err(|e| e.to_string())?;
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("sending on several threads: {e}");
        }
    }
    let total = each * rounds * c.threads as usize;
    let mut numbers: [BTreeMap<u64, u32>; 2] = Default::default();
    let mut datas: BTreeMap<Vec<u8>, u32> = Default::default();
    wait(10_000, || {
        for g in p.poll() {
            for m in &g.packet.messages {
                if let Msg::Custom(d) = m {
                    *datas.entry(d.clone()).or_default() += 1;
                    *numbers[kind(&g)].entry(g.packet.seqno.unwrap_or(0)).or_default() += 1;
                }
            }
        }
        datas.len() >= total
    })
    .await;
    need!(p.unopened.is_empty(), "packets of several threads cannot be opened");
    check!(datas.len() == total, "{} of {total} messages sent by {} threads arrive", datas.len(), c.threads);
    check!(datas.values().all(|n| *n == 1), "a message is sent twice");
    for (k, n) in numbers.iter().enumerate() {
        let name = ["ordinary", "priority"][k];
        let twice: Vec<_> = n.iter().filter(|n| *n.1 > 1).map(|n| *n.0).take(5).collect();
        check!(twice.is_empty(), "{} threads send at once, several {name} packets have the numbers {twice:?}", c.threads);
        check!(n.keys().copied().eq(last[k] + 1..=last[k] + n.len() as u64), "{} {name} packets after number {} are numbered from {:?} to {:?}", n.len(), last[k], n.keys().next(), n.keys().last());
    }
    Ok(c.threads > 3)
}

/// Lists of one overlay: every member in its newest record
pub async fn lists_at_once(c: &AtOnce) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &d.s);
    p.connect().await?;
    let now = clock::unix();
    let owners: Vec<Key> = (0..3u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut r = c.seed;
    let work: Vec<Vec<Vec<Val>>> = (0..c.rounds)
        .map(|i| {
            let name = format!("round {i}").into_bytes();
            let ov = sha256(&overlay_pub(&name));
            (0..c.threads)
                .map(|_| (0..c.each).map(|_| Val::overlay(&name, &ONode::list(&[ONode::new(&owners[rnd(&mut r) as usize % 3], &ov, rnd(&mut r) as u32 % 50)]), now + 1000)).collect())
                .collect()
        })
        .collect();
    let bytes: Vec<Vec<Vec<Vec<u8>>>> = work.iter().map(|w| w.iter().map(|l| l.iter().map(|v| v.tl()).collect()).collect()).collect();
    let h = tokio::runtime::Handle::current();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let r = aligned(c.threads as usize, c.rounds as usize, |t, round| {
            let _g = h.enter();
            for b in &bytes[round][t] {
                let v: proto::dht::Value = tl::deserialize(b).map_err(|e| e.to_string())?;
                d.d.store_value(v).map_err(|e| format!("a valid list is refused: {e}"))?.only_locally();
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("storing on several threads: {e}");
        }
    }
    for (i, w) in work.iter().enumerate() {
        let all: Vec<&Val> = w.iter().flatten().collect();
        let mut want: BTreeMap<Vec<u8>, u32> = Default::default();
        for m in all.iter().flat_map(|v| v.members().unwrap()) {
            let e = want.entry(m.id).or_default();
            *e = m.version.max(*e);
        }
        let Found::Value(got) = ask_value(&mut p, &all[0].key.hash(), 6).await? else { viol!("a stored list is not found") };
        let Some(have) = got.members() else { viol!("the stored list cannot be read") };
        let n = have.len();
        let have: BTreeMap<Vec<u8>, u32> = have.into_iter().map(|m| (m.id, m.version)).collect();
        check!(n == have.len() && have == want, "round {i}: {} lists were stored at the same time; {n} members are there instead of {}, with the versions {:?} instead of {:?}", all.len(), want.len(), have.values().collect::<Vec<_>>(), want.values().collect::<Vec<_>>());
    }
    Ok(c.threads > 3)
}

/// Records of one DHT peer: the newest one is handed out
pub async fn records_at_once(c: &AtOnce) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &d.s);
    p.connect().await?;
    let mut r = c.seed;
    let work: Vec<Vec<Vec<Rec>>> = (0..c.rounds as u64)
        .map(|i| {
            let k = Key::nth(c.seed + 100 + i);
            (0..c.threads).map(|_| (0..c.each).map(|_| Rec::new(&k, std::net::SocketAddrV4::new(ip(i as usize), 100 + rnd(&mut r) as u16 % 1000), rnd(&mut r) as u32 % 50)).collect()).collect()
        })
        .collect();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let r = aligned(c.threads as usize, c.rounds as usize, |t, round| {
            for x in &work[round][t] {
                match d.d.add_dht_peer(x.owned()) {
                    Ok(Some(id)) if Some(*id.as_slice()) == x.short() => {}
                    r => return Err(format!("a valid record gives {r:?}")),
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("adding peers on several threads: {e}");
        }
    }
    let want: BTreeSet<B32> = work.iter().map(|w| w[0][0].short().unwrap()).collect();
    let got = d.known();
    check!(got.len() == want.len() && got.iter().copied().collect::<BTreeSet<_>>() == want, "{} peers are known, {} were added", got.len(), want.len());
    for (i, w) in work.iter().enumerate() {
        let all: Vec<&Rec> = w.iter().flatten().collect();
        let v = all.iter().map(|x| x.version).max().unwrap();
        let id = all[0].short().unwrap();
        let Some(a) = p.query(false, &find_node_query(&id, 1000)).await else { viol!("no answer to a node search") };
        let Some(l) = parse_nodes(&a) else { viol!("an unreadable answer") };
        let l: Vec<&Rec> = l.iter().filter(|x| x.short() == Some(id)).collect();
        check!(l.len() == 1 && all.contains(&l[0]), "a node that was added is named {} times", l.len());
        check!(l[0].version == v, "round {i}: {} records of one node were added at the same time, the newest with version {v}; version {} is handed out", all.len(), l[0].version);
    }
    Ok(c.threads > 3)
}

/// One peer added by all threads, then removed by all
pub async fn peers_at_once(c: &AtOnce) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed), opts())?;
    let keys: Vec<Key> = (0..c.rounds as u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let who: Vec<(NodeIdShort, adnl::NodeIdFull)> = keys.iter().map(|k| (short(&k.id), full(&k.public))).collect();
    let addr = |t: usize| std::net::SocketAddrV4::new(LOCAL, 100 + t as u16);
    let removed: Vec<AtomicI64> = keys.iter().map(|_| AtomicI64::new(0)).collect();
    let me = s.id();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let r = aligned(c.threads as usize, 2 * c.rounds as usize, |t, round| {
            let (i, remove) = (round / 2, round % 2 == 1);
            if !remove {
                match s.node.add_peer(adnl::NewPeerContext::Dht, &me, &who[i].0, addr(t), who[i].1) {
                    Ok(true) => {}
                    r => return Err(format!("adding a peer gives {r:?}")),
                }
                match s.node.get_peer_address(&me, &who[i].0) {
                    Some(a) if (0..c.threads as usize).any(|t| addr(t) == a) => {}
                    r => return Err(format!("a peer that was added is at {r:?}")),
                }
            } else {
                // every third peer stays
                if i % 3 != 0 {
                    match s.node.remove_peer(&me, &who[i].0) {
                        Ok(x) => drop(removed[i].fetch_add(x as i64, Ordering::SeqCst)),
                        Err(e) => return Err(format!("removing a peer fails: {e}")),
                    }
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("using the peer table on several threads: {e}");
        }
    }
    for (i, w) in who.iter().enumerate() {
        let there = s.node.get_peer_address(&me, &w.0).is_some();
        let n = removed[i].load(Ordering::SeqCst);
        check!(there == (i % 3 == 0) && n == !there as i64, "a peer was removed {n} times by {} threads and {}", c.threads, if there { "is there" } else { "is gone" });
    }
    let want = who.len().div_ceil(3);
    check!(s.node.metrics().peer_count == want, "{} peers are counted instead of {want}", s.node.metrics().peer_count);
    Ok(c.threads > 3)
}

/// One overlay and its member created by all threads
pub async fn overlays_at_once(c: &AtOnce) -> CaseResult {
    use crate::ov::*;
    let ov = Ov::new(&Key::nth(c.seed), &[])?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &ov.s);
    p.connect().await?;
    let mut r = c.seed;
    let ids: Vec<B32> = (0..c.rounds).map(|i| ov_id(c.seed, i as u64 + 1)).collect();
    let member = Key::nth(c.seed + 2);
    let work: Vec<Vec<Vec<ONode>>> = ids.iter().map(|o| (0..c.threads).map(|_| (0..c.each).map(|_| ONode::new(&member, o, rnd(&mut r) as u32 % 50)).collect()).collect()).collect();
    let made: Vec<Mutex<Vec<(Arc<everscale_network::overlay::Overlay>, bool)>>> = ids.iter().map(|_| Default::default()).collect();
    let addr = std::net::SocketAddrV4::new(LOCAL, 9);
    let h = tokio::runtime::Handle::current();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        let r = aligned(c.threads as usize, c.rounds as usize, |t, round| {
            let _g = h.enter();
            let (o, new) = ov.on.add_public_overlay(&everscale_network::overlay::IdShort::new(ids[round]), oopts());
            made[round].lock().unwrap().push((o.clone(), new));
            for x in &work[round][t] {
                let w = x.owned();
                if !matches!(o.add_public_peer(&ov.s.node, addr, w.as_equivalent_ref()), Ok(Some(_))) {
                    return Err("a valid member is refused".into());
                }
            }
            Ok(())
        });
        if let Err(e) = r {
            viol!("using overlays on several threads: {e}");
        }
    }
    for (i, w) in work.iter().enumerate() {
        let made = made[i].lock().unwrap();
        let new = made.iter().filter(|x| x.1).count();
        check!(new == 1, "an overlay that {} threads create is new {new} times", c.threads);
        check!(made.iter().all(|x| Arc::ptr_eq(&x.0, &made[0].0)), "threads that create one overlay get different ones");
        let m = made[0].0.metrics();
        check!(m.known_peers == 1 && m.neighbours == 1, "{} members and {} neighbours are counted instead of 1", m.known_peers, m.neighbours);
        let v = w.iter().flatten().map(|x| x.version).max().unwrap();
        let q = wrap_query(&ids[i], &W::new().u32(id::get_random_peers()).raw(&ONode::list(&[])[4..]).done());
        let Some(a) = p.query(false, &q).await else { viol!("a request for peers is not answered") };
        let Some(l) = ONode::read_boxed(&a) else { viol!("the answer is no list of records") };
        let l: Vec<&ONode> = l.iter().filter(|n| n.short() == Some(member.id)).collect();
        check!(l.len() == 1 && l[0].version == v, "round {i}: the newest record of the member has version {v}, handed out are {:?}", l.iter().map(|n| n.version).collect::<Vec<_>>());
    }
    // all remove it
    let removed: Vec<AtomicI64> = ids.iter().map(|_| AtomicI64::new(0)).collect();
    let overlays: Vec<_> = made.iter().map(|m| m.lock().unwrap()[0].0.clone()).collect();
    {
        let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
        aligned(c.threads as usize, c.rounds as usize, |_, round| {
            removed[round].fetch_add(overlays[round].remove_public_peer(&short(&member.id)) as i64, Ordering::SeqCst);
            Ok(())
        })
        .map_err(Fail::Viol)?;
    }
    for (o, n) in overlays.iter().zip(&removed) {
        let n = n.load(Ordering::SeqCst);
        check!(n == 1, "{} threads removed a member {n} times", c.threads);
        check!(!o.is_active_public_peer(&short(&member.id)) && o.metrics().neighbours == 0, "a removed member is active");
    }
    Ok(c.threads > 3)
}

/// Requests for peers handled by several threads at once: the newest record of everyone named is kept
pub async fn requests_at_once(c: &AtOnce) -> CaseResult {
    use crate::ov::*;
    use everscale_network::{QueryConsumingResult, SubscriberContext};
    let id = ov_id(c.seed, 1);
    let ov = Ov::new(&Key::nth(c.seed), &[(id, oopts())])?;
    let sub = ov.on.query_subscriber();
    let mut r = c.seed;
    let members: Vec<Key> = (0..3u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let rounds = c.rounds as usize / 2;
    let work: Vec<Vec<Vec<ONode>>> = (0..rounds).map(|_| (0..c.threads).map(|_| (0..=c.each).map(|_| ONode::new(&members[rnd(&mut r) as usize % 3], &id, rnd(&mut r) as u32 % 50)).collect()).collect()).collect();
    let queries: Vec<Vec<Vec<u8>>> = work.iter().map(|w| w.iter().map(|l| wrap_query(&id, &W::new().u32(vcore::tl::id::get_random_peers()).raw(&ONode::list(l)[4..]).done())).collect()).collect();
    let (local, peer) = (ov.s.id(), short(&members[0].id));
    for (round, w) in work.iter().enumerate() {
        {
            let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
            let r = aligned(c.threads as usize, 1, |t, _| {
                let q = &queries[round][t];
                let ctx = SubscriberContext { adnl: &ov.s.node, local_id: &local, peer_id: &peer };
                let tag = u32::from_le_bytes(q[..4].try_into().unwrap());
                match futures_util::FutureExt::now_or_never(sub.try_consume_query(ctx, tag, std::borrow::Cow::Borrowed(q))) {
                    Some(Ok(QueryConsumingResult::Consumed(Some(_)))) => Ok(()),
                    Some(Ok(_)) => Err("a request is not answered".into()),
                    Some(Err(e)) => Err(format!("a request fails: {e}")),
                    None => Err("a request is not answered at once".into()),
                }
            });
            if let Err(e) = r {
                viol!("asking on several threads: {e}");
            }
        }
        let mut want: BTreeMap<B32, u32> = Default::default();
        for n in w.iter().flatten() {
            let e = want.entry(n.short().unwrap()).or_default();
            *e = n.version.max(*e);
        }
        let got: Vec<(B32, u32)> = ov.o[0].take_new_peers().into_iter().map(|(_, n)| (*adnl::NodeIdFull::try_from(n.id.as_equivalent_ref()).unwrap().compute_short_id().as_slice(), n.version)).collect();
        let n = got.len();
        let got: BTreeMap<B32, u32> = got.into_iter().collect();
        check!(n == got.len() && got == want, "round {round}: {} requests at the same time name records with the newest versions {:?}, kept are {:?}", c.threads, want.values().collect::<Vec<_>>(), got.values().collect::<Vec<_>>());
    }
    Ok(c.threads > 3)
}

// ------------------------------------------------------------------ R03: the first queries of a peer at the same time

/// Queries started by several threads at once: no more than allowed are under way
pub async fn queries_at_once(c: &AtOnce) -> CaseResult {
    use everscale_network::rldp;
    use std::future::Future;
    let (node, addr) = new_node(&[Key::nth(c.seed)], LOCAL, opts(), None)?;
    let events = Arc::new(Mutex::new(vec![]));
    let max = c.each as usize;
    let o = rldp::NodeOptions { max_peer_queries: max, ..Default::default() };
    let rl = rldp::Node::new(node.clone(), vec![Recorder::new(&events, 0, default_reply)], o).map_err(|e| Fail::Harness(e.to_string()))?;
    node.start().map_err(|e| Fail::Harness(e.to_string()))?;
    let s = Sut { node, keys: vec![Key::nth(c.seed)], addr, events };
    let sink = vcore::net::Sock::any();
    let me = s.id();
    let rounds = c.rounds as usize / 2;
    let ids: Vec<NodeIdShort> = (0..=rounds as u64)
        .map(|i| {
            let k = Key::nth(c.seed + 1 + i);
            s.add_peer(&k, sink.addr);
            short(&k.id)
        })
        .collect();
    // (what one query adds to the table)
    let mut one = Box::pin(rl.query(&me, &ids[rounds], vec![1; 20], None));
    let w = futures_util::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    need!(one.as_mut().poll(&mut cx).is_pending(), "a query without an answer ends");
    let unit = rl.metrics().transfers_cache_len;
    need!(unit > 0, "a query under way is not counted");
    let h = tokio::runtime::Handle::current();
    let held: Mutex<Vec<std::pin::Pin<Box<dyn Future<Output = anyhow::Result<(Option<Vec<u8>>, u64)>> + Send>>>> = Default::default();
    for (round, id) in ids[..rounds].iter().enumerate() {
        let before = rl.metrics().transfers_cache_len;
        {
            let _one = ALONE.lock().unwrap_or_else(|e| e.into_inner());
            let r = aligned(c.threads as usize, 1, |t, _| {
                let _g = h.enter();
                let rl = rl.clone();
                let (me, id) = (me, *id);
                let mut f: std::pin::Pin<Box<dyn Future<Output = _> + Send>> = Box::pin(async move { rl.query(&me, &id, vec![t as u8; 20], None).await });
                let w = futures_util::task::noop_waker();
                match f.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
                    std::task::Poll::Ready(Err(e)) => return Err(format!("a query fails: {e}")),
                    std::task::Poll::Ready(Ok(_)) => return Err("a query ends at once".into()),
                    std::task::Poll::Pending => held.lock().unwrap().push(f),
                }
                Ok(())
            });
            if let Err(e) = r {
                viol!("asking on several threads: {e}");
            }
        }
        let n = rl.metrics().transfers_cache_len.saturating_sub(before);
        check!(n <= max * unit, "round {round}: {} threads ask a peer at the same time, {} queries are under way instead of at most {max}", c.threads, n / unit);
    }
    drop(one);
    Ok(c.threads > 3)
}

// ------------------------------------------------------------------ O06: members come and go at the same time

pub fn members_gen() -> impl Strategy<Value = Table> {
    table_gen()
}
pub async fn members(c: &Table) -> CaseResult {
    use crate::ov::*;
    let id = ov_id(c.seed, 0);
    let ov = Ov::new(&Key::nth(c.seed * 10), &[(id, oopts())])?;
    let keys: Vec<Key> = (0..c.ids as u64 + 1).map(|i| Key::nth(c.seed * 10 + 1 + i)).collect();
    let recs: Vec<_> = keys.iter().map(|k| ONode::new(k, &id, 1)).collect();
    let addr = std::net::SocketAddrV4::new(LOCAL, 9);
    let events: Arc<Mutex<Vec<String>>> = Default::default();
    let hs: Vec<_> = (0..c.threads as u64)
        .map(|t| {
            let (o, node, recs, ids, n) = (ov.o[0].clone(), ov.s.node.clone(), recs.clone(), keys.iter().map(|k| short(&k.id)).collect::<Vec<_>>(), c.steps);
            let (mut r, events) = (c.seed * 16 + t, events.clone());
            std::thread::spawn(move || {
                // each thread has a peer of its own, too
                let own = t as usize % ids.len();
                for _ in 0..n {
                    let i = rnd(&mut r) as usize % ids.len();
                    if rnd(&mut r) % 2 == 0 {
                        let w = recs[i].owned();
                        if o.add_public_peer(&node, addr, w.as_equivalent_ref()).is_err() {
                            events.lock().unwrap().push("a valid member is refused".into());
                        }
                    } else {
                        o.remove_public_peer(&ids[i]);
                    }
                    let m = o.metrics();
                    if m.neighbours as usize > ids.len() || m.known_peers > ids.len() {
                        events.lock().unwrap().push(format!("{} neighbours and {} members of {}", m.neighbours, m.known_peers, ids.len()));
                    }
                    let _ = own;
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            viol!("adding and removing members panicked");
        }
    }
    if let Some(e) = events.lock().unwrap().first() {
        viol!("{e}");
    }
    // one after the other again
    for round in 0..2 {
        for (i, k) in keys.iter().enumerate() {
            let w = recs[i].owned();
            match round {
                0 => {
                    ov.o[0].add_public_peer(&ov.s.node, addr, w.as_equivalent_ref()).ok();
                    check!(ov.o[0].is_active_public_peer(&short(&k.id)) && ov.o[0].is_known_peer(&short(&k.id)), "a member that was added is not active");
                }
                _ => {
                    ov.o[0].remove_public_peer(&short(&k.id));
                    check!(!ov.o[0].is_active_public_peer(&short(&k.id)), "a member that was removed is active");
                }
            }
        }
    }
    Ok(c.threads > 2)
}

// ------------------------------------------------------------------ R01: two nodes, many transfers on several threads

#[derive(Clone, Debug)]
pub struct Many {
    seed: u64,
    tasks: Vec<(bool, u8)>,
    len: u32,
    compress: bool,
}
pub fn many_gen() -> impl Strategy<Value = Many> {
    (1u64..1_000_000, prop::collection::vec((any::<bool>(), 1u8..8), 2..7), prop_oneof![2 => 20u32..3000, 1 => 1000u32..40_000], any::<bool>())
        .prop_map(|(seed, tasks, len, compress)| Many { seed, tasks, len, compress })
}
pub async fn many(c: &Many) -> CaseResult {
    use everscale_network::rldp;
    let mut s = vec![];
    for i in 0..2u64 {
        let (node, addr) = new_node(&[Key::nth(c.seed * 10 + i)], LOCAL, opts(), None)?;
        let events = Arc::new(Mutex::new(vec![]));
        let r = Recorder::new(&events, 0, default_reply);
        let rl = rldp::Node::new(node.clone(), vec![r], rldp::NodeOptions { force_compression: c.compress, ..Default::default() })
            .map_err(|e| Fail::Harness(e.to_string()))?;
        node.start().map_err(|e| Fail::Harness(e.to_string()))?;
        s.push((Sut { node, keys: vec![Key::nth(c.seed * 10 + i)], addr, events }, rl));
    }
    for i in 0..2 {
        let (k, a) = (s[1 - i].0.keys[0].clone(), s[1 - i].0.addr);
        s[i].0.add_peer(&k, a);
    }
    let mut hs = vec![];
    let mut asked: [BTreeSet<Vec<u8>>; 2] = Default::default();
    for (t, (side, n)) in c.tasks.iter().enumerate() {
        let side = *side as usize;
        let (rl, me, you) = (s[side].1.clone(), s[side].0.id(), s[1 - side].0.id());
        let mut r = c.seed * 100 + t as u64;
        let list: Vec<Vec<u8>> = (0..*n).map(|i| payload(c.seed * 10_000 + t as u64 * 100 + i as u64, 8 + rnd(&mut r) as usize % c.len as usize)).collect();
        asked[1 - side].extend(list.iter().cloned());
        hs.push(tokio::spawn(async move {
            let mut none = 0;
            for d in list {
                match rl.query(&me, &you, d.clone(), None).await {
                    Ok((Some(a), _)) if a == answer_for(&d) => {}
                    Ok((Some(a), _)) => return Err(format!("a query of {} bytes is answered with {} bytes that are not its answer", d.len(), a.len())),
                    Ok((None, _)) => none += 1,
                    Err(e) => return Err(format!("a query failed: {e}")),
                }
            }
            Ok(none)
        }));
    }
    let mut none = 0;
    for h in hs {
        match h.await.map_err(|e| Fail::Harness(e.to_string()))? {
            Ok(n) => none += n,
            Err(e) => viol!("{e}"),
        }
    }
    for i in 0..2 {
        for e in s[i].0.take() {
            check!(asked[i].remove(&e.data), "a query of {} bytes is handled that was not sent, or for the second time", e.data.len());
        }
    }
    check!(none == 0, "{none} queries stay without an answer although hardly anything is lost");
    Ok(c.tasks.iter().any(|t| t.0) && c.tasks.iter().any(|t| !t.0))
}
