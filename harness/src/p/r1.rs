//! R01, R02
use crate::fx::*;
use crate::rl::*;
use everscale_network::{adnl, rldp, QuerySubscriber};
use proptest::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
use vcore::alloc;

/// A started node with RLDP and one recording query handler behind it
pub struct RlSut {
    pub s: Sut,
    pub r: Arc<rldp::Node>,
}

impl RlSut {
    pub fn with(key: &Key, ip: Ipv4Addr, o: adnl::NodeOptions, ro: rldp::NodeOptions, f: impl Fn(&Ev) -> Reply + Send + Sync + 'static) -> Result<RlSut, Fail> {
        let (node, addr) = new_node(std::slice::from_ref(key), ip, o, None)?;
        let events = Arc::new(Mutex::new(vec![]));
        let rec: Arc<dyn QuerySubscriber> = Recorder::new(&events, 1, f);
        let r = rldp::Node::new(node.clone(), vec![rec], ro).map_err(|e| Fail::Harness(format!("rldp: {e}")))?;
        let plain = Recorder::new(&events, 0, default_reply);
        node.add_query_subscriber(plain).unwrap();
        node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
        Ok(RlSut { s: Sut { node, keys: vec![key.clone()], addr, events }, r })
    }
    pub fn new(key: &Key, ro: rldp::NodeOptions) -> Result<RlSut, Fail> {
        Self::with(key, LOCAL, opts(), ro, sized_reply)
    }
    /// What the handler behind RLDP has seen
    pub fn take(&self) -> Vec<Ev> {
        self.s.take().into_iter().filter(|e| e.sub == 1).collect()
    }
    pub fn seen(&self) -> usize {
        self.s.events.lock().unwrap().iter().filter(|e| e.sub == 1).count()
    }
    pub fn spawn(&self, to: &B32, data: Vec<u8>, rtt: Option<u64>) -> Asked {
        let (r, l, p) = (self.r.clone(), self.s.id(), short(to));
        let slot = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let h = tokio::spawn(async move {
            let x = r.query(&l, &p, data, rtt).await;
            *s2.lock().unwrap() = Some((clock::ms(), x.map_err(|e| e.to_string())));
        });
        Asked { slot, h, at: clock::ms() }
    }
    pub fn table(&self) -> usize {
        self.r.metrics().transfers_cache_len
    }
}

type Outcome = (u64, Result<(Option<Vec<u8>>, u64), String>);
pub struct Asked {
    pub slot: Arc<Mutex<Option<Outcome>>>,
    pub h: tokio::task::JoinHandle<()>,
    pub at: u64,
}
impl Asked {
    pub fn done(&self) -> bool {
        self.slot.lock().unwrap().is_some()
    }
    pub fn get(&self) -> Option<Outcome> {
        self.slot.lock().unwrap().clone()
    }
}

/// A query of `len` bytes (at least 16) that asks for an answer of `ans` bytes
pub fn sized_query(tag: u64, len: usize, ans: usize) -> Vec<u8> {
    let mut d = payload(tag ^ 0x5151, len.max(16));
    d[4..8].copy_from_slice(&(ans as u32).to_le_bytes());
    d[8..16].copy_from_slice(&tag.to_le_bytes());
    d
}
/// The answer to such a query
pub fn sized_answer(q: &[u8]) -> Vec<u8> {
    if q.len() < 16 {
        return answer_for(q);
    }
    let n = u32::from_le_bytes(q[4..8].try_into().unwrap()) as usize;
    if n > 1 << 26 {
        return answer_for(q);
    }
    let mut a = payload(u64::from_le_bytes(sha256(q)[..8].try_into().unwrap()), n);
    if a.last() == Some(&0x80) {
        *a.last_mut().unwrap() = 0x81;
    }
    a
}
pub fn sized_reply(ev: &Ev) -> Reply {
    Reply::Answer(sized_answer(&ev.data))
}

// ------------------------------------------------------------------ R01

#[derive(Clone, Debug)]
struct Ask {
    from_b: bool,
    len: usize,
    ans: usize,
    rtt: Option<u64>,
    at: u32,
}

#[derive(Clone, Debug)]
struct Two {
    seed: u64,
    net: NetCfg,
    asks: Vec<Ask>,
    min_ms: u64,
    max_ms: u64,
    wave: u32,
    history: bool,
}

fn len_small() -> impl Strategy<Value = usize> {
    prop_oneof![4 => 0usize..900, 3 => 600usize..9000, 1 => 9000usize..60_000]
}

fn two(big: bool) -> impl Strategy<Value = Two> {
    let len = move || if big { prop_oneof![2 => 100_000usize..1_000_000, 2 => 1_900_000usize..2_100_000, 1 => 3_900_000usize..4_500_000, 3 => 10usize..1000].boxed() } else { len_small().boxed() };
    let net = (
        any::<u64>(),
        prop_oneof![3 => Just((0u16, 0u16)), 3 => (0u16..300, 0u16..300), 2 => (0u16..900, 0u16..900)],
        prop_oneof![2 => Just(0u16), 1 => 0u16..500],
        prop_oneof![3 => Just(0u32), 2 => 0u32..120, 1 => 0u32..2500],
        prop_oneof![2 => Just(0u32), 2 => 0u32..40, 1 => 0u32..800],
        prop::collection::vec((0u32..3000, prop_oneof![2 => 1u32..500, 1 => 500u32..6000], prop::option::of(0u8..2)), 0..2),
        any::<bool>(),
    )
        .prop_map(|(seed, l, dup, delay, jitter, blackout, clean)| NetCfg {
            seed,
            loss: vec![l.0, l.1],
            dup,
            delay,
            jitter,
            blackout: if clean { vec![] } else { blackout },
        });
    let ask = (any::<bool>(), len(), len(), prop::option::of(prop_oneof![2 => 0u64..2000, 1 => 0u64..30_000]), prop_oneof![2 => Just(0u32), 1 => 0u32..2000])
        .prop_map(|(from_b, len, ans, rtt, at)| Ask { from_b, len, ans, rtt, at });
    (any::<u32>(), net, prop::collection::vec(ask, 1..if big { 2 } else { 6 }), 100u64..900, 2000u64..10_000, prop_oneof![1 => 1u32..4, 3 => Just(10u32), 1 => 10u32..40], any::<bool>())
        .prop_map(|(seed, net, asks, min_ms, max_ms, wave, history)| Two { seed: seed as u64, net, asks, min_ms, max_ms, wave, history })
}

async fn r01_two(c: &Two) -> CaseResult {
    let mut o = opts();
    o.packet_history_enabled = c.history;
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: c.max_ms, query_wave_len: c.wave, ..Default::default() };
    let a = RlSut::with(&Key::nth(c.seed * 2), ip(0), o, ro, sized_reply)?;
    let b = RlSut::with(&Key::nth(c.seed * 2 + 1), ip(1), o, ro, sized_reply)?;
    need!(a.s.add_peer(b.s.key(), b.s.addr) && b.s.add_peer(a.s.key(), a.s.addr), "add_peer");
    let mut w = World::new(&[a.s.addr, b.s.addr], c.net.clone())?;
    let mut asks: Vec<(usize, &Ask)> = c.asks.iter().enumerate().collect();
    asks.sort_by_key(|x| x.1.at);
    let mut open: Vec<(usize, Vec<u8>, Asked)> = vec![];
    let t0 = clock::ms();
    for (i, k) in asks {
        w.run((t0 + k.at as u64).saturating_sub(clock::ms()), 5, || false).await;
        let (x, y) = if k.from_b { (&b, &a) } else { (&a, &b) };
        let q = sized_query(c.seed * 16 + i as u64, k.len, k.ans);
        let h = x.spawn(&y.s.keys[0].id, q.clone(), k.rtt);
        open.push((i, q, h));
    }
    let symbols = c.asks.iter().map(|k| k.len.max(k.ans) / 768 + 10).max().unwrap_or(0) as u64;
    // generous: every phase may be prolonged in proportion to the symbols that got through
    let cap = 20_000 + 4 * c.max_ms * (2 + symbols / 50) + c.net.blackout.iter().map(|b| 2 * b.1 as u64).sum::<u64>();
    let done = w.run(cap, 10, || open.iter().all(|x| x.2.done())).await;
    check!(done, "a query has not been resolved after {cap} ms (timeouts {} .. {} ms)", c.min_ms, c.max_ms);
    // what an unlucky network cannot excuse
    let latency = c.net.delay + c.net.jitter;
    let good = c.net.blackout.is_empty() && c.net.loss.iter().all(|l| *l <= 250) && (latency as u64) * 2 + 60 < c.min_ms && c.wave >= 4;
    // transfers longer than the completion time are given up by design
    let per_ms = c.wave as u64 * 768 / 10;
    let mut nt = w.lost > 0 || w.n > 40;
    for (i, q, h) in &open {
        let k = &c.asks[*i];
        let (t, r) = h.get().unwrap();
        let took = t - h.at;
        let parts = (k.len.max(k.ans) / 2_000_000 + 1) as u64;
        let needs = (k.len.max(k.ans) as u64 * 2 / per_ms) + parts * (4 * latency as u64 + 200);
        match r {
            Ok((Some(x), _)) => {
                nt |= k.len > 5000;
                check!(x == sized_answer(q), "query {i} of {} bytes resolved with {} bytes that are not its answer ({} bytes)", q.len(), x.len(), k.ans)
            }
            Ok((None, _)) => {
                if good && needs < 2 * c.max_ms {
                    viol!("query {i} ({} bytes, answer {} bytes) was lost after {took} ms although only {} of {} datagrams were lost and the delay is at most {latency} ms", q.len(), k.ans, w.lost, w.lost + w.passed);
                }
                let first = match k.rtt {
                    Some(r) if r > c.max_ms => c.max_ms,
                    Some(r) => r.max(c.min_ms),
                    None => c.max_ms,
                };
                check!(took >= first.min(c.min_ms), "query {i} was given up after {took} ms");
            }
            Err(e) => viol!("query {i} failed: {e}"),
        }
    }
    for (n, name) in [(&a, "first"), (&b, "second")] {
        let ev = n.take();
        let other = if name == "first" { b.s.keys[0].id } else { a.s.keys[0].id };
        let mut seen = HashSet::new();
        for e in ev {
            let Some((_, _, h)) = open.iter().find(|x| x.1 == e.data) else { viol!("the {name} node's handler saw {} bytes nobody sent", e.data.len()) };
            check!(e.peer == other && e.local == n.s.keys[0].id, "a query is attributed to the wrong node");
            check!(seen.insert(e.data.clone()), "a query was delivered to the handler twice");
            let _ = h;
        }
        for (i, q, h) in &open {
            let asked_me = c.asks[*i].from_b == (name == "first");
            if asked_me && matches!(h.get(), Some((_, Ok((Some(_), _))))) {
                check!(seen.contains(q), "a query was answered that the handler has not seen");
            }
        }
    }
    Ok(nt)
}

/// No reply at all: the query ends exactly when configured
#[derive(Clone, Debug)]
struct Silent {
    seed: u64,
    len: usize,
    rtt: Option<u64>,
    min_ms: u64,
    max_ms: u64,
    interval: u64,
}
async fn r01_silent(c: &Silent) -> CaseResult {
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: c.max_ms.max(c.min_ms), query_wave_interval_ms: c.interval, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    a.s.add_peer(p.key(), p.addr());
    let h = a.spawn(&p.key().id, sized_query(1, c.len, 5), c.rtt);
    let max = c.max_ms.max(c.min_ms);
    let t = match c.rtt {
        None => max,
        Some(r) => r.max(c.min_ms).min(max),
    };
    settle().await;
    let mut n = 0;
    // in small steps only around the end
    let near = t.saturating_sub(2 * c.interval + 5);
    while clock::ms() - h.at < t + 3 * c.interval + 20 {
        let left = near.saturating_sub(clock::ms() - h.at);
        clock::advance_ms(left.min(c.interval).max(1));
        yields(5).await;
        n += p.poll_rl().len();
        if h.done() {
            break;
        }
    }
    let Some((at, r)) = h.get() else { viol!("a query without any reply has not ended {} ms after its timeout of {t} ms", 3 * c.interval + 20) };
    check!(matches!(r, Ok((None, _))), "a query without any reply ended with {:?}", r.map(|x| x.0.map(|y| y.len())));
    let took = at - h.at;
    check!(took >= t, "a query without any reply was given up after {took} ms, its timeout is {t} ms");
    check!(n > 0, "nothing was sent");
    let Ok((_, rtt)) = r else { unreachable!() };
    check!(rtt <= max, "the reported roundtrip {rtt} exceeds the maximum {max}");
    Ok(t > 100)
}

/// The other side falls silent in the middle of a transfer
#[derive(Clone, Debug)]
struct Later {
    seed: u64,
    len: usize,
    min_ms: u64,
    /// in addition to the minimum
    more_ms: u64,
    rtt: Option<u64>,
    /// so many symbols of the last part are seen, every tenth is confirmed
    symbols: u32,
    confirm: bool,
    lag: u64,
}
fn later(big: bool) -> impl Strategy<Value = Later> {
    let len = if big { prop_oneof![Just(2_000_001usize), 2_000_002usize..2_400_000] .boxed() } else { prop_oneof![4usize..3000, 3000usize..300_000].boxed() };
    (any::<u32>(), len, 20u64..600, prop_oneof![2 => 0u64..100, 1 => 0u64..3000], prop::option::of(0u64..2000), prop_oneof![1 => Just(0u32), 2 => 0u32..100], any::<bool>(), 0u64..20)
        .prop_map(|(seed, len, min_ms, more_ms, rtt, symbols, confirm, lag)| Later { seed: seed as u64, len, min_ms, more_ms, rtt, symbols, confirm, lag })
}
async fn r01_later(c: &Later) -> CaseResult {
    let max_ms = c.min_ms + c.more_ms;
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: max_ms, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    a.s.add_peer(p.key(), p.addr());
    let h = a.spawn(&p.key().id, sized_query(c.seed, c.len, 5), c.rtt);
    // when something was heard last, and the last symbol confirmed by then
    let (mut heard, mut upto) = (clock::ms(), 0);
    let mut completed = 0;
    let (mut n, mut current) = (0, 0);
    let mut late: Vec<(u64, Rl)> = vec![];
    loop {
        yields(8).await;
        for m in p.poll_rl() {
            let Rl::Part { id, packet_count, part, total, seqno, .. } = m else { viol!("the asker sends {m:?}") };
            if part != current {
                (n, current) = (0, part);
            }
            n += 1;
            let last = (part as u64 + 1) * 2_000_000 >= total;
            if !last && n == packet_count {
                late.push((clock::ms() + c.lag, Rl::Complete { id, part }));
            } else if c.confirm && n % 10 == 0 && (!last || n <= c.symbols) {
                late.push((clock::ms() + c.lag, Rl::Confirm { id, part, seqno }));
            }
        }
        while late.first().map_or(false, |x| x.0 <= clock::ms()) {
            let (_, m) = late.remove(0);
            heard = clock::ms();
            match m {
                Rl::Complete { part, .. } => {
                    upto = 0;
                    completed = part + 1;
                }
                Rl::Confirm { part, seqno, .. } if part == completed => upto = upto.max(seqno),
                _ => {}
            }
            p.rl(&m);
        }
        yields(8).await;
        if h.done() {
            break;
        }
        // every new confirmation starts the time again, the first wait may be as long as the maximum
        let most = max_ms + max_ms * upto as u64 / 100 + 30;
        check!(clock::ms() <= heard + most || !late.is_empty(), "a query has not ended {} ms after the last sign of the other side ({} symbols of part {current} were confirmed, timeouts {} .. {max_ms} ms)", clock::ms() - heard, upto, c.min_ms);
        clock::advance_ms(if current == 0 && c.len > 2_000_000 { 5 } else { 2 });
    }
    let Some((at, r)) = h.get() else { unreachable!() };
    check!(matches!(r, Ok((None, _))), "a query without an answer ended with {:?}", r.map(|x| x.0.map(|y| y.len())));
    check!(at + 10 >= heard + c.min_ms, "a query was given up {} ms after the last sign of the other side, the shortest timeout is {} ms", at - heard, c.min_ms);
    Ok(completed > 0 || upto > 0)
}

/// A reference peer answers: every symbol the node emits is checked, the answer has any legal shape
#[derive(Clone, Debug)]
struct RefResp {
    seed: u64,
    len: usize,
    ans: usize,
    /// share of the node's datagrams the reference side does not see (per mille)
    loss: u16,
    /// the reference side confirms nothing before that many datagrams
    withhold: u32,
    delay: u64,
    slices: Vec<usize>,
    symbol: u32,
    /// of every part: first symbol to send and stride
    order: Vec<(u16, u16)>,
    dup: bool,
    /// how many acknowledgements of each finished part are lost
    lost_acks: Vec<u8>,
    early: bool,
    pace: u8,
    compressed: bool,
}

fn acks_lost() -> impl Strategy<Value = Vec<u8>> {
    prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => 1u8..4], 0..5)
}

fn ref_resp(big: bool) -> impl Strategy<Value = RefResp> {
    let len = if big { prop_oneof![3 => 700_000usize..2_000_000, 2 => 2_000_001usize..2_600_000].boxed() } else { len_small().boxed() };
    (
        (any::<u32>(), len, len_small(), prop_oneof![1 => Just(0u16), 2 => 0u16..400]),
        (prop_oneof![2 => Just(0u32), 2 => 0u32..40, if big { 4 } else { 1 } => 900u32..2000], prop_oneof![2 => Just(0u64), 1 => 0u64..300]),
        (prop::collection::vec(1usize..3000, 0..5), prop_oneof![4 => Just(768u32), 1 => (8u32..=128).prop_map(|x| x * 8)]),
        prop::collection::vec((any::<u16>(), 0u16..7), 1..4),
        (any::<bool>(), any::<bool>(), 1u8..20, prop::bool::weighted(0.2), acks_lost()),
    )
        .prop_map(|((seed, len, ans, loss), (withhold, delay), (slices, symbol), order, (dup, early, pace, compressed, lost_acks))| RefResp {
            seed: seed as u64, len, ans, loss, withhold, delay, slices, symbol, order, dup, lost_acks, early, pace, compressed,
        })
}

fn lost_acks(v: &[u8], k: usize) -> usize {
    v.get(k).copied().unwrap_or(0) as usize
}
/// The symbols the reference side sends for a part, in order
fn plan(s: &Symbols, k: usize, order: &[(u16, u16)], dup: bool) -> Vec<u32> {
    let (first, stride) = order[k % order.len()];
    let n = s.k();
    let mut v = vec![];
    // more than enough: K + 12 distinct symbols starting anywhere (source and repair)
    let start = first as u32 % (n + 20);
    for i in 0..(n + 18) {
        v.push(start + i);
    }
    match stride {
        0 => {}
        1 => v.reverse(),
        s => {
            let mut o = vec![];
            for r in 0..s as usize {
                o.extend(v.iter().skip(r).step_by(s as usize));
            }
            v = o;
        }
    }
    if dup {
        v = v.iter().flat_map(|x| [*x, *x]).collect();
    }
    v
}

async fn r01_ref_resp(c: &RefResp) -> CaseResult {
    let ro = rldp::NodeOptions::default();
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let q = sized_query(c.seed, c.len, c.ans);
    let h = a.spawn(&p.key().id, q.clone(), None);
    let t_query = clock::unix();
    let mut inc = In::default();
    let mut tid = None;
    let mut ready: Vec<(u64, Rl)> = vec![];
    let mut seen = 0u32;
    let mut cache: HashMap<u32, Symbols> = HashMap::new();
    let mut wrapped: Option<Vec<u8>> = None;
    let mut pending: Vec<(u32, u32, Vec<u8>)> = vec![];
    let end = clock::ms() + 60_000;
    while !inc.done && clock::ms() < end {
        yields(6).await;
        let now = clock::ms();
        for m in p.poll_rl() {
            let Rl::Part { id, total_len, packet_len, packet_count, part, total, seqno, data } = &m else { continue };
            check!(*tid.get_or_insert(*id) == *id, "one query uses several transfer ids");
            check!(*packet_len == SYMBOL && data.len() == SYMBOL as usize, "symbols of {packet_len} / {} bytes", data.len());
            let want_len = (*total as usize - *part as usize * 2_000_000).min(2_000_000);
            check!(*total_len as usize == want_len, "part {part} of a transfer of {total} bytes announces {total_len} bytes");
            check!(*packet_count as usize == want_len.div_ceil(768), "part of {want_len} bytes announces {packet_count} symbols");
            seen += 1;
            pending.push((*part, *seqno, data.clone()));
            let x = sha256(&[&c.seed.to_le_bytes()[..], &seen.to_le_bytes()[..]].concat());
            if u16::from_le_bytes([x[0], x[1]]) % 1000 < c.loss {
                continue;
            }
            let r = inc.take(&m);
            match r {
                Some(Rl::Confirm { .. }) if seen < c.withhold => {}
                Some(r) => ready.push((now + c.delay, r)),
                None => {}
            }
        }
        let now = clock::ms();
        let due: Vec<Rl> = ready.iter().filter(|x| x.0 <= now).map(|x| x.1.clone()).collect();
        ready.retain(|x| x.0 > now);
        for r in due {
            p.rl(&r);
        }
        if inc.done {
            wrapped = Some(inc.data.clone());
            break;
        }
        if h.done() {
            break;
        }
        clock::advance_ms(5);
    }
    let Some(whole) = wrapped else {
        viol!("a query of {} bytes did not get through ({seen} datagrams seen, {}‰ lost, nothing confirmed before {}, outcome {:?})", q.len(), c.loss, c.withhold, h.get().map(|x| x.1.map(|y| y.0.map(|z| z.len()))))
    };
    // every symbol that was emitted is the symbol it claims to be
    for (part, esi, data) in pending {
        let s = cache.entry(part).or_insert_with(|| {
            let at = part as usize * 2_000_000;
            Symbols::new(&whole[at..whole.len().min(at + 2_000_000)], SYMBOL)
        });
        check!(s.get(esi) == data, "the node emitted wrong contents for symbol {esi} of part {part} ({} source symbols)", s.k());
    }
    let Some((qid, max, timeout, data)) = parse_query(&whole) else { viol!("the transfer is not an RLDP query") };
    check!(data == q, "the query arrived altered ({} of {} bytes)", data.len(), q.len());
    check!(max == ro.max_answer_size as u64, "the query announces a limit of {max}");
    check!(timeout >= t_query && timeout <= clock::unix() + 10, "the query announces the timeout {timeout}");
    // the answer
    let ans = sized_answer(&q);
    let sent = if c.compressed { compress(&ans) } else { ans.clone() };
    let out = Out::new(neg(&tid.unwrap()), &wrap_answer(&qid, &sent), &c.slices, c.symbol);
    let mut n = 0u32;
    let mut acked: HashMap<u32, usize> = HashMap::new();
    let mut note = |p: &mut RefPeer, k: usize| {
        for m in p.poll_rl() {
            if let Rl::Complete { part, .. } = m {
                *acked.entry(part).or_default() += 1;
            }
        }
        // (at the end of the transfer the node may take a moment to answer further symbols)
        let lost = if c.early || k + 1 == out.parts.len() { 0 } else { lost_acks(&c.lost_acks, k) };
        acked.get(&(k as u32)).copied().unwrap_or(0) > lost
    };
    'parts: for (k, s) in out.parts.iter().enumerate() {
        for esi in plan(s, k, &c.order, c.dup) {
            if c.early && k + 1 < out.parts.len() && esi % 3 == 0 {
                // a part that is not due yet is ignored
                p.rl(&out.msg(k as u32 + 1, esi));
            }
            p.rl(&out.msg(k as u32, esi));
            n += 1;
            if n % c.pace as u32 == 0 {
                clock::advance_ms(1);
                settle().await;
            }
            if note(&mut p, k) {
                continue 'parts;
            }
        }
        settle().await;
        check!(note(&mut p, k), "part {k} of an answer in {} parts was not acknowledged {} times after {} symbols of {}", out.parts.len(), lost_acks(&c.lost_acks, k) + 1, s.k() + 18, s.k());
    }
    for _ in 0..10 {
        advance(10, 5).await;
    }
    match h.get() {
        Some((_, Ok((Some(x), _)))) => check!(x == ans, "the query resolved with {} bytes that are not its answer", x.len()),
        o => viol!("a completely acknowledged answer was not handed to the caller: {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
    }
    Ok(out.parts.len() > 1 || seen > 10 || c.ans > 2000)
}

/// A reference peer asks
#[derive(Clone, Debug)]
struct RefAsk {
    seed: u64,
    len: usize,
    ans: usize,
    slices: Vec<usize>,
    symbol: u32,
    order: Vec<(u16, u16)>,
    dup: bool,
    /// how many acknowledgements of each finished part are lost
    lost_acks: Vec<u8>,
    /// the whole query is sent again that many ms after it was complete
    again: Vec<u16>,
    loss: u16,
    /// order in which Confirm is sent late
    slow: u64,
}

async fn r01_ref_ask(c: &RefAsk) -> CaseResult {
    let a = RlSut::new(&Key::nth(c.seed), rldp::NodeOptions::default())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let q = sized_query(c.seed, c.len, c.ans);
    let tid = sha256(&c.seed.to_le_bytes());
    let qid = sha256(&tid);
    let out = Out::new(tid, &wrap_query(&qid, 10_000_000, clock::unix() + 10, &q), &c.slices, c.symbol);
    let mut log = vec![];
    for (k, s) in out.parts.iter().enumerate() {
        let pl = plan(s, k, &c.order, c.dup);
        let mut done = false;
        let mut acks = 0;
        for (i, esi) in pl.iter().enumerate() {
            if k + 1 == out.parts.len() && a.seen() > 0 {
                break;
            }
            let m = out.msg(k as u32, *esi);
            log.push(m.clone());
            p.rl(&m);
            if i % 8 == 7 || i + 1 == pl.len() || i + 1 >= s.k() as usize {
                settle().await;
                for m in p.poll_rl() {
                    check!(*m.id() == tid || *m.id() == neg(&tid), "a reply for another transfer");
                    acks += matches!(m, Rl::Complete { part, .. } if part == k as u32) as usize;
                    done |= acks > lost_acks(&c.lost_acks, k);
                    if matches!(m, Rl::Part { .. }) {
                        done = true;
                    }
                }
                if done {
                    break;
                }
            }
        }
        check!(done || k + 1 == out.parts.len(), "part {k} was not acknowledged {} times after {} symbols of {}", lost_acks(&c.lost_acks, k) + 1, pl.len(), s.k());
    }
    check!(until(|| a.seen() > 0).await, "a query of {} bytes in {} parts was not delivered", q.len(), out.parts.len());
    // the answer comes back; the query is repeated meanwhile
    let mut inc = In::default();
    let t0 = clock::ms();
    let mut again: Vec<u64> = c.again.iter().map(|x| t0 + *x as u64).collect();
    let mut n = 0u32;
    let mut held: Vec<(u64, Rl)> = vec![];
    while clock::ms() < t0 + 19_000 && !(inc.done && again.is_empty()) {
        settle().await;
        for m in p.poll_rl() {
            if *m.id() == neg(&tid) {
                if let Rl::Part { seqno, .. } = &m {
                    n += 1;
                    let x = sha256(&[&c.seed.to_le_bytes()[..], &n.to_le_bytes()[..], &seqno.to_le_bytes()[..]].concat());
                    if u16::from_le_bytes([x[0], x[1]]) % 1000 < c.loss {
                        continue;
                    }
                    if let Some(r) = inc.take(&m) {
                        held.push((clock::ms() + c.slow, r));
                    }
                }
            }
        }
        let now = clock::ms();
        for (_, r) in held.iter().filter(|x| x.0 <= now) {
            p.rl(r);
        }
        held.retain(|x| x.0 > now);
        if let Some(i) = again.iter().position(|x| *x <= now) {
            again.remove(i);
            for m in &log {
                p.rl(m);
            }
        }
        clock::advance_ms(if inc.done { 200 } else { 10 });
    }
    check!(inc.done, "the answer of {} bytes did not arrive although {} of its datagrams were seen", c.ans, n);
    let Some((id, d)) = parse_answer(&inc.data) else { viol!("the answer transfer is not an RLDP answer") };
    check!(id == qid, "the answer names another query");
    check!(d == sized_answer(&q), "the answer arrived altered");
    let ev = a.take();
    check!(ev.len() == 1, "the query was delivered {} times", ev.len());
    check!(ev[0].data == q && ev[0].peer == p.key().id && ev[0].local == a.s.keys[0].id, "the handler saw other bytes or identities");
    check!(ev[0].constructor == u32::from_le_bytes(q[..4].try_into().unwrap()), "constructor");
    Ok(out.parts.len() > 1 || !c.again.is_empty() || c.loss > 0)
}

fn ref_ask() -> impl Strategy<Value = RefAsk> {
    (
        (any::<u32>(), len_small(), len_small()),
        (prop::collection::vec(1usize..3000, 0..5), prop_oneof![4 => Just(768u32), 1 => (8u32..=128).prop_map(|x| x * 8)]),
        prop::collection::vec((any::<u16>(), 0u16..7), 1..4),
        (any::<bool>(), prop::collection::vec(0u16..15_000, 0..4), prop_oneof![Just(0u16), 0u16..400], prop_oneof![Just(0u64), 0u64..200], acks_lost()),
    )
        .prop_map(|((seed, len, ans), (slices, symbol), order, (dup, again, loss, slow, lost_acks))| RefAsk { seed: seed as u64, len, ans, slices, symbol, order, dup, lost_acks, again, loss, slow })
}

/// Symbols of a finished transfer are repeated: the sender must learn that it is finished
#[derive(Clone, Debug)]
struct Repeats {
    seed: u64,
    len: usize,
    ans: usize,
    slices: Vec<usize>,
    /// the node asks and the repeated symbols are those of the answer
    asks: bool,
    /// how long the handler works
    works: u64,
    /// time of the repetition after the transfer was complete, part, symbol
    again: Vec<(u32, u8, u32)>,
    min_ms: u64,
    max_ms: u64,
}
fn repeats() -> impl Strategy<Value = Repeats> {
    (
        (any::<u32>(), len_small(), len_small(), prop::collection::vec(1usize..3000, 0..4)),
        (any::<bool>(), prop_oneof![1 => Just(0u64), 2 => 1u64..2000, 1 => 2000u64..25_000]),
        prop::collection::vec((0u32..1000, any::<u8>(), prop_oneof![3 => 0u32..40, 1 => 0u32..100_000]), 1..8),
        (50u64..800, 0u64..9000),
    )
        .prop_map(|((seed, len, ans, slices), (asks, works), again, (min_ms, more))| Repeats { seed: seed as u64, len, ans, slices, asks, works, again, min_ms, max_ms: min_ms + more })
}

/// A handler that needs its time
struct Busy(Arc<Recorder>, u64, Arc<Mutex<bool>>);
#[async_trait::async_trait]
impl QuerySubscriber for Busy {
    async fn try_consume_query<'a>(&self, ctx: everscale_network::SubscriberContext<'a>, constructor: u32, query: std::borrow::Cow<'a, [u8]>) -> anyhow::Result<everscale_network::QueryConsumingResult<'a>> {
        let r = self.0.try_consume_query(ctx, constructor, query).await;
        if self.1 > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(self.1)).await;
        }
        *self.2.lock().unwrap() = true;
        r
    }
}

async fn r01_repeats(c: &Repeats) -> CaseResult {
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: c.max_ms, ..Default::default() };
    let key = Key::nth(c.seed);
    let (node, addr) = new_node(std::slice::from_ref(&key), LOCAL, opts(), None)?;
    let events = Arc::new(Mutex::new(vec![]));
    let ready = Arc::new(Mutex::new(false));
    let busy: Arc<dyn QuerySubscriber> = Arc::new(Busy(Recorder::new(&events, 1, sized_reply), c.works, ready.clone()));
    let r = rldp::Node::new(node.clone(), vec![busy], ro).map_err(|e| Fail::Harness(format!("rldp: {e}")))?;
    node.add_query_subscriber(Recorder::new(&events, 0, default_reply)).unwrap();
    node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
    let a = RlSut { s: Sut { node, keys: vec![key], addr, events }, r };
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let q = sized_query(c.seed, c.len, c.ans);
    let mut asked = None;
    let mut inc = In::default();
    let (out, tid);
    if c.asks {
        let h = asked.insert(a.spawn(&p.key().id, q.clone(), None));
        let mut first = None;
        for _ in 0..4000 {
            settle().await;
            for m in p.poll_rl() {
                first.get_or_insert(*m.id());
                if let Some(r) = inc.take(&m) {
                    p.rl(&r);
                }
            }
            if inc.done {
                break;
            }
            advance(5, 5).await;
        }
        let (true, Some(t)) = (inc.done, first) else { viol!("a query of {} bytes did not get through", q.len()) };
        let Some((qid, ..)) = parse_query(&inc.data) else { viol!("the transfer is not an RLDP query") };
        tid = neg(&t);
        out = Out::new(tid, &wrap_answer(&qid, &sized_answer(&q)), &c.slices, SYMBOL);
        let _ = h;
    } else {
        tid = sha256(&c.seed.to_le_bytes());
        out = Out::new(tid, &wrap_query(&sha256(&tid), 10_000_000, clock::unix() + 10, &q), &c.slices, SYMBOL);
    }
    // the transfer, once and without losses
    let last = out.parts.len() - 1;
    'parts: for (k, s) in out.parts.iter().enumerate() {
        for esi in 0..s.k() + 18 {
            p.rl(&out.msg(k as u32, esi));
            if esi + 1 < s.k() {
                if esi % 32 == 31 {
                    settle().await;
                }
                continue;
            }
            settle().await;
            for m in p.poll_rl() {
                if matches!(m, Rl::Complete { id, part } if id == tid && part == k as u32) || *m.id() != tid {
                    continue 'parts;
                }
            }
        }
        viol!("part {k} of {} was not acknowledged", last + 1);
    }
    if let Some(h) = &asked {
        for _ in 0..40 {
            settle().await;
            if h.done() {
                break;
            }
            advance(10, 5).await;
        }
        match h.get() {
            Some((_, Ok((Some(x), _)))) => check!(x == sized_answer(&q), "the query resolved with bytes that are not its answer"),
            o => viol!("a completely acknowledged answer was not handed to the caller: {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
        }
    } else {
        check!(until(|| a.seen() > 0).await, "a query of {} bytes in {} parts was not delivered", q.len(), last + 1);
    }
    settle().await;
    // finished transfers are kept for twice the maximum timeout (and while the handler works)
    let t0 = clock::ms();
    let keep = 2 * c.max_ms + if asked.is_some() { 0 } else { c.works };
    let mut again: Vec<(u64, u32, u32)> = c.again.iter().map(|x| (t0 + x.0 as u64 * keep.saturating_sub(60) / 1000, x.1 as u32 % (last as u32 + 1), x.2)).collect();
    again.sort();
    let mut back = In::default();
    let mut working = 0;
    let end = t0 + keep + 2 * c.max_ms;
    loop {
        settle().await;
        for m in p.poll_rl() {
            if *m.id() == neg(&tid) && !c.asks {
                if let Some(r) = back.take(&m) {
                    p.rl(&r);
                }
            }
        }
        if let Some((t, part, esi)) = again.first().copied().filter(|x| x.0 <= clock::ms()) {
            again.remove(0);
            working += (!c.asks && !*ready.lock().unwrap()) as usize;
            p.rl(&out.msg(part, esi));
            let mut told = false;
            let ok = until(|| {
                for m in p.poll_rl() {
                    told |= matches!(m, Rl::Complete { id, part: x } if id == tid && x == part);
                    if *m.id() == neg(&tid) && !c.asks {
                        if let Some(r) = back.take(&m) {
                            p.rl(&r);
                        }
                    }
                }
                told
            })
            .await;
            check!(ok, "symbol {esi} of part {part} was repeated {} ms after the transfer was complete ({} ms are kept, the handler works {} ms) and was not answered with the completion of the part", t - t0, keep, if c.asks { 0 } else { c.works });
            continue;
        }
        if again.is_empty() && (c.asks || back.done) || clock::ms() > end {
            break;
        }
        let next = again.first().map_or(end + 1, |x| x.0);
        let step = if !c.asks && *ready.lock().unwrap() && !back.done { 5 } else { 50 };
        advance(next.saturating_sub(clock::ms()).clamp(1, step), 50).await;
    }
    if !c.asks {
        check!(back.done, "the answer of {} bytes did not arrive within {} ms", c.ans, clock::ms() - t0);
        let Some((_, d)) = parse_answer(&back.data) else { viol!("the answer transfer is not an RLDP answer") };
        check!(d == sized_answer(&q), "the answer arrived altered");
        check!(a.seen() == 1, "the query was delivered {} times", a.seen());
    }
    Ok(last > 0 || working > 0 || c.asks)
}

pub fn r01_run(c: &mut Ctx) {
    c.scenario("two_nodes", "datagrams were lost or a transfer of several symbols succeeded", 450, || two(false), |c| run(r01_two(c)));
    c.scenario("two_nodes_large", "datagrams were lost or a transfer of several symbols succeeded", 16, || two(true), |c| run(r01_two(c)));
    c.scenario("silence", "the timeout is longer than 100 ms", 150, || {
        (any::<u32>(), len_small(), prop::option::of(prop_oneof![3 => 0u64..3000, 1 => any::<u32>().prop_map(|x| x as u64)]), 1u64..1500, 1u64..3000, 1u64..50)
            .prop_map(|(seed, len, rtt, min_ms, max_ms, interval)| Silent { seed: seed as u64, len, rtt, min_ms, max_ms, interval })
    }, |c| run(r01_silent(c)));
    c.scenario("later_silence", "something was confirmed", 300, || later(false), |c| run(r01_later(c)));
    c.scenario("later_silence_large", "a part was completed", 40, || later(true), |c| run(r01_later(c)));
    c.scenario("reference_answers", "several parts, or more than 10 datagrams, or an answer of several symbols", 800, || ref_resp(false), |c| run(r01_ref_resp(c)));
    c.scenario("reference_answers_large", "more than 10 datagrams", 24, || ref_resp(true), |c| run(r01_ref_resp(c)));
    c.scenario("reference_asks", "several parts, a repeated query or losses", 800, ref_ask, |c| run(r01_ref_ask(c)));
    c.scenario("repeats", "several parts, a handler at work, or repeated symbols of an answer", 300, repeats, |c| run(r01_repeats(c)));
    c.scenario("threads", "both sides ask", 40, crate::p::t1::many_gen, |v| run_mt(crate::p::t1::many(v)));
}

// ------------------------------------------------------------------ R02

#[derive(Clone, Debug)]
struct Limit {
    seed: u64,
    /// configured maximum
    max: u32,
    /// size of the whole transfer (around the maximum)
    total: i64,
    /// what the parts claim: (announced total or none: true one, fec length of the part or none)
    announce: Option<u64>,
    /// announced total of later datagrams
    later: Option<u64>,
    fec_len: Option<u32>,
    slices: Vec<usize>,
    answer: bool,
    dup: bool,
}

fn limit() -> impl Strategy<Value = Limit> {
    let max = prop_oneof![2 => 100u32..2000, 2 => 2000u32..40_000, 1 => Just(0u32), 1 => Just(10_485_760u32)];
    let big = || prop_oneof![
        2 => prop::sample::select(vec![u64::MAX, 1 << 32, (1 << 32) + 100, 1 << 31, 1 << 40, u32::MAX as u64, (1 << 33) + 5]),
        2 => 0u64..5000,
        1 => any::<u64>()
    ];
    (
        any::<u32>(),
        max,
        prop_oneof![4 => -3i64..4, 3 => -2000i64..2000, 1 => 0i64..60_000],
        prop::option::weighted(0.25, big()),
        prop::option::weighted(0.15, big()),
        prop::option::weighted(0.25, prop_oneof![1 => (0u64..6000).prop_map(|x| x as u32), 2 => any::<u32>(), 1 => prop::sample::select(vec![u32::MAX, 1 << 31, 200_000_000, 40_000_000])]),
        prop::collection::vec(1usize..3000, 0..4),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(seed, max, d, announce, later, fec_len, slices, answer, dup)| {
            let base = if max == 10_485_760 { 3000 } else { max as i64 };
            Limit { seed: seed as u64, max, total: (base + d).max(if answer { 40 } else { 72 }), announce, later, fec_len, slices, answer, dup }
        })
}

async fn r02_limit(c: &Limit) -> CaseResult {
    let ro = rldp::NodeOptions { max_answer_size: c.max, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let total = c.total as usize;
    let mut h = None;
    let (whole, tid, want);
    if c.answer {
        let q = h.insert(a.spawn(&p.key().id, sized_query(c.seed, 50, 5), None));
        let _ = q;
        let mut first = None;
        until(|| {
            for m in p.poll_rl() {
                if first.is_none() {
                    first = Some(m);
                }
            }
            first.is_some()
        })
        .await;
        let Some(m @ Rl::Part { .. }) = first else { viol!("the node did not send its query") };
        let mut inc = In::default();
        inc.take(&m);
        need!(inc.done, "one symbol");
        let (qid, ..) = parse_query(&inc.data).ok_or(Fail::Harness("query".into()))?;
        // an answer wrapped into exactly `total` bytes is possible for multiples of four only
        let mut n = total.saturating_sub(40);
        while wrap_answer(&qid, &payload(c.seed, n)).len() > total.max(40) {
            n -= 1;
        }
        let mut d = payload(c.seed, n);
        if d.last() == Some(&0x80) {
            d[n - 1] = 0x81;
        }
        want = d.clone();
        whole = wrap_answer(&qid, &d);
        tid = neg(m.id());
    } else {
        let mut n = total.saturating_sub(52);
        while wrap_query(&[7; 32], 1000, 0, &payload(c.seed, n)).len() > total {
            n -= 1;
        }
        let n = n.max(16);
        let d = sized_query(c.seed, n, 5);
        want = d.clone();
        whole = wrap_query(&[7; 32], 1000, clock::unix() + 10, &d);
        tid = sha256(&c.seed.to_le_bytes());
    }
    let out = Out::new(tid, &whole, &c.slices, SYMBOL);
    let announce = c.announce.unwrap_or(whole.len() as u64);
    let base = alloc::live();
    let mut worst = 0i64;
    let mut k = 0;
    for (i, s) in out.parts.iter().enumerate() {
        for esi in 0..s.k() + 3 {
            let mut m = out.msg(i as u32, esi);
            if let Rl::Part { total, total_len, .. } = &mut m {
                *total = if k > 0 { c.later.unwrap_or(announce) } else { announce };
                if let Some(l) = c.fec_len {
                    *total_len = l;
                }
            }
            k += 1;
            alloc::mark();
            p.rl(&m);
            if c.dup {
                p.rl(&m);
            }
            settle().await;
            worst = worst.max(alloc::peak() - base);
        }
    }
    let room = 3 * c.max as i64 + 600_000 + 60 * k as i64;
    check!(worst < room, "a transfer announcing {announce} bytes (part of {:?} bytes) made the node reserve {worst} bytes; its maximum is {} bytes", c.fec_len, c.max);
    for _ in 0..4 {
        advance(10, 5).await;
    }
    let honest = c.announce.map(|x| x == whole.len() as u64).unwrap_or(true) && c.later.map(|x| x == announce).unwrap_or(true) && c.fec_len.map(|x| out.parts.iter().all(|s| s.len == x as usize)).unwrap_or(true);
    let small = whole.len() as u64 <= c.max as u64;
    let got: Option<Vec<u8>> = match &h {
        Some(h) => match h.get() {
            Some((_, Ok((Some(x), _)))) => Some(x),
            _ => None,
        },
        None => a.take().pop().map(|e| e.data),
    };
    if !small || announce > c.max as u64 {
        check!(got.is_none(), "a transfer of {} bytes (announced {announce}) was delivered, the maximum is {}", whole.len(), c.max);
    } else if honest {
        match got {
            None => viol!("a transfer of {} bytes in {} parts was not delivered, the maximum is {}", whole.len(), out.parts.len(), c.max),
            Some(x) => check!(x == want, "a transfer of {} bytes was delivered altered", whole.len()),
        }
    } else if let Some(x) = got {
        check!(x.len() <= c.max as usize, "{} bytes were delivered, the maximum is {}", x.len(), c.max);
    }
    // an honest transfer within the limit still works
    if c.max >= 1000 {
        let q = sized_query(c.seed + 9, 60, 30);
        let out = Out::new(sha256(&[9]), &wrap_query(&[8; 32], 1000, clock::unix() + 10, &q), &[], SYMBOL);
        p.rl(&out.msg(0, 0));
        check!(until(|| a.s.events.lock().unwrap().iter().any(|e| e.data == q)).await, "an ordinary query is not delivered any more");
    }
    Ok(c.total.abs_diff(c.max as i64) < 100 || !honest)
}

/// The limit announced by the asker
#[derive(Clone, Debug)]
struct Announced {
    seed: u64,
    limit: u64,
    ans: usize,
    force: bool,
    packed: bool,
}
async fn r02_announced(c: &Announced) -> CaseResult {
    let ro = rldp::NodeOptions { force_compression: c.force, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let q = sized_query(c.seed, 300, c.ans);
    let sent = if c.packed { compress(&q) } else { q.clone() };
    let tid = sha256(&c.seed.to_le_bytes());
    let out = Out::new(tid, &wrap_query(&[7; 32], c.limit, clock::unix() + 10, &sent), &[], SYMBOL);
    p.rl(&out.msg(0, 0));
    check!(until(|| a.seen() > 0).await, "the query was not delivered");
    let ans = sized_answer(&q);
    let wire = if (c.force || c.packed) && ans.len() > 256 { compress(&ans) } else { ans.clone() };
    let mut inc = In::default();
    for _ in 0..400 {
        settle().await;
        for m in p.poll_rl() {
            if *m.id() == neg(&tid) {
                if let Some(r) = inc.take(&m) {
                    p.rl(&r);
                }
            }
        }
        if inc.done {
            break;
        }
        clock::advance_ms(10);
        if clock::ms() > 1500 && inc.count == 0 {
            break;
        }
    }
    let fits = wire.len() as u64 <= c.limit;
    if !fits {
        check!(inc.count == 0, "an answer of {} bytes is sent although the asker's limit is {}", wire.len(), c.limit);
    } else {
        check!(inc.done, "an answer of {} bytes is not sent although the asker's limit is {}", wire.len(), c.limit);
        let Some((id, d)) = parse_answer(&inc.data) else { viol!("not an answer") };
        check!(id == [7; 32], "query id");
        check!(d.len() as u64 <= c.limit, "an answer of {} bytes is sent although the asker's limit is {}", d.len(), c.limit);
        check!(d == ans || decompress(&d).as_deref() == Some(&ans), "answer altered");
    }
    Ok(wire.len().abs_diff(c.limit as usize) < 10)
}

pub fn r02_run(c: &mut Ctx) {
    c.scenario("transfer_limit", "the size is near the maximum or the announcements disagree", 2500, limit, |c| run(r02_limit(c)));
    c.scenario("announced_limit", "the answer's size is near the announced limit", 1200, || {
        let near = (0usize..6000, -4i64..5).prop_map(|(ans, d)| ((ans as i64 + d).max(0) as u64, ans));
        let far = (prop_oneof![Just(0u64), Just(u64::MAX), Just(1u64 << 32), any::<u64>()], 0usize..3000);
        (any::<u32>(), prop_oneof![4 => near.boxed(), 1 => far.boxed()], any::<bool>(), any::<bool>())
            .prop_map(|(seed, (limit, ans), force, packed)| Announced { seed: seed as u64, limit, ans, force, packed })
    }, |c| run(r02_announced(c)));
}
