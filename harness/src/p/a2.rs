//! A03-A06
use crate::fx::*;
use proptest::prelude::*;
use std::collections::{BTreeMap, HashSet};

// ------------------------------------------------------------------ A03

#[derive(Clone, Debug)]
enum NetOp {
    Send { from: bool, len: usize },
    /// both sides send before anything is delivered
    Both,
    Deliver { to_a: bool, pick: u16, keep: bool },
    Drop { to_a: bool, pick: u16 },
    Advance(u32),
    DeliverAll,
}

fn net_op() -> impl Strategy<Value = NetOp> {
    prop_oneof![
        4 => (any::<bool>(), prop_oneof![3 => 8usize..200, 1 => 900usize..1030]).prop_map(|(from, len)| NetOp::Send { from, len }),
        1 => Just(NetOp::Both),
        5 => (any::<bool>(), any::<u16>(), prop::bool::weighted(0.3)).prop_map(|(to_a, pick, keep)| NetOp::Deliver { to_a, pick, keep }),
        2 => (any::<bool>(), any::<u16>()).prop_map(|(to_a, pick)| NetOp::Drop { to_a, pick }),
        1 => (1u32..12).prop_map(NetOp::Advance),
        1 => Just(NetOp::DeliverAll),
    ]
}

#[derive(Clone, Debug)]
struct A03Case {
    seed: u64,
    history: bool,
    prio: bool,
    version: Option<u16>,
    ops: Vec<NetOp>,
}

struct Duo {
    n: [Sut; 2],
    t: [Tap; 2],
    /// in flight towards node i: (datagram, message)
    fly: [Vec<(Vec<u8>, usize)>; 2],
    record: Vec<(usize, Vec<u8>)>,
    /// messages: (sender, bytes, datagrams emitted, distinct datagrams delivered)
    msgs: Vec<(usize, Vec<u8>, usize, HashSet<Vec<u8>>)>,
}

impl Duo {
    fn new(c: &A03Case) -> Result<Duo, Fail> {
        let mut o = opts();
        o.version = c.version;
        o.packet_history_enabled = c.history;
        o.force_use_priority_channels = c.prio;
        // parts of one message may arrive far apart here; giving up on them belongs to A02 and A09
        o.transfer_timeout_sec = 100_000;
        let a = Sut::with(&[Key::nth(c.seed * 2)], ip(0), o, default_reply)?;
        let b = Sut::with(&[Key::nth(c.seed * 2 + 1)], ip(1), o, default_reply)?;
        let t = [Tap::new(a.addr)?, Tap::new(b.addr)?];
        need!(a.add_peer(b.key(), b.addr) && b.add_peer(a.key(), a.addr), "add_peer");
        Ok(Duo { n: [a, b], t, fly: Default::default(), record: vec![], msgs: vec![] })
    }
    /// Returns whether all of the message's datagrams used the channel
    async fn send(&mut self, from: usize, len: usize) -> Result<bool, Fail> {
        let i = self.msgs.len();
        let data = payload(i as u64 + 1, len);
        let to = 1 - from;
        let r = self.n[from].node.send_custom_message(&self.n[from].id(), &self.n[to].id(), &data);
        check!(r.is_ok(), "send_custom_message: {r:?}");
        let mut got = vec![];
        let t = &self.t[to];
        until(|| {
            while let Some((d, _)) = t.recv() {
                got.push(d);
            }
            !got.is_empty()
        })
        .await;
        settle().await;
        while let Some((d, _)) = t.recv() {
            got.push(d);
        }
        need!(!got.is_empty(), "no datagram captured");
        let chan = got.iter().all(|d| d[..32] != self.n[to].keys[0].id);
        self.msgs.push((from, data, got.len(), HashSet::new()));
        for d in got {
            self.record.push((to, d.clone()));
            self.fly[to].push((d, i));
        }
        Ok(chan)
    }
    async fn deliver(&mut self, to: usize, pick: usize, keep: bool) -> Result<(), Fail> {
        if self.fly[to].is_empty() {
            return Ok(());
        }
        let k = pick % self.fly[to].len();
        let (d, m) = if keep { self.fly[to][k].clone() } else { self.fly[to].remove(k) };
        self.t[to].forward(&d);
        self.msgs[m].3.insert(d);
        self.expect(m, to).await
    }
    async fn expect(&mut self, m: usize, to: usize) -> Result<(), Fail> {
        let (from, data, n, set) = &self.msgs[m];
        if set.len() < *n {
            settle().await;
            return Ok(());
        }
        let peer = self.n[*from].keys[0].id;
        let ev = &self.n[to].events;
        let ok = until(|| ev.lock().unwrap().iter().any(|e| e.peer == peer && &e.data == data)).await;
        check!(ok, "message {m} ({} bytes) is lost although all its datagrams were delivered", data.len());
        Ok(())
    }
}

async fn a03(c: &A03Case) -> CaseResult {
    let mut w = Duo::new(c)?;
    let mut lossy = false;
    for op in &c.ops {
        match op {
            NetOp::Send { from, len } => {
                w.send(*from as usize, *len).await?;
            }
            NetOp::Both => {
                w.send(0, 20).await?;
                w.send(1, 20).await?;
            }
            NetOp::Deliver { to_a, pick, keep } => w.deliver(!*to_a as usize, *pick as usize, *keep).await?,
            NetOp::Drop { to_a, pick } => {
                let to = !*to_a as usize;
                if !w.fly[to].is_empty() {
                    let k = *pick as usize % w.fly[to].len();
                    w.fly[to].remove(k);
                    lossy = true;
                }
            }
            NetOp::Advance(s) => advance(*s as u64 * 1000, 500).await,
            NetOp::DeliverAll => {
                for to in 0..2 {
                    while !w.fly[to].is_empty() {
                        w.deliver(to, 0, false).await?;
                    }
                }
            }
        }
    }
    // the network heals: what is in flight is lost or arrives late
    let late: Vec<Vec<(Vec<u8>, usize)>> = w.fly.iter_mut().map(std::mem::take).collect();
    // (with the duplicate check on, old packets may leave the window; nothing here is that old)
    let mut both = false;
    for round in 0..6 {
        let c0 = w.send(0, 30).await?;
        while !w.fly[1].is_empty() {
            w.deliver(1, 0, false).await?;
        }
        let c1 = w.send(1, 30).await?;
        while !w.fly[0].is_empty() {
            w.deliver(0, 0, false).await?;
        }
        if c0 && c1 {
            both = true;
            break;
        }
        let _ = round;
    }
    check!(both, "after 6 exchanged messages on a healthy network the channel is still not used in both directions");
    // late and stale packets never break it
    for (to, l) in late.into_iter().enumerate() {
        for (d, m) in l {
            w.t[to].forward(&d);
            w.msgs[m].3.insert(d);
            w.expect(m, to).await?;
        }
    }
    for (to, d) in w.record.clone() {
        w.t[to].forward(&d);
        settle().await;
    }
    for from in [0, 1] {
        let ch = w.send(from, 30).await?;
        check!(ch, "stale packets made a side stop using the channel");
        while !w.fly[1 - from].is_empty() {
            w.deliver(1 - from, 0, false).await?;
        }
    }
    for (to, n) in w.n.iter().enumerate() {
        for e in n.take() {
            check!(w.msgs.iter().any(|m| m.1 == e.data && m.0 != to), "a handler saw bytes nobody sent");
        }
    }
    Ok(lossy || c.ops.len() > 4)
}

/// The reference side misses or repeats single setup messages; key order, who starts, and
/// channel dates vary
#[derive(Clone, Debug)]
struct A03Ref {
    seed: u64,
    starts: bool,
    skip_confirm: u8,
    date_shift: i8,
    stale: bool,
    prio: bool,
}

async fn a03_ref(c: &A03Ref) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed), opts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 3), &s);
    s.add_peer(p.key(), p.addr());
    let date = (clock::unix() as i64 + c.date_shift as i64) as u32;
    let mut first = None;
    if c.starts {
        let d = p.link.handshake(vec![Msg::Create { key: p.link.chan_key.public, date }, Msg::Custom(payload(1, 20))]);
        first = Some(d.clone());
        p.raw(&d);
        check!(until(|| s.count() == 1).await, "the message next to CreateChannel was not delivered");
    }
    let mut got = vec![];
    for i in 0..(1 + c.skip_confirm) {
        let r = s.node.send_custom_message(&s.id(), &p.id(), &payload(10 + i as u64, 20));
        check!(r.is_ok(), "send: {r:?}");
        until(|| {
            got.extend(p.poll());
            got.len() as u8 > i
        })
        .await;
    }
    check!(got.len() == 1 + c.skip_confirm as usize, "the node did not send");
    // until it is sure, the node keeps offering: CreateChannel if it has none, ConfirmChannel if it has one
    for g in &got {
        check!(g.how == How::Handshake, "the node used a channel it cannot know to be established");
        let ok = g.packet.messages.iter().any(|m| match m {
            Msg::Create { .. } => !c.starts,
            Msg::Confirm { peer_key, date: d, .. } => c.starts && *peer_key == p.link.chan_key.public && *d == date,
            _ => false,
        });
        check!(ok, "setup message missing or wrong: {:?}", short_dbg(&g.packet.messages));
    }
    // we now have the channel; use it
    need!(p.link.chan.is_some(), "no channel at the reference side");
    if !c.starts {
        let m = p.link.confirm_msg().unwrap();
        let d = p.link.handshake(vec![m, Msg::Custom(payload(2, 20))]);
        p.raw(&d);
        check!(until(|| s.events.lock().unwrap().iter().any(|e| e.data == payload(2, 20))).await, "message next to ConfirmChannel lost");
    } else {
        let d = p.link.channel(c.prio, vec![Msg::Custom(payload(2, 20))]);
        p.raw(&d);
        check!(until(|| s.events.lock().unwrap().iter().any(|e| e.data == payload(2, 20))).await, "message over the confirmed channel lost");
    }
    if c.stale {
        if let Some(d) = first {
            p.raw(&d);
        }
        // an older CreateChannel with another key
        let d = p.link.handshake(vec![Msg::Create { key: Key::nth(8).public, date: date.saturating_sub(5) }]);
        p.raw(&d);
        settle().await;
    }
    p.link.ready = true;
    let _ = s.node.send_custom_message(&s.id(), &p.id(), &payload(50, 20));
    let mut got = vec![];
    until(|| {
        got.extend(p.poll());
        !got.is_empty()
    })
    .await;
    check!(!got.is_empty() && matches!(got[0].how, How::Channel { .. }), "the established channel is not used by the node");
    let q = payload(3, 33);
    check!(p.query(c.prio, &q).await == Some(answer_for(&q)), "no answer over the channel");
    Ok(true)
}

pub fn short_dbg(m: &impl std::fmt::Debug) -> String {
    format!("{m:?}").chars().take(200).collect()
}

pub fn a03_run(c: &mut Ctx) {
    c.scenario(
        "lossy_setup",
        "a datagram was lost or more than four operations happened",
        2500,
        || {
            (0u64..1_000_000, any::<bool>(), any::<bool>(), prop_oneof![Just(None), Just(Some(0u16))], prop::collection::vec(net_op(), 0..14))
                .prop_map(|(seed, history, prio, version, ops)| A03Case { seed, history, prio, version, ops })
        },
        |c| run(a03(c)),
    );
    c.scenario(
        "reference_setup",
        "always",
        600,
        || {
            (0u64..1_000_000, any::<bool>(), 0u8..3, -20i8..5, any::<bool>(), any::<bool>())
                .prop_map(|(seed, starts, skip_confirm, date_shift, stale, prio)| A03Ref { seed, starts, skip_confirm, date_shift, stale, prio })
        },
        |c| run(a03_ref(c)),
    );
}

// ------------------------------------------------------------------ A04

#[derive(Clone, Debug)]
enum SeqOp {
    /// a sequence number relative to the newest of the stream
    New { stream: u8, delta: u64 },
    /// an unused or used number below the newest one
    Below { stream: u8, back: u64 },
    Replay { pick: u16 },
    /// the same number in other contents
    Reuse { pick: u16 },
}

fn seq_op() -> impl Strategy<Value = SeqOp> {
    let delta = prop_oneof![
        8 => 1u64..4,
        3 => 4u64..70,
        3 => prop::sample::select(vec![63u64, 64, 65, 127, 128, 192, 254, 255, 256, 257, 300, 511, 512, 513]),
        2 => 70u64..2000,
        1 => prop::sample::select(vec![1u64 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 48, 1 << 62]),
        1 => Just(u64::MAX),
    ];
    prop_oneof![
        6 => (0u8..3, delta).prop_map(|(stream, delta)| SeqOp::New { stream, delta }),
        4 => (0u8..3, prop_oneof![1u64..70, 70u64..256, 256u64..700]).prop_map(|(stream, back)| SeqOp::Below { stream, back }),
        3 => any::<u16>().prop_map(|pick| SeqOp::Replay { pick }),
        1 => any::<u16>().prop_map(|pick| SeqOp::Reuse { pick }),
    ]
}

/// Always retained: the 256 numbers up to the newest one
const WINDOW: u64 = 256;

async fn a04(seed: u64, ops: &[SeqOp]) -> CaseResult {
    let mut o = opts();
    o.packet_history_enabled = true;
    let s = Sut::new(&Key::nth(seed), o)?;
    let mut p = RefPeer::new(Key::nth(seed + 9), &s);
    p.connect().await?;
    settle().await;
    s.take();
    // streams: 0 ordinary channel, 1 priority channel, 2 handshake (shares the ordinary numbers)
    let idx = |st: u8| (st % 3 == 1) as usize;
    let mut newest = p.link.sent;
    let mut used: [HashSet<u64>; 2] = [(1..=newest[0]).collect(), (1..=newest[1]).collect()];
    let mut record: Vec<(u8, u64, Vec<u8>, u64)> = vec![];
    let mut tag = 0u64;
    let mut nt = false;
    for op in ops {
        let (st, seq, replay) = match op {
            SeqOp::New { stream, delta } => {
                let n = newest[idx(*stream)];
                let s = n.saturating_add(*delta);
                (*stream % 3, s, None)
            }
            SeqOp::Below { stream, back } => {
                let s = newest[idx(*stream)].saturating_sub(*back);
                (*stream % 3, s, None)
            }
            SeqOp::Replay { pick } | SeqOp::Reuse { pick } if record.is_empty() => {
                let _ = pick;
                continue;
            }
            SeqOp::Replay { pick } => {
                let r = &record[*pick as usize % record.len()];
                (r.0, r.1, Some((r.2.clone(), r.3)))
            }
            SeqOp::Reuse { pick } => {
                let r = &record[*pick as usize % record.len()];
                (r.0, r.1, None)
            }
        };
        if seq == 0 {
            continue;
        }
        let i = idx(st);
        tag += 1;
        let (d, t) = match replay {
            Some(r) => r,
            None => {
                p.link.sent = [0; 2];
                p.link.sent[i] = seq.wrapping_sub(1);
                let m = vec![Msg::Custom(payload(tag, 16))];
                let d = match st {
                    0 => p.link.channel(false, m),
                    1 => p.link.channel(true, m),
                    _ => {
                        p.link.sent[0] = seq.wrapping_sub(1);
                        p.link.handshake(m)
                    }
                };
                record.push((st, seq, d.clone(), tag));
                (d, tag)
            }
        };
        let fresh = !used[i].contains(&seq);
        let must = fresh && seq.saturating_add(WINDOW) > newest[i];
        let mut hit = false;
        p.raw(&d);
        if must {
            hit = until(|| s.count() > 0).await;
            settle().await;
        } else {
            settle().await;
            settle().await;
        }
        let evs = s.take();
        hit |= !evs.is_empty();
        if hit {
            check!(evs.len() == 1 && evs[0].data == payload(t, 16), "processing number {seq} produced {} events", evs.len());
        }
        if !fresh {
            nt = true;
            check!(!hit, "{}: a packet with the already used sequence number {seq} was processed again (newest {})", ["ordinary", "priority", "handshake"][st as usize], newest[i]);
        }
        if must {
            check!(hit, "{}: a packet with the unused sequence number {seq} (newest {}) was not processed", ["ordinary", "priority", "handshake"][st as usize], newest[i]);
        }
        if hit {
            used[i].insert(seq);
            newest[i] = newest[i].max(seq);
        }
    }
    Ok(nt)
}

pub fn a04_run(c: &mut Ctx) {
    c.scenario(
        "seqnos",
        "a used sequence number was offered again",
        2500,
        || (0u64..1_000_000, prop::collection::vec(seq_op(), 1..60)),
        |(s, ops)| run(a04(*s, ops)),
    );
    // long streams around block borders, with every packet replayed
    c.scenario(
        "long_runs",
        "the stream passed sequence number 512",
        160,
        || (0u64..1_000_000, prop::collection::vec((1u64..40, 0u8..2, 0u64..300), 20..120)),
        |(s, steps)| {
            let mut ops = vec![];
            let mut total = 0;
            for (d, st, back) in steps {
                total += d;
                ops.push(SeqOp::New { stream: *st * 2, delta: *d });
                ops.push(SeqOp::Reuse { pick: (ops.len() / 2) as u16 });
                ops.push(SeqOp::Below { stream: 0, back: *back });
                ops.push(SeqOp::Below { stream: 2, back: *back });
            }
            let r = run(a04(*s, &ops));
            r.map(|_| total > 512)
        },
    );
    c.scenario("threads", "more than ten packets at once", 60, crate::p::t1::copies_gen, |v| run_mt(crate::p::t1::copies(v)));
}

// ------------------------------------------------------------------ A05

#[derive(Clone, Debug)]
enum DateOp {
    Packet { src: i64, src_rel: u8, dst: u8, dst_off: u32, confirm: u8, over: u64 },
    NodeSends(u8),
    Advance(u32),
    Replay(u16),
}

fn date_op() -> impl Strategy<Value = DateOp> {
    prop_oneof![
        6 => (prop_oneof![3 => Just(0i64), 2 => -3i64..4, 1 => -100i64..100], 0u8..3, 0u8..5, 1u32..1000, 0u8..6, 1u64..5)
            .prop_map(|(src, src_rel, dst, dst_off, confirm, over)| DateOp::Packet { src, src_rel, dst, dst_off, confirm, over }),
        3 => (1u8..4).prop_map(DateOp::NodeSends),
        1 => (1u32..40).prop_map(DateOp::Advance),
        2 => any::<u16>().prop_map(DateOp::Replay),
    ]
}

#[derive(Clone, Debug)]
struct A05Case {
    seed: u64,
    tolerance: u32,
    history: bool,
    unix0: u32,
    ops: Vec<DateOp>,
}

async fn a05(c: &A05Case) -> CaseResult {
    let mut o = opts();
    o.clock_tolerance_sec = c.tolerance;
    o.packet_history_enabled = c.history;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let start = s.node.start_time();
    check!(start == clock::unix(), "the start date is not the time of the start");
    let mut p = RefPeer::new(Key::nth(c.seed + 11), &s);
    need!(s.add_peer(p.key(), p.addr()), "add_peer");
    let mut newest = 0u32;
    let mut sent = 0u64; // numbers the node used since the peer's last restart
    let mut seq = 0u64; // ours
    let mut tag = 0;
    let mut nt = false;
    let mut old: Vec<(u32, Vec<u8>)> = vec![];
    for op in &c.ops {
        match op {
            DateOp::Advance(x) => advance(*x as u64 * 1000, 1000).await,
            DateOp::NodeSends(n) => {
                for _ in 0..*n {
                    let r = s.node.send_custom_message(&s.id(), &p.id(), &payload(1, 8));
                    check!(r.is_ok(), "send: {r:?}");
                    let mut got = vec![];
                    until(|| {
                        got.extend(p.poll());
                        !got.is_empty()
                    })
                    .await;
                    check!(got.len() == 1, "the node emitted {} packets", got.len());
                    sent += 1;
                    let k = &got[0].packet;
                    check!(k.seqno == Some(sent), "the node used sequence number {:?}, expected {sent} (restarts of the peer start numbering again)", k.seqno);
                    check!(k.reinit == Some((start, newest)), "the node's reinit dates are {:?}, expected {:?}", k.reinit, (start, newest));
                    check!(k.address.as_ref().map(|a| a.reinit_date) == Some(start), "address list reinit date");
                }
            }
            DateOp::Replay(i) => {
                if old.is_empty() {
                    continue;
                }
                let (date, d) = &old[*i as usize % old.len()];
                if *date >= newest {
                    continue;
                }
                p.raw(d);
                settle().await;
                let e = s.take();
                check!(e.is_empty(), "a packet recorded before the peer's restart was processed again");
                check!(p.poll().is_empty(), "a replay from before the restart was answered");
                nt = true;
            }
            DateOp::Packet { src, src_rel, dst, dst_off, confirm, over } => {
                let now = clock::unix();
                let base = match src_rel {
                    0 => newest as i64,
                    1 => now as i64,
                    _ => now as i64 + c.tolerance as i64,
                };
                let src = (base + src).clamp(0, u32::MAX as i64) as u32;
                let dst = match dst {
                    0 => 0,
                    1 | 2 => start,
                    3 => start - (*dst_off).min(start - 1),
                    _ => start.saturating_add(*dst_off),
                };
                tag += 1;
                let data = payload(tag, 16);
                let mut k = p.link.base(false, vec![Msg::Custom(data.clone())]);
                k.from = Some(p.link.me.public);
                k.reinit = Some((src, dst));
                k.address.as_mut().unwrap().reinit_date = now;
                let next = if src > newest && newest != 0 { 1 } else { seq + 1 };
                k.seqno = Some(next);
                // what a restart leaves of the node's numbers
                let sent_then = if src > newest && newest != 0 { 0 } else { sent };
                k.confirm = match confirm {
                    0 => None,
                    1 => Some(0),
                    2..=3 => Some(sent_then),
                    4 => Some(sent_then / 2),
                    _ => Some(sent_then + *over),
                };
                let me = p.link.me.clone();
                k.sign(&me);
                let d = p.link.wrap_handshake(&k);
                let dates_ok = dst <= start && src <= now.saturating_add(c.tolerance) && src >= newest;
                let stale_dst = dst != 0 && dst < start;
                let conf_ok = k.confirm.map(|x| x <= sent_then).unwrap_or(true);
                let want = dates_ok && !stale_dst && conf_ok;
                p.raw(&d);
                let mut nops = 0;
                let (mut got, mut other) = (vec![], 0);
                if dates_ok {
                    if src > newest && newest != 0 {
                        sent = 0;
                        seq = 0;
                    }
                    newest = src;
                    if !stale_dst {
                        seq = next; // delivered to the history even if the confirmation is bad
                    }
                }
                until(|| {
                    for g in p.poll() {
                        got.push(g);
                    }
                    (!want || s.count() > 0) && (!(dates_ok && stale_dst) || !got.is_empty())
                })
                .await;
                settle().await;
                got.extend(p.poll());
                for g in &got {
                    sent += 1;
                    check!(g.packet.seqno == Some(sent), "reply with number {:?}, expected {sent}", g.packet.seqno);
                    for m in &g.packet.messages {
                        match m {
                            Msg::Nop => nops += 1,
                            Msg::Create { .. } => {}
                            _ => other += 1,
                        }
                    }
                }
                check!(other == 0, "unexpected reply");
                let ev = s.take();
                let desc = format!("packet with dates (src {src}, dst {dst}), confirming {:?}; node: start {start}, now {now}, tolerance {}, newest source date {newest}, sent {sent_then}", k.confirm, c.tolerance);
                if want {
                    check!(ev.len() == 1 && ev[0].data == data, "not processed: {desc}");
                    old.push((src, d));
                } else {
                    nt = true;
                    check!(ev.is_empty(), "processed: {desc}");
                }
                if dates_ok && stale_dst {
                    check!(nops == 1, "a stale destination date was answered {nops} times: {desc}");
                    check!(got[0].packet.reinit.map(|r| r.0) == Some(start), "the answer does not carry the start date");
                } else {
                    check!(got.is_empty(), "unexpected reply: {desc}");
                }
            }
        }
    }
    Ok(nt)
}

pub fn a05_run(c: &mut Ctx) {
    c.scenario(
        "dates",
        "some packet had to be rejected",
        2500,
        || {
            (0u64..1_000_000, prop_oneof![Just(0u32), Just(60), 1u32..200], any::<bool>(), Just(0u32), prop::collection::vec(date_op(), 1..20))
                .prop_map(|(seed, tolerance, history, unix0, ops)| A05Case { seed, tolerance, history, unix0, ops })
        },
        |c| {
            let _ = c.unix0;
            run(a05(c))
        },
    );
}

// ------------------------------------------------------------------ A06

#[derive(Clone, Debug)]
enum QOp {
    Ask { len: usize, timeout: Option<u64> },
    Answer { pick: u16, len: usize },
    /// another answer to a query that was answered before
    Again { pick: u16 },
    Unknown,
    Advance(u64),
    Cancel { pick: u16 },
}

fn q_op() -> impl Strategy<Value = QOp> {
    prop_oneof![
        5 => (prop_oneof![4usize..300, 900usize..3000], prop_oneof![2 => Just(None), 2 => (0u64..3000).prop_map(Some), 1 => (3000u64..20000).prop_map(Some)])
            .prop_map(|(len, timeout)| QOp::Ask { len, timeout }),
        5 => (any::<u16>(), prop_oneof![0usize..300, 900usize..4000]).prop_map(|(pick, len)| QOp::Answer { pick, len }),
        2 => any::<u16>().prop_map(|pick| QOp::Again { pick }),
        1 => Just(QOp::Unknown),
        3 => prop_oneof![1u64..300, 300u64..6000].prop_map(QOp::Advance),
        1 => any::<u16>().prop_map(|pick| QOp::Cancel { pick }),
    ]
}

#[derive(Clone, Debug)]
struct A06Case {
    seed: u64,
    min: u64,
    default: u64,
    connect: bool,
    prio: bool,
    ops: Vec<QOp>,
}

struct Pending {
    h: tokio::task::JoinHandle<anyhow::Result<Option<Vec<u8>>>>,
    /// virtual deadline
    at: u64,
    id: B32,
    answered: Option<Vec<u8>>,
    cancelled: bool,
    resolved: bool,
}

async fn a06(c: &A06Case) -> CaseResult {
    let mut o = opts();
    o.query_min_timeout_ms = c.min;
    o.query_default_timeout_ms = c.default;
    o.force_use_priority_channels = c.prio;
    // channel resets belong to A08
    o.channel_reset_timeout_sec = 1_000_000;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 13), &s);
    if c.connect {
        p.connect().await?;
    } else {
        s.add_peer(p.key(), p.addr());
    }
    for t in [None, Some(0), Some(c.min), Some(c.min + 1), Some(c.default), Some(u64::MAX)] {
        check!(s.node.compute_query_timeout(t) == t.unwrap_or(c.default).max(c.min), "the timeout of {t:?} is not the greater one of it (or the default) and the minimum");
    }
    let mut q: Vec<Pending> = vec![];
    let mut in_flight_max = 0;
    async fn sweep(q: &mut [Pending], exact: bool) -> Result<(), Fail> {
        let now = clock::ms();
        for (i, x) in q.iter_mut().enumerate() {
            if x.resolved || x.cancelled {
                continue;
            }
            let due = x.answered.is_some() || now > x.at + 2;
            if due {
                check!(until(|| x.h.is_finished()).await, "query {i} did not resolve ({}; deadline {}, now {now})", if x.answered.is_some() { "answered" } else { "not answered" }, x.at);
            }
            if x.h.is_finished() {
                x.resolved = true;
                let r = (&mut x.h).await.map_err(|e| Fail::Harness(e.to_string()))?;
                let r = match r {
                    Ok(r) => r,
                    Err(e) => viol!("query {i} failed: {e}"),
                };
                if x.answered.is_none() {
                    check!(r.is_none(), "query {i} resolved with an answer nobody gave");
                    check!(now + 2 >= x.at, "query {i} gave up at {now} ms, its timeout is at {} ms", x.at);
                } else {
                    check!(r == x.answered, "query {i} resolved with {:?} bytes, the first answer to it has {:?}", r.map(|x| x.len()), x.answered.as_ref().map(|x| x.len()));
                }
            } else if exact {
                check!(!due, "query {i} is pending");
            }
        }
        Ok(())
    }
    for (n, op) in c.ops.iter().enumerate() {
        match op {
            QOp::Ask { len, timeout } => {
                let data = payload(c.seed * 1000 + n as u64, *len);
                let (node, l, r, d, t) = (s.node.clone(), s.id(), p.id(), data.clone(), *timeout);
                let h = tokio::spawn(async move { node.query_raw(&l, &r, d.into(), t).await });
                let at = clock::ms() + timeout.unwrap_or(c.default).max(c.min);
                let mut id = None;
                until(|| {
                    for m in p.msgs() {
                        if let Msg::Query { id: i, data: d } = m {
                            if d == data {
                                id = Some(i);
                            }
                        }
                    }
                    id.is_some()
                })
                .await;
                let Some(id) = id else { viol!("the query of {len} bytes did not reach the remote side") };
                check!(q.iter().all(|x| x.id != id), "two queries share an id");
                q.push(Pending { h, at, id, answered: None, cancelled: false, resolved: false });
                in_flight_max = in_flight_max.max(q.iter().filter(|x| !x.resolved && !x.cancelled).count());
            }
            QOp::Answer { pick, len } => {
                if q.is_empty() {
                    continue;
                }
                let i = *pick as usize % q.len();
                let a = payload(n as u64 + 7_000_000, *len);
                p.send_msg(n % 2 == 0, Msg::Answer { id: q[i].id, data: a.clone() });
                if q[i].answered.is_none() && !q[i].resolved && !q[i].cancelled {
                    q[i].answered = Some(a);
                }
                settle().await;
            }
            QOp::Again { pick } => {
                let d: Vec<usize> = (0..q.len()).filter(|i| q[*i].answered.is_some() || q[*i].resolved || q[*i].cancelled).collect();
                if d.is_empty() {
                    continue;
                }
                let i = d[*pick as usize % d.len()];
                p.send_msg(true, Msg::Answer { id: q[i].id, data: payload(1, 50) });
                settle().await;
            }
            QOp::Unknown => {
                p.send_msg(false, Msg::Answer { id: sha256(&n.to_le_bytes()), data: payload(1, 50) });
                settle().await;
            }
            QOp::Advance(ms) => {
                // stop close before and after every deadline on the way
                let end = clock::ms() + ms;
                loop {
                    sweep(&mut q, false).await?;
                    let now = clock::ms();
                    if now >= end {
                        break;
                    }
                    let next = q
                        .iter()
                        .filter(|x| !x.resolved && !x.cancelled && x.answered.is_none())
                        .flat_map(|x| [x.at.saturating_sub(3), x.at + 3])
                        .filter(|t| *t > now)
                        .min()
                        .unwrap_or(end)
                        .min(end);
                    clock::advance_ms(next - now);
                    settle().await;
                }
            }
            QOp::Cancel { pick } => {
                if q.is_empty() {
                    continue;
                }
                let i = *pick as usize % q.len();
                if !q[i].resolved && q[i].answered.is_none() {
                    q[i].h.abort();
                    q[i].cancelled = true;
                    settle().await;
                }
            }
        }
        sweep(&mut q, true).await?;
        let live = q.iter().filter(|x| !x.resolved && !x.cancelled).count();
        let ok = until(|| s.node.metrics().query_count == live).await;
        check!(ok, "{} queries are pending in the node, {live} are in flight", s.node.metrics().query_count);
    }
    advance(40_000, 500).await;
    sweep(&mut q, true).await?;
    check!(q.iter().all(|x| x.resolved || x.cancelled), "a query never resolved");
    check!(s.node.metrics().query_count == 0, "{} queries stay pending in the node", s.node.metrics().query_count);
    Ok(in_flight_max > 1)
}

/// Exhaustive-ish small timeouts: the configured minimum applies
pub fn a06_run(c: &mut Ctx) {
    c.scenario(
        "histories",
        "several queries were in flight at once",
        2500,
        || {
            (
                0u64..1_000_000,
                prop_oneof![Just(500u64), 0u64..2000],
                prop_oneof![Just(5000u64), 100u64..8000],
                any::<bool>(),
                any::<bool>(),
                prop::collection::vec(q_op(), 1..25),
            )
                .prop_map(|(seed, min, default, connect, prio, ops)| A06Case { seed, min, default, connect, prio, ops })
        },
        |c| run(a06(c)),
    );
    let _ = BTreeMap::<u8, u8>::new();
    c.scenario("threads", "both sides ask", 60, || crate::p::t1::crowd_gen(200), |v| run_mt(crate::p::t1::crowd(v)));
}
