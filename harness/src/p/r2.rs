//! R03, R04, R05
use super::r1::{sized_answer, sized_query, sized_reply, Asked, RlSut};
use crate::fx::*;
use crate::ov::{mark, oopts, ov_id, send_custom, wrap, Bc, Ov, Sender};
use crate::rl::*;
use everscale_network::rldp;
use proptest::prelude::*;
use vcore::alloc;
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ R03

/// How a query of the node ends, seen from its remote side
#[derive(Clone, Debug)]
enum End {
    /// answered after a while, in full
    Answer { after: u16 },
    /// only some symbols of a longer answer arrive
    Partial { symbols: u8 },
    /// the query is never confirmed
    Silent,
    /// the query is confirmed, nothing follows
    Taken,
    /// the caller gives up after that many ms
    Dropped { after: u16, answer: bool },
    /// the answer names another query or is not an answer
    Wrong { kind: u8 },
    /// two parts are confirmed at once
    Twice,
    /// the peer is removed after a while
    Removed { after: u16 },
    /// the remote side is not known at all
    Unknown,
}

#[derive(Clone, Debug)]
struct Ends {
    seed: u64,
    min_ms: u64,
    max_ms: u64,
    asks: Vec<(End, u16, u16, u16)>,
}

fn ends() -> impl Strategy<Value = Ends> {
    let after = || 0u16..1500;
    let end = prop_oneof![
        3 => after().prop_map(|after| End::Answer { after }),
        1 => (0u8..6).prop_map(|symbols| End::Partial { symbols }),
        1 => Just(End::Silent),
        1 => Just(End::Taken),
        3 => (after(), any::<bool>()).prop_map(|(after, answer)| End::Dropped { after, answer }),
        1 => (0u8..4).prop_map(|kind| End::Wrong { kind }),
        1 => Just(End::Twice),
        1 => after().prop_map(|after| End::Removed { after }),
        1 => Just(End::Unknown),
    ];
    (any::<u32>(), 50u64..400, 500u64..1500, prop::collection::vec((end, 16u16..6000, 0u16..3000, 0u16..1200), 1..6))
        .prop_map(|(seed, min_ms, max_ms, asks)| Ends { seed: seed as u64, min_ms, max_ms, asks })
}

struct Remote {
    p: RefPeer,
    inc: In,
    tid: Option<B32>,
    answered: bool,
}

async fn r03_ends(c: &Ends) -> CaseResult {
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: c.max_ms, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut rs = vec![];
    for (i, k) in c.asks.iter().enumerate() {
        let p = RefPeer::new(Key::nth(c.seed + 1 + i as u64), &a.s);
        if !matches!(k.0, End::Unknown) {
            need!(a.s.add_peer(p.key(), p.addr()), "add_peer");
        }
        rs.push(Remote { p, inc: In::default(), tid: None, answered: false });
    }
    let t0 = clock::ms();
    let mut open: Vec<Option<Asked>> = c.asks.iter().map(|_| None).collect();
    let mut gone: Vec<Option<u64>> = vec![None; c.asks.len()];
    let bound = 8000;
    loop {
        let now = clock::ms() - t0;
        let mut started = 0;
        for (i, (end, len, ans, at)) in c.asks.iter().enumerate() {
            if open[i].is_none() && now >= *at as u64 {
                open[i] = Some(a.spawn(&rs[i].p.key().id, sized_query(c.seed * 8 + i as u64, *len as usize, *ans as usize), None));
            }
            let Some(h) = &open[i] else { continue };
            started += 1;
            let since = now - *at as u64;
            match end {
                End::Dropped { after, .. } if gone[i].is_none() && since >= *after as u64 => {
                    if h.done() {
                        gone[i] = Some(clock::ms());
                    } else {
                        h.h.abort();
                        gone[i] = Some(clock::ms());
                    }
                }
                End::Removed { after } if since >= *after as u64 => {
                    a.s.node.remove_peer(&a.s.id(), &rs[i].p.id()).ok();
                }
                _ => {}
            }
            let r = &mut rs[i];
            let ms = r.p.poll_rl();
            if matches!(end, End::Silent | End::Unknown) {
                continue;
            }
            for m in ms {
                if let Rl::Part { id, .. } = &m {
                    r.tid.get_or_insert(*id);
                    if neg(id) == r.tid.unwrap() {
                        continue;
                    }
                    if let (End::Twice, false) = (end, r.inc.done) {
                        r.inc.done = true;
                        r.p.rl(&Rl::Complete { id: *id, part: 0 });
                        r.p.rl(&Rl::Complete { id: *id, part: 1 });
                        continue;
                    }
                    if let Some(x) = r.inc.take(&m) {
                        r.p.rl(&x);
                    }
                }
            }
            let wait = match end {
                End::Answer { after } => (*after as u64).min(c.min_ms * 3 / 4),
                _ => 0,
            };
            if r.inc.done && !r.answered && since >= wait && !matches!(end, End::Taken | End::Twice) {
                r.answered = true;
                let Some((qid, _, _, q)) = parse_query(&r.inc.data) else { viol!("not a query") };
                let id = neg(&r.tid.unwrap());
                let good = wrap_answer(&qid, &sized_answer(&q));
                match end {
                    End::Partial { symbols } => {
                        let out = Out::new(id, &wrap_answer(&qid, &payload(3, 9000)), &[], SYMBOL);
                        for k in 0..*symbols as u32 {
                            r.p.rl(&out.msg(0, k));
                        }
                    }
                    End::Dropped { answer: false, .. } => {}
                    End::Wrong { kind } => {
                        let d = match kind {
                            0 => wrap_answer(&[1; 32], &q),
                            1 => wrap_query(&qid, 5, 5, &q),
                            2 => good[..good.len() / 8 * 4].to_vec(),
                            _ => payload(1, 100),
                        };
                        let out = Out::new(id, &d, &[], SYMBOL);
                        for k in 0..out.parts[0].k() + 3 {
                            r.p.rl(&out.msg(0, k));
                        }
                    }
                    _ => {
                        let out = Out::new(id, &good, &[], SYMBOL);
                        for k in 0..out.parts[0].k() + 3 {
                            r.p.rl(&out.msg(0, k));
                        }
                    }
                }
            }
        }
        yields(4).await;
        for (i, h) in open.iter().enumerate() {
            if h.as_ref().map(|h| h.done()).unwrap_or(false) && gone[i].is_none() {
                gone[i] = Some(clock::ms());
            }
        }
        let t = a.table();
        check!(t <= 2 * started, "{t} transfers are kept for {started} queries");
        if gone.iter().all(|x| x.is_some()) {
            break;
        }
        check!(now < bound, "a query has not ended {bound} ms after its start: {:?}", c.asks.iter().zip(&gone).filter(|x| x.1.is_none()).map(|x| &x.0 .0).collect::<Vec<_>>());
        clock::advance_ms(10);
    }
    for (i, (end, ..)) in c.asks.iter().enumerate() {
        let r = open[i].as_ref().unwrap().get();
        match (end, r) {
            (End::Answer { .. }, Some((_, Ok((Some(x), _))))) => {
                let q = sized_query(c.seed * 8 + i as u64, c.asks[i].1 as usize, c.asks[i].2 as usize);
                check!(x == sized_answer(&q), "a wrong answer")
            }
            (End::Answer { .. }, o) => viol!("an answered query ended with {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
            (End::Dropped { .. } | End::Removed { .. }, _) => {}
            (_, Some((_, Ok((Some(x), _))))) => viol!("{end:?} ended with an answer of {} bytes", x.len()),
            (End::Silent | End::Taken, Some((_, Err(e)))) => viol!("{end:?} ended with the error {e}"),
            _ => {}
        }
    }
    // the completion time after the last end, and what late datagrams may have started anew
    let last = gone.iter().flatten().max().copied().unwrap();
    let completion = 2 * c.max_ms;
    let mut late = vec![];
    loop {
        let now = clock::ms();
        for (i, r) in rs.iter_mut().enumerate() {
            if r.p.poll_rl().iter().any(|m| matches!(m, Rl::Part { .. })) && now > gone[i].unwrap() + 10 {
                late.push(i);
            }
        }
        if now > last + completion + 30 {
            break;
        }
        clock::advance_ms(20);
        yields(5).await;
    }
    check!(late.is_empty(), "the node goes on sending after the query has ended ({:?})", late.iter().map(|i| &c.asks[*i].0).collect::<Vec<_>>());
    check!(a.table() == 0, "{} transfers are left {} ms after the last query has ended ({:?})", a.table(), completion + 30, c.asks.iter().map(|x| &x.0).collect::<Vec<_>>());
    a.r.gc();
    check!(a.r.metrics().peer_count == 0, "{} limiters are left after the collection", a.r.metrics().peer_count);
    Ok(c.asks.iter().any(|x| !matches!(x.0, End::Answer { .. })))
}

/// How a query to the node ends
#[derive(Clone, Debug)]
enum In3 {
    /// the handler's reaction and how the answer is received
    Full { reply: u8, ack: Ack },
    Incomplete { symbols: u8 },
    /// complete, but not a query
    Garbage { kind: u8 },
    /// the asker's limit is too small for the answer
    Limit,
    /// the first symbols are impossible
    Bad { kind: u8, then: bool },
}
#[derive(Clone, Debug, PartialEq)]
enum Ack {
    Full,
    None,
    /// confirms but never completes
    Confirm,
    Twice,
    Removed,
    /// the query is repeated after a while
    Repeat(u16),
}

fn incoming() -> impl Strategy<Value = (u64, u64, Vec<(In3, u16, u16, u16)>)> {
    let ack = prop_oneof![
        2 => Just(Ack::Full),
        1 => Just(Ack::None),
        1 => Just(Ack::Confirm),
        1 => Just(Ack::Twice),
        1 => Just(Ack::Removed),
        1 => (0u16..4000).prop_map(Ack::Repeat),
    ];
    let kind = prop_oneof![
        5 => (0u8..4, ack).prop_map(|(reply, ack)| In3::Full { reply, ack }),
        2 => (0u8..5).prop_map(|symbols| In3::Incomplete { symbols }),
        1 => (0u8..3).prop_map(|kind| In3::Garbage { kind }),
        1 => Just(In3::Limit),
        2 => (0u8..6, any::<bool>()).prop_map(|(kind, then)| In3::Bad { kind, then }),
    ];
    (any::<u32>(), 500u64..1500, prop::collection::vec((kind, 16u16..6000, 0u16..5000, 0u16..1200), 1..6)).prop_map(|(s, m, v)| (s as u64, m, v))
}

async fn r03_incoming(c: &(u64, u64, Vec<(In3, u16, u16, u16)>)) -> CaseResult {
    let (seed, max_ms, list) = c;
    let ro = rldp::NodeOptions { query_min_timeout_ms: 100, query_max_timeout_ms: *max_ms, ..Default::default() };
    let a = RlSut::with(&Key::nth(*seed), LOCAL, opts(), ro, |e| match e.data.last().unwrap() & 3 {
        0 => sized_reply(e),
        1 => Reply::NoAnswer,
        2 => Reply::Reject,
        _ => Reply::Error,
    })?;
    let t0 = clock::ms();
    let completion = 2 * max_ms;
    struct St {
        p: RefPeer,
        out: Out,
        sent: bool,
        inc: In,
        again: bool,
        last: u64,
        got: u32,
    }
    let mut rs = vec![];
    for (i, (kind, len, ans, _)) in list.iter().enumerate() {
        let mut p = RefPeer::new(Key::nth(seed + 1 + i as u64), &a.s);
        p.connect().await?;
        let mut q = sized_query(seed * 8 + i as u64, (*len).max(20) as usize, *ans as usize);
        let l = q.last_mut().unwrap();
        *l = *l & 0x7c | if let In3::Full { reply, .. } = kind { reply & 3 } else { 0 };
        let tid = sha256(&[i as u8, 3]);
        let limit = if matches!(kind, In3::Limit) { (*ans as u64).saturating_sub(1) } else { 100_000 };
        let whole = match kind {
            In3::Garbage { kind: 0 } => payload(5, *len as usize),
            In3::Garbage { kind: 1 } => {
                let w = wrap_query(&[5; 32], limit, 0, &q);
                w[..(w.len() / 8 * 4).min(60)].to_vec()
            }
            In3::Garbage { .. } => wrap_query(&[5; 32], limit, 0, &q[..2]),
            _ => wrap_query(&[5; 32], limit, 0, &q),
        };
        rs.push(St { p, out: Out::new(tid, &whole, &[], SYMBOL), sent: false, inc: In::default(), again: false, last: 0, got: 0 });
    }
    a.s.take();
    let n0 = a.table();
    check!(n0 == 0, "{n0} transfers at the start");
    let end = 1300 + 12 * max_ms;
    let mut quiet_at = None;
    while clock::ms() - t0 < end {
        let now = clock::ms() - t0;
        for (i, (kind, _, _, at)) in list.iter().enumerate() {
            let r = &mut rs[i];
            if now < *at as u64 {
                continue;
            }
            let send_all = |r: &mut St| {
                let k = r.out.parts[0].k();
                for esi in 0..k + 3 {
                    r.p.rl(&r.out.msg(0, esi));
                }
                r.last = clock::ms();
            };
            if !r.sent {
                r.sent = true;
                match kind {
                    In3::Incomplete { symbols } => {
                        let n = (*symbols as u32).min(r.out.parts[0].k() - 1);
                        for esi in 0..n {
                            r.p.rl(&r.out.msg(0, esi));
                        }
                        r.last = clock::ms();
                    }
                    In3::Bad { kind, then } => {
                        let mut m = r.out.msg(0, 0);
                        if let Rl::Part { total_len, packet_len, part, total, seqno, data, .. } = &mut m {
                            match kind {
                                0 => *total = u64::MAX,
                                1 => *packet_len = 0,
                                2 => *total_len = u32::MAX,
                                3 => *part = u32::MAX,
                                4 => *seqno = u32::MAX,
                                _ => data.truncate(data.len() / 2),
                            }
                        }
                        r.p.rl(&m);
                        r.last = clock::ms();
                        if *then {
                            send_all(r);
                        }
                    }
                    _ => send_all(r),
                }
            }
            let ack = if let In3::Full { ack, .. } = kind { ack.clone() } else { Ack::Full };
            for m in r.p.poll_rl() {
                if *m.id() != neg(&r.out.id) {
                    continue;
                }
                r.got += 1;
                r.last = clock::ms();
                match ack {
                    Ack::None => {}
                    Ack::Confirm => {
                        if let Rl::Part { id, part, seqno, .. } = &m {
                            if *seqno < 20 {
                                r.p.rl(&Rl::Confirm { id: *id, part: *part, seqno: *seqno });
                            }
                        }
                    }
                    Ack::Twice => {
                        let id = *m.id();
                        r.p.rl(&Rl::Complete { id, part: 0 });
                        r.p.rl(&Rl::Complete { id, part: 1 });
                    }
                    Ack::Removed => {
                        a.s.node.remove_peer(&a.s.id(), &r.p.id()).ok();
                    }
                    _ => {
                        if let Some(x) = r.inc.take(&m) {
                            r.p.rl(&x);
                        }
                    }
                }
            }
            if let Ack::Repeat(ms) = ack {
                if !r.again && now >= *at as u64 + ms as u64 {
                    r.again = true;
                    send_all(r);
                }
            }
        }
        yields(5).await;
        if quiet_at.is_none() && now > 1300 && a.table() == 0 {
            quiet_at = Some(clock::ms());
            if now > 5300 {
                break;
            }
        }
        clock::advance_ms(20);
    }
    let t = a.table();
    check!(t == 0, "{t} transfers are left {} ms after the last datagram ({:?})", clock::ms() - rs.iter().map(|r| r.last).max().unwrap(), list.iter().map(|x| &x.0).collect::<Vec<_>>());
    let _ = completion;
    // what was asked properly was answered
    for (i, (kind, len, ans, _)) in list.iter().enumerate() {
        if let In3::Full { reply, ack } = kind {
            if matches!(ack, Ack::Full | Ack::Repeat(_)) {
                if *reply == 0 {
                    check!(rs[i].inc.done, "a query of {len} bytes got no answer of {ans} bytes");
                } else {
                    check!(rs[i].got == 0, "an answer is sent although the handler gave none");
                }
            }
        }
    }
    Ok(list.iter().any(|x| !matches!(x.0, In3::Full { reply: 0, ack: Ack::Full })))
}

/// Concurrency: at most the configured number of queries of a peer are in flight
#[derive(Clone, Debug)]
enum C3 {
    Ask { peer: u8 },
    /// the k-th query in flight of the peer is answered
    Answer { peer: u8, k: u8 },
    /// the k-th unfinished query is dropped by its caller
    Drop { k: u8 },
    Gc,
    Time { ms: u16 },
}
fn conc() -> impl Strategy<Value = (u32, usize, Vec<C3>)> {
    let op = prop_oneof![
        6 => (0u8..3).prop_map(|peer| C3::Ask { peer }),
        4 => (0u8..3, any::<u8>()).prop_map(|(peer, k)| C3::Answer { peer, k }),
        2 => any::<u8>().prop_map(|k| C3::Drop { k }),
        1 => Just(C3::Gc),
        2 => (1u16..3000).prop_map(|ms| C3::Time { ms }),
    ];
    (any::<u32>(), 1usize..5, prop::collection::vec(op, 1..40))
}

struct Q3 {
    peer: usize,
    tag: u64,
    h: Asked,
    dropped: bool,
    answered: bool,
}

async fn r03_conc(c: &(u32, usize, Vec<C3>)) -> CaseResult {
    let (seed, max, ops) = c;
    let max_ms = 4000u64;
    let ro = rldp::NodeOptions { max_peer_queries: *max, query_max_timeout_ms: max_ms, ..Default::default() };
    let a = RlSut::new(&Key::nth(*seed as u64), ro)?;
    let mut ps = vec![];
    for i in 0..3 {
        let p = RefPeer::new(Key::nth(*seed as u64 + 1 + i), &a.s);
        need!(a.s.add_peer(p.key(), p.addr()), "add");
        ps.push(p);
    }
    let mut qs: Vec<Q3> = vec![];
    let mut limiters: HashSet<usize> = HashSet::new();
    // query tag -> (transfer id, query id, at)
    let mut flying: Vec<HashMap<u64, (B32, B32)>> = vec![HashMap::new(), HashMap::new(), HashMap::new()];
    let mut nt = false;
    for (step, op) in ops.iter().enumerate() {
        match op {
            C3::Ask { peer } => {
                let tag = step as u64 + 1;
                let h = a.spawn(&ps[*peer as usize].key().id, sized_query(tag, 40, 10), None);
                limiters.insert(*peer as usize);
                qs.push(Q3 { peer: *peer as usize, tag, h, dropped: false, answered: false });
            }
            C3::Answer { peer, k } => {
                let peer = *peer as usize;
                let c: Vec<usize> = (0..qs.len()).filter(|i| qs[*i].peer == peer && !qs[*i].h.done() && !qs[*i].dropped && !qs[*i].answered && flying[peer].contains_key(&qs[*i].tag)).collect();
                if !c.is_empty() {
                    let q = &mut qs[c[*k as usize % c.len()]];
                    q.answered = true;
                    let (tid, qid) = flying[peer][&q.tag];
                    let data = sized_query(q.tag, 40, 10);
                    let out = Out::new(neg(&tid), &wrap_answer(&qid, &sized_answer(&data)), &[], SYMBOL);
                    ps[peer].rl(&Rl::Complete { id: tid, part: 0 });
                    ps[peer].rl(&out.msg(0, 0));
                    settle().await;
                    advance(30, 5).await;
                }
            }
            C3::Drop { k } => {
                let c: Vec<usize> = (0..qs.len()).filter(|i| !qs[*i].h.done() && !qs[*i].dropped).collect();
                if !c.is_empty() {
                    let q = &mut qs[c[*k as usize % c.len()]];
                    q.dropped = true;
                    q.h.h.abort();
                }
            }
            C3::Gc => {}
            C3::Time { ms } => advance(*ms as u64, 10).await,
        }
        settle().await;
        // transfers seen by the remote sides
        for (i, p) in ps.iter_mut().enumerate() {
            until(|| {
                for m in p.poll_rl() {
                    let mut x = In::default();
                    x.take(&m);
                    if let (Rl::Part { id, .. }, Some((qid, _, _, d))) = (&m, parse_query(&x.data)) {
                        flying[i].entry(u64::from_le_bytes(d[8..16].try_into().unwrap())).or_insert((*id, qid));
                    }
                }
                let live = qs.iter().filter(|q| q.peer == i && !q.h.done() && !q.dropped);
                let n = live.clone().count();
                live.filter(|q| flying[i].contains_key(&q.tag)).count() >= n.min(*max)
            })
            .await;
        }
        for i in 0..3 {
            let live: Vec<&Q3> = qs.iter().filter(|q| q.peer == i && !q.h.done() && !q.dropped).collect();
            let flying_now: Vec<bool> = live.iter().map(|q| flying[i].contains_key(&q.tag)).collect();
            let n = flying_now.iter().filter(|x| **x).count();
            check!(n <= *max, "{n} queries to one peer are in flight at once, the maximum is {max}");
            check!(n == live.len().min(*max), "only {n} of {} queries to a peer are started, the maximum is {max}", live.len());
            // in the order in which they were asked
            if let Some(w) = flying_now.iter().position(|x| !x) {
                check!(flying_now[w..].iter().all(|x| !x), "a later query was started before an earlier one");
                nt = true;
            }
            // each one ends at its own time
            let _ = live;
        }
        if let C3::Gc = op {
            let before = a.r.metrics().peer_count;
            check!(before == limiters.len(), "{before} limiters for {} peers that were asked", limiters.len());
            a.r.gc();
            limiters.retain(|i| qs.iter().any(|q| q.peer == *i && !q.h.done() && !q.dropped));
            let after = a.r.metrics().peer_count;
            check!(after == limiters.len(), "{after} limiters are left after the collection, {} peers have queries in flight", limiters.len());
        }
    }
    for q in &qs {
        match q.h.get() {
            Some((_, Ok((Some(x), _)))) => check!(q.answered && x == sized_answer(&sized_query(q.tag, 40, 10)), "a query got an answer that was not sent"),
            Some((_, Ok((None, _)))) => check!(!q.answered, "a query that was answered got nothing"),
            Some((_, Err(e))) => viol!("a query failed: {e}"),
            None => {}
        }
    }
    // everything ends: the waiting ones one after the other
    let rest = qs.iter().filter(|q| !q.h.done() && !q.dropped).count() as u64;
    let wait = (rest / *max as u64 + 1) * (max_ms + 100) + 2 * max_ms + 100;
    let end = clock::ms() + wait;
    while clock::ms() < end && a.table() > 0 {
        clock::advance_ms(20);
        yields(4).await;
    }
    settle().await;
    check!(qs.iter().all(|q| q.dropped || q.h.done()), "a query has not ended after {wait} ms");
    check!(a.table() == 0, "{} transfers are left after {wait} ms", a.table());
    a.r.gc();
    check!(a.r.metrics().peer_count == 0, "{} limiters are left", a.r.metrics().peer_count);
    Ok(nt)
}

/// Nothing of a node stays when it is shut down and dropped with transfers under way
#[derive(Clone, Debug)]
struct Left {
    seed: u64,
    min_ms: u64,
    max_ms: u64,
    /// incomplete queries of the remote side, complete ones (answers are not confirmed), own ones (aborted or not)
    partial: u8,
    whole: u8,
    own: Vec<bool>,
    later: u32,
}
fn left_gen() -> impl Strategy<Value = Left> {
    (any::<u32>(), 50u64..800, 0u64..4000, 0u8..3, 0u8..3, prop::collection::vec(any::<bool>(), 0..4), 0u32..3000)
        .prop_map(|(seed, min_ms, more, partial, whole, own, later)| Left { seed: seed as u64, min_ms, max_ms: min_ms + more, partial, whole, own, later })
}
async fn r03_left(c: &Left) -> CaseResult {
    let ro = rldp::NodeOptions { query_min_timeout_ms: c.min_ms, query_max_timeout_ms: c.max_ms, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    for i in 0..c.partial + c.whole {
        let tid = sha256(&[c.seed.to_le_bytes(), [i; 8]].concat());
        let q = sized_query(c.seed + i as u64, if i < c.partial { 5000 } else { 100 }, 3000);
        let out = Out::new(tid, &wrap_query(&sha256(&tid), 1 << 20, clock::unix() + 10, &q), &[], 768);
        let n = if i < c.partial { 2 } else { out.parts[0].k() + 2 };
        for esi in 0..n {
            p.rl(&out.msg(0, esi));
        }
        settle().await;
    }
    let mut open = vec![];
    for abort in &c.own {
        open.push((a.spawn(&p.key().id, sized_query(c.seed + 77, 2000, 10), None), *abort));
    }
    settle().await;
    advance(c.later as u64, 50).await;
    for (h, abort) in &open {
        if *abort {
            h.h.abort();
        }
    }
    settle().await;
    let busy = a.table();
    let (wa, wr) = (std::sync::Arc::downgrade(&a.s.node), std::sync::Arc::downgrade(&a.r));
    a.s.node.shutdown();
    drop(a);
    // the transfers end (at most twice the completion time), an answer may be under way before
    let most = 4 * c.max_ms + 4 * c.max_ms + 3000;
    advance(most, 25).await;
    check!(until(|| wr.strong_count() == 0 && wa.strong_count() == 0).await, "{} ms after the node was shut down and dropped it is still there ({} / {} references; {busy} transfers were in the table)", most, wr.strong_count(), wa.strong_count());
    for (h, abort) in &open {
        check!(*abort || h.done(), "an own query has not ended {most} ms after the node was shut down");
    }
    Ok(busy > 0)
}

pub fn r03_run(c: &mut Ctx) {
    c.scenario("own_queries", "a query ends otherwise than by its answer", 500, ends, |c| run(r03_ends(c)));
    c.scenario("remote_queries", "a transfer ends otherwise than by a received answer", 500, incoming, |c| run(r03_incoming(c)));
    c.scenario("dropped", "transfers were under way", 150, left_gen, |c| run(r03_left(c)));
    c.scenario("queries_at_once", "more than three threads", 60, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::queries_at_once(v)));
    c.scenario("limits", "queries had to wait for others", 160, conc, |c| run(r03_conc(c)));
}

// ------------------------------------------------------------------ R04

/// Contents of a payload
#[derive(Clone, Debug)]
enum Body {
    Random,
    Same(u8),
    /// random but ends with the tag of compressed data
    Tagged,
    /// a compressed blob with one byte changed
    Broken(u16, u8),
    /// a compressed blob cut at the front, with the tag
    Cut(u16),
    /// wrong length in the trailer
    Length(i8),
    Repeated(u8),
}

fn body() -> impl Strategy<Value = Body> {
    prop_oneof![
        3 => Just(Body::Random),
        2 => any::<u8>().prop_map(Body::Same),
        2 => Just(Body::Tagged),
        2 => (any::<u16>(), 1u8..255).prop_map(|(a, b)| Body::Broken(a, b)),
        1 => any::<u16>().prop_map(Body::Cut),
        1 => (1i8..100).prop_map(Body::Length),
        2 => (1u8..60).prop_map(Body::Repeated),
    ]
}
fn body_len() -> impl Strategy<Value = usize> {
    prop_oneof![3 => 0usize..20, 4 => 240usize..275, 3 => 0usize..2000, 1 => 2000usize..50_000]
}

/// Bytes of that kind which are not a valid compressed blob; at least `min` long
pub fn body_of(b: &Body, tag: u64, len: usize, min: usize) -> Vec<u8> {
    let len = len.max(min);
    let mut d = match b {
        Body::Random => payload(tag, len),
        Body::Same(x) => vec![*x; len],
        Body::Tagged => {
            let mut d = payload(tag, len);
            if let Some(x) = d.last_mut() {
                *x = 0x80;
            }
            d
        }
        Body::Broken(at, x) => {
            let mut d = compress(&payload(tag, len));
            let n = d.len() - 1;
            d[*at as usize % n] ^= x;
            d
        }
        Body::Cut(n) => {
            let d = compress(&payload(tag, len));
            let n = 1 + *n as usize % (d.len() - 1);
            d[n..].to_vec()
        }
        Body::Length(x) => {
            let p = payload(tag, len);
            let mut out = zstd::stream::encode_all(&p[..], 3).unwrap();
            out.extend(zstd::stream::encode_all(&((p.len() as u32).wrapping_add(*x as u32)).to_be_bytes()[..], 3).unwrap());
            out.push(0x80);
            out
        }
        Body::Repeated(k) => payload(tag, *k as usize).into_iter().cycle().take(len).collect(),
    };
    while d.len() < min {
        d.insert(0, 9);
    }
    if decompress(&d).is_some() {
        // by chance a valid blob
        d = payload(tag, len.max(1));
        *d.last_mut().unwrap() = 1;
    }
    d
}

#[derive(Clone, Debug)]
struct Pack {
    seed: u64,
    force: (bool, bool),
    q: (Body, usize),
    a: (Body, usize),
    /// what a reference peer does: compressed, level, both frames in one
    packed: bool,
    level: i32,
    tiny: bool,
}

fn pack() -> impl Strategy<Value = Pack> {
    (any::<u32>(), any::<(bool, bool)>(), (body(), body_len()), (body(), body_len()), any::<bool>(), 1i32..12, any::<bool>())
        .prop_map(|(seed, force, q, a, packed, level, tiny)| Pack { seed: seed as u64, force, q, a, packed, level, tiny })
}

/// Any valid compressed form of `d`
fn pack_as(d: &[u8], level: i32, tiny: bool) -> Vec<u8> {
    let mut out = vec![];
    if tiny {
        // several frames
        for x in d.chunks(d.len().max(1).div_ceil(3)) {
            out.extend(zstd::stream::encode_all(x, level).unwrap());
        }
    } else {
        out.extend(zstd::stream::encode_all(d, level).unwrap());
    }
    out.extend(zstd::stream::encode_all(&(d.len() as u32).to_be_bytes()[..], level).unwrap());
    out.push(0x80);
    out
}

async fn r04_two(c: &Pack) -> CaseResult {
    let q = body_of(&c.q.0, c.seed, c.q.1, 4);
    let ans = body_of(&c.a.0, c.seed + 1, c.a.1, 0);
    let a2 = ans.clone();
    let o = |f| rldp::NodeOptions { force_compression: f, ..Default::default() };
    let a = RlSut::with(&Key::nth(c.seed * 2), ip(0), opts(), o(c.force.0), sized_reply)?;
    let b = RlSut::with(&Key::nth(c.seed * 2 + 1), ip(1), opts(), o(c.force.1), move |_| Reply::Answer(a2.clone()))?;
    need!(a.s.add_peer(b.s.key(), b.s.addr) && b.s.add_peer(a.s.key(), a.s.addr), "add_peer");
    let mut w = World::new(&[a.s.addr, b.s.addr], NetCfg::default())?;
    let h = a.spawn(&b.s.keys[0].id, q.clone(), None);
    w.run(15_000, 5, || h.done()).await;
    let ev = b.take();
    check!(ev.len() == 1 && ev[0].data == q, "a query of {} bytes ({:?}, compression {:?}) reached the handler as {:?} bytes", q.len(), c.q.0, c.force, ev.iter().map(|e| e.data.len()).collect::<Vec<_>>());
    check!(ev[0].constructor == u32::from_le_bytes(q[..4].try_into().unwrap()), "constructor of the query");
    match h.get() {
        Some((_, Ok((Some(x), _)))) => check!(x == ans, "an answer of {} bytes ({:?}, compression {:?}) reached the caller as {} bytes", ans.len(), c.a.0, c.force, x.len()),
        o => viol!("a query was not answered: {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
    }
    Ok(c.force.0 || c.force.1 || !matches!(c.q.0, Body::Random))
}

async fn r04_wire(c: &Pack) -> CaseResult {
    let q = body_of(&c.q.0, c.seed, c.q.1, 4);
    let ans = body_of(&c.a.0, c.seed + 1, c.a.1, 0);
    let a2 = ans.clone();
    let force = c.force.0;
    let ro = rldp::NodeOptions { force_compression: force, ..Default::default() };
    let a = RlSut::with(&Key::nth(c.seed * 2), LOCAL, opts(), ro, move |_| Reply::Answer(a2.clone()))?;
    let mut p = RefPeer::new(Key::nth(c.seed * 2 + 1), &a.s);
    p.connect().await?;
    a.s.take();
    // the form a node may give to data on the wire
    let form = |d: &[u8], wire: &[u8], packed: bool, what: &str| -> Result<(), Fail> {
        if !packed {
            check!(wire == d, "{what} of {} bytes is sent altered ({} bytes) although nothing asks for compression", d.len(), wire.len());
        } else if wire != d {
            check!(decompress(wire).as_deref() == Some(d), "{what} of {} bytes is sent as {} bytes that do not decompress to it", d.len(), wire.len());
        } else {
            check!(d.len() <= 256, "{what} of {} bytes is sent uncompressed although compression is on", d.len());
        }
        Ok(())
    };
    if c.force.1 {
        // the node asks
        let h = a.spawn(&p.key().id, q.clone(), None);
        let mut inc = In::default();
        let mut tid = None;
        for _ in 0..300 {
            settle().await;
            for m in p.poll_rl() {
                if let Some(r) = inc.take(&m) {
                    p.rl(&r);
                }
                tid = Some(*m.id());
            }
            if inc.done {
                break;
            }
            clock::advance_ms(10);
        }
        check!(inc.done, "the query did not arrive");
        let Some((qid, _, _, wire)) = parse_query(&inc.data) else { viol!("not a query") };
        form(&q, &wire, force, "a query")?;
        let d = if c.packed { pack_as(&ans, c.level, c.tiny) } else { ans.clone() };
        let out = Out::new(neg(&tid.unwrap()), &wrap_answer(&qid, &d), &[], SYMBOL);
        for k in 0..out.parts[0].k() + 5 {
            p.rl(&out.msg(0, k));
        }
        settle().await;
        advance(30, 5).await;
        match h.get() {
            Some((_, Ok((Some(x), _)))) => check!(x == ans, "an answer of {} bytes (compressed: {}) reached the caller as {} bytes", ans.len(), c.packed, x.len()),
            o => viol!("a query was not answered: {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
        }
    } else {
        let d = if c.packed { pack_as(&q, c.level, c.tiny) } else { q.clone() };
        let tid = sha256(&[1]);
        let out = Out::new(tid, &wrap_query(&[6; 32], 10_000_000, clock::unix() + 10, &d), &[], SYMBOL);
        for k in 0..out.parts[0].k() + 5 {
            p.rl(&out.msg(0, k));
        }
        check!(until(|| a.seen() > 0).await, "a query was not delivered");
        let ev = a.take();
        check!(ev.len() == 1 && ev[0].data == q, "a query of {} bytes (compressed: {}) reached the handler as {:?} bytes", q.len(), c.packed, ev.iter().map(|e| e.data.len()).collect::<Vec<_>>());
        let mut inc = In::default();
        for _ in 0..300 {
            settle().await;
            for m in p.poll_rl() {
                if *m.id() == neg(&tid) {
                    if let Some(r) = inc.take(&m) {
                        p.rl(&r);
                    }
                }
            }
            if inc.done {
                break;
            }
            clock::advance_ms(10);
        }
        check!(inc.done, "the answer did not arrive");
        let Some((_, wire)) = parse_answer(&inc.data) else { viol!("not an answer") };
        form(&ans, &wire, force || c.packed, "an answer")?;
    }
    Ok(c.packed || force || !matches!(c.q.0, Body::Random))
}

/// A message that becomes much larger when it is decompressed
#[derive(Clone, Debug)]
struct Bomb {
    seed: u64,
    /// 0 RLDP query, 1 RLDP answer, 2 broadcast, 3 large broadcast
    way: u8,
    mib: u32,
    extra: i32,
    max: u32,
    byte: u8,
    /// nothing tells the true length
    lie: bool,
}
const MIB: usize = 1 << 20;
fn bomb() -> impl Strategy<Value = Bomb> {
    (
        any::<u16>(),
        0u8..4,
        prop_oneof![3 => 1u32..50, 2 => Just(64u32), 3 => 400u32..900],
        -3i32..4,
        prop_oneof![4 => Just(10u32), 1 => Just(0u32), 1 => 65u32..100],
        0x10u8..0x80,
        prop::bool::weighted(0.2),
    )
        .prop_map(|(seed, way, mib, extra, max, byte, lie)| Bomb { seed: seed as u64, way, mib, extra, max: max.max(1), byte, lie })
}
/// A zstd frame of `n` equal bytes (blocks of one byte with a count), then the length, then the tag
fn inflated(n: usize, byte: u8, lie: bool) -> Vec<u8> {
    let mut out = vec![0x28, 0xb5, 0x2f, 0xfd, 0x00, 0x50];
    let mut left = n;
    while left > 0 {
        let k = left.min(128 * 1024);
        left -= k;
        let h = ((k as u32) << 3) | 2 | (left == 0) as u32;
        out.extend_from_slice(&h.to_le_bytes()[..3]);
        out.push(byte);
    }
    let len = if lie { n as u32 / 2 } else { n as u32 };
    out.extend(zstd::stream::encode_all(&len.to_be_bytes()[..], 3).unwrap());
    out.push(0x80);
    out
}
async fn r04_bomb(c: &Bomb) -> CaseResult {
    let n = (c.mib as usize * MIB) as i64 + c.extra as i64;
    let n = n as usize;
    let z = inflated(n, c.byte, c.lie);
    let limit = if c.way < 2 { (c.max as usize * MIB).max(64 * MIB) } else { 64 * MIB };
    let ro = rldp::NodeOptions { max_answer_size: c.max * MIB as u32, query_max_timeout_ms: 5000, ..Default::default() };
    let ovid = ov_id(c.seed, 0);
    let (mut ov, mut rs) = (None, None);
    let s: &Sut = if c.way < 2 {
        rs = Some(RlSut::with(&Key::nth(c.seed * 2), LOCAL, opts(), ro, |e| Reply::Answer(vec![e.data.len() as u8; 4]))?);
        &rs.as_ref().unwrap().s
    } else {
        ov = Some(Ov::new(&Key::nth(c.seed * 2), &[(ovid, oopts())])?);
        &ov.as_ref().unwrap().s
    };
    let mut p = RefPeer::new(Key::nth(c.seed * 2 + 1), s);
    p.connect().await?;
    s.take();
    let author = Key::nth(c.seed * 2 + 9);
    let date = clock::unix();
    let base = alloc::live();
    alloc::mark();
    let fits = n <= limit && !c.lie;
    let what = ["an RLDP query", "an RLDP answer", "a broadcast", "a large broadcast"][c.way as usize];
    let got: Option<Vec<u8>>;
    match c.way {
        0 => {
            let out = Out::new(sha256(&[1]), &wrap_query(&[6; 32], 10_000, clock::unix() + 10, &z), &[], SYMBOL);
            for k in 0..out.parts[0].k() + 5 {
                p.rl(&out.msg(0, k));
                settle().await;
            }
            until(|| !s.events.lock().unwrap().is_empty() || !fits).await;
            got = s.take().pop().map(|e| e.data);
        }
        1 => {
            let h = rs.as_ref().unwrap().spawn(&p.key().id, payload(c.seed, 40), None);
            let mut inc = In::default();
            let mut tid = None;
            until(|| {
                for m in p.poll_rl() {
                    if let Some(r) = inc.take(&m) {
                        p.rl(&r);
                    }
                    tid = Some(*m.id());
                }
                inc.done
            })
            .await;
            let Some((qid, _, _, _)) = parse_query(&inc.data) else { viol!("not a query") };
            let out = Out::new(neg(&tid.unwrap()), &wrap_answer(&qid, &z), &[], SYMBOL);
            for k in 0..out.parts[0].k() + 5 {
                p.rl(&out.msg(0, k));
                settle().await;
            }
            for _ in 0..200 {
                if h.done() {
                    break;
                }
                advance(50, 10).await;
            }
            check!(h.done(), "the query does not end");
            got = match h.get() {
                Some((_, Ok((Some(x), _)))) => Some(x),
                _ => None,
            };
        }
        2 => {
            let mut b = Bc::new(&author, 1, if fits { vec![c.byte; n] } else { vec![] }.as_slice(), date);
            b.data = z.clone();
            alloc::mark();
            send_custom(&mut p, &wrap(&ovid, &b.tl())).await?;
            got = ov.as_ref().unwrap().drain(0).await.pop().map(|x| x.0);
        }
        _ => {
            let mut f = Sender::new(&author, &z, 1, false, SYMBOL);
            f.hash = sha256(&if fits { vec![c.byte; n] } else { vec![1] });
            alloc::mark();
            for k in 0..f.sym.k() + 3 {
                p.send_msg(false, Msg::Custom(wrap(&ovid, &f.part(k, date).tl())));
                settle().await;
            }
            mark(&mut p).await?;
            got = ov.as_ref().unwrap().drain(0).await.pop().map(|x| x.0);
        }
    }
    let used = (alloc::peak() - base) as usize;
    if n > limit {
        check!(used < 2 * limit + 40 * MIB, "{what} of {} bytes made the node reserve {used} bytes, at most {limit} are allowed", z.len());
    }
    if fits {
        let Some(g) = got else { viol!("{what} of {n} bytes ({} compressed) is not delivered", z.len()) };
        check!(g == vec![c.byte; n], "{what} of {n} bytes is delivered altered ({} bytes)", g.len());
    } else if let Some(g) = got {
        // what is no valid compressed blob is delivered as it is over RLDP
        check!(c.lie && n <= limit && c.way < 2 && g == z, "{what} of {} bytes that is {n} bytes when decompressed is delivered as {} bytes", z.len(), g.len());
    }
    // the node still works
    let q = payload(c.seed + 5, 50);
    p.send_msg(false, Msg::Query { id: [3; 32], data: q.clone() });
    check!(until(|| s.events.lock().unwrap().iter().any(|e| e.data == q)).await, "a query is not handled any more");
    Ok(n >= limit || n > 30 * MIB)
}

pub fn r04_run(c: &mut Ctx) {
    c.scenario("two_nodes", "compression is on at one side or the payload looks like a compressed one", 2500, pack, |c| run(r04_two(c)));
    c.scenario("wire", "compression is on at one side or the payload looks like a compressed one", 2500, pack, |c| run(r04_wire(c)));
    c.scenario("inflated", "the data is larger than 30 MiB when decompressed", 240, bomb, |c| run(r04_bomb(c)));
}

// ------------------------------------------------------------------ R05

#[derive(Clone, Debug)]
struct Hostile {
    id: u8,
    kind: u8,
    fields: (u32, u32, u32, u32, u64, u32),
    len: u16,
    from: bool,
    /// raw mutation of the encoded message
    flip: Option<(u16, u8)>,
    cut: Option<u16>,
}
fn edge32() -> impl Strategy<Value = u32> {
    prop_oneof![
        4 => 0u32..4,
        2 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31, 0xffffff, 0x1000000, 56403, 56404, 65535, 65536, 768, 8, 64, 72, 1000, 1001, 2_000_000, 2_000_001]),
        2 => 0u32..5000,
        1 => any::<u32>()
    ]
}
fn hostile() -> impl Strategy<Value = Hostile> {
    let e64 = prop_oneof![3 => 0u64..4000, 1 => any::<u64>(), 1 => prop::sample::select(vec![u64::MAX, 1 << 32, 1 << 31, 10_485_760, 10_485_761])];
    (
        (any::<u8>(), 0u8..6, any::<bool>()),
        (edge32(), prop_oneof![3 => Just(768u32), 1 => edge32()], edge32(), edge32(), e64, edge32()),
        prop_oneof![2 => Just(768u16), 1 => 0u16..2000],
        prop::option::weighted(0.15, (any::<u16>(), 1u8..255)),
        prop::option::weighted(0.1, any::<u16>()),
    )
        .prop_map(|((id, kind, from), fields, len, flip, cut)| Hostile { id, kind, fields, len, from, flip, cut })
}

#[derive(Clone, Debug)]
struct Wild {
    seed: u64,
    bad: Vec<Hostile>,
    len: usize,
    ans: usize,
    ask: (usize, usize),
    pace: u8,
    max: u32,
}

async fn r05_wild(c: &Wild) -> CaseResult {
    let ro = rldp::NodeOptions { query_max_timeout_ms: 3000, max_answer_size: c.max, ..Default::default() };
    let a = RlSut::new(&Key::nth(c.seed), ro)?;
    let mut good = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    let mut bad = [RefPeer::new(Key::nth(c.seed + 2), &a.s), RefPeer::new(Key::nth(c.seed + 3), &a.s)];
    good.connect().await?;
    for b in &mut bad {
        b.connect().await?;
    }
    // the node asks the hostile peer as well
    let own: Vec<Asked> = (0..2).map(|i| a.spawn(&bad[0].key().id, sized_query(100 + i, 30 + 800 * i as usize, 10), None)).collect();
    // the honest transfers
    let q = sized_query(c.seed, c.len, c.ans);
    let tid = sha256(&[1, 2, 3]);
    let ask = Out::new(tid, &wrap_query(&[6; 32], 10_000_000, clock::unix() + 10, &q), &[700, 900, 2000], SYMBOL);
    let q2 = sized_query(c.seed + 1, c.ask.0, c.ask.1);
    let h = a.spawn(&good.key().id, q2.clone(), None);
    let mut todo: Vec<Rl> = vec![];
    for (i, s) in ask.parts.iter().enumerate() {
        for esi in 0..s.k() + 4 {
            todo.push(ask.msg(i as u32, esi));
        }
    }
    todo.reverse();
    let mut inc: BTreeMap<B32, In> = BTreeMap::new();
    let mut reply: Vec<Rl> = vec![];
    let mut asked = false;
    let mut ids: Vec<B32> = (0..4u8).map(|i| sha256(&[i, 77])).collect();
    ids.extend([[0; 32], [0xff; 32], neg(&sha256(&[0, 77]))]);
    let mut bad_i = 0;
    let t0 = clock::ms();
    let mut end_bad = 0;
    loop {
        // hostile messages
        for _ in 0..c.pace {
            let Some(x) = c.bad.get(bad_i) else { break };
            bad_i += 1;
            let id = ids[x.id as usize % ids.len()];
            let (f, l) = (x.fields, x.len as usize);
            let m = match x.kind {
                0..=3 => Rl::Part { id, total_len: f.0, packet_len: f.1, packet_count: f.2, part: f.3, total: f.4, seqno: f.5, data: payload(f.0 as u64, l) },
                4 => Rl::Confirm { id, part: f.3, seqno: f.5 },
                _ => Rl::Complete { id, part: f.3 },
            };
            let mut d = m.encode();
            if let Some((at, v)) = x.flip {
                let n = d.len();
                d[at as usize % n] ^= v;
            }
            if let Some(n) = x.cut {
                let n = (n as usize % d.len()).max(4);
                d.truncate(n);
            }
            let b = &mut bad[x.from as usize];
            b.send_msg(false, Msg::Custom(d));
            end_bad = clock::ms();
        }
        settle().await;
        for b in bad.iter_mut() {
            for m in b.poll_rl() {
                // ids of the node's own queries are known to the hostile peer
                if let Rl::Part { id, .. } = m {
                    if !ids.contains(&id) && ids.len() < 14 {
                        ids.push(id);
                        ids.push(neg(&id));
                    }
                }
            }
        }
        // honest side
        if let Some(m) = todo.pop() {
            good.rl(&m);
        }
        for m in reply.drain(..) {
            good.rl(&m);
        }
        for m in good.poll_rl() {
            if let Rl::Part { id, .. } = &m {
                let e = inc.entry(*id).or_default();
                if let Some(r) = e.take(&m) {
                    reply.push(r);
                }
                if e.done && *id != neg(&tid) && !asked {
                    asked = true;
                    let Some((qid, _, _, d)) = parse_query(&e.data) else { viol!("not a query") };
                    check!(d == q2, "the node's query arrived altered");
                    let out = Out::new(neg(id), &wrap_answer(&qid, &sized_answer(&d)), &[500, 800], SYMBOL);
                    for (i, s) in out.parts.iter().enumerate() {
                        for esi in 0..s.k() + 4 {
                            reply.push(out.msg(i as u32, esi));
                        }
                    }
                }
            }
        }
        let over = h.done() && inc.get(&neg(&tid)).map(|x| x.done).unwrap_or(false);
        if over && bad_i >= c.bad.len() && todo.is_empty() {
            break;
        }
        check!(clock::ms() - t0 < 6000, "honest transfers do not complete: own query {}, asked {asked}, answer {:?}", h.done(), inc.get(&neg(&tid)).map(|x| x.data.len()));
        clock::advance_ms(if todo.is_empty() { 10 } else { 1 });
    }
    match h.get() {
        Some((_, Ok((Some(x), _)))) => check!(x == sized_answer(&q2), "an honest answer reached the caller altered"),
        o => viol!("an honest answer did not reach the caller: {:?}", o.map(|x| x.1.map(|y| y.0.map(|z| z.len())))),
    }
    let Some((qid, d)) = parse_answer(&inc[&neg(&tid)].data) else { viol!("not an answer") };
    check!(qid == [6; 32] && d == sized_answer(&q), "an honest query got an altered answer");
    let ev = a.take();
    check!(ev.iter().filter(|e| e.peer == good.key().id).map(|e| &e.data).collect::<Vec<_>>() == vec![&q], "the handler saw other honest queries than were sent");
    // nothing hostile stays
    let end = clock::ms().max(end_bad) + 4 * 3000 + 3500;
    while clock::ms() < end && !(own.iter().all(|o| o.done()) && a.table() == 0) {
        clock::advance_ms(20);
        yields(4).await;
    }
    check!(own.iter().all(|o| o.done()), "a query to the hostile peer never ends");
    check!(a.table() == 0, "{} transfers are left", a.table());
    // and the node still serves
    let q3 = sized_query(c.seed + 3, 30, 20);
    let out = Out::new(sha256(&[9]), &wrap_query(&[6; 32], 10_000_000, clock::unix() + 10, &q3), &[], SYMBOL);
    bad[0].rl(&out.msg(0, 0));
    check!(until(|| a.s.events.lock().unwrap().iter().any(|e| e.data == q3)).await, "an ordinary query is not delivered any more");
    Ok(c.bad.len() > 3)
}

/// A transfer with parts in between that contradict what was announced
#[derive(Clone, Debug)]
struct Contra {
    seed: u64,
    len: usize,
    slices: Vec<usize>,
    answer: bool,
    /// before which symbol of which part; what differs; by how much
    bad: Vec<(u8, u8, u8, u32, u8)>,
}
async fn r05_contra(c: &Contra) -> CaseResult {
    let a = RlSut::new(&Key::nth(c.seed), rldp::NodeOptions::default())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 1), &a.s);
    p.connect().await?;
    let mut h = None;
    let (whole, tid, want);
    if c.answer {
        h = Some(a.spawn(&p.key().id, sized_query(c.seed, 50, 5), None));
        let mut first = None;
        until(|| {
            for m in p.poll_rl() {
                first.get_or_insert(m);
            }
            first.is_some()
        })
        .await;
        let Some(m @ Rl::Part { .. }) = first else { viol!("the node did not send its query") };
        let mut inc = In::default();
        inc.take(&m);
        need!(inc.done, "one symbol");
        let (qid, ..) = parse_query(&inc.data).ok_or(Fail::Harness("query".into()))?;
        let mut d = payload(c.seed, c.len);
        d.extend([1, 2, 3, 4]);
        whole = wrap_answer(&qid, &d);
        want = d;
        tid = neg(m.id());
    } else {
        want = sized_query(c.seed, c.len, 5);
        whole = wrap_query(&[7; 32], 1000, clock::unix() + 10, &want);
        tid = sha256(&c.seed.to_le_bytes());
    }
    let out = Out::new(tid, &whole, &c.slices, SYMBOL);
    let mut sent = 0;
    for (i, s) in out.parts.iter().enumerate() {
        for esi in 0..s.k() + 3 {
            // nothing was announced before the first symbol of all
            for (n, b) in c.bad.iter().enumerate() {
                if (i == 0 && esi == 0) || b.0 as usize % out.parts.len() != i || (b.1 as u32 % (s.k() + 3)).max(1) != esi {
                    continue;
                }
                let mut m = out.msg(i as u32, esi + b.4 as u32 % 3);
                let Rl::Part { total_len, packet_len, packet_count, total, data, .. } = &mut m else { unreachable!() };
                match b.2 {
                    0 => *total = total.wrapping_add(b.3 as u64),
                    1 => *total_len = total_len.wrapping_add(b.3),
                    2 => *packet_count = packet_count.wrapping_add(b.3),
                    3 => *packet_len = packet_len.wrapping_add(b.3),
                    _ => {
                        *packet_len += 4 * (b.3 % 9 + 1);
                        data.resize(*packet_len as usize, 0);
                    }
                }
                let l = data.len();
                *data = payload(c.seed + 100 + n as u64, l);
                p.rl(&m);
                sent += 1;
                settle().await;
            }
            p.rl(&out.msg(i as u32, esi));
            settle().await;
        }
    }
    for _ in 0..4 {
        advance(10, 5).await;
    }
    let got: Option<Vec<u8>> = match &h {
        Some(h) => match h.get() {
            Some((_, Ok((Some(x), _)))) => Some(x),
            _ => None,
        },
        None => a.take().pop().map(|e| e.data),
    };
    let there = got.is_some();
    if let Some(x) = got {
        check!(x == want, "a transfer with {sent} parts in between that contradict the others is delivered altered");
    } else {
        check!(sent > 0, "an honest transfer is not delivered");
    }
    let q = sized_query(c.seed + 9, 60, 30);
    let out = Out::new(sha256(&[9]), &wrap_query(&[8; 32], 1000, clock::unix() + 10, &q), &[], SYMBOL);
    p.rl(&out.msg(0, 0));
    check!(until(|| a.s.events.lock().unwrap().iter().any(|e| e.data == q)).await, "an ordinary query is not delivered any more");
    Ok(there && sent > 0)
}

pub fn r05_run(c: &mut Ctx) {
    c.scenario("contradictions", "a transfer with contradicting parts in between was delivered", 800, || {
        let by = prop_oneof![2 => 1u32..8, 1 => Just(768u32), 1 => 1u32..3000, 1 => 1u32.., 1 => (1u32..3000).prop_map(|x| x.wrapping_neg())];
        (any::<u32>(), 800usize..9000, prop::collection::vec(900usize..4000, 0..4), any::<bool>(), prop::collection::vec((any::<u8>(), any::<u8>(), 0u8..5, by, any::<u8>()), 0..6))
            .prop_map(|(seed, len, slices, answer, bad)| Contra { seed: seed as u64, len: len / 4 * 4, slices, answer, bad })
    }, |c| run(r05_contra(c)));
    c.scenario("hostile", "more than three hostile messages", 1500, || {
        (any::<u32>(), prop::collection::vec(hostile(), 0..50), 16usize..4000, 0usize..4000, (16usize..4000, 0usize..4000), 1u8..12, prop_oneof![Just(10_485_760u32), Just(5000u32)])
            .prop_map(|(seed, bad, len, ans, ask, pace, max)| Wild { seed: seed as u64, bad, len, ans, ask, pace, max })
    }, |c| run(r05_wild(c)));
}
