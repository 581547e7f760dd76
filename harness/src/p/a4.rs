//! A09-A12
use crate::ov::mark;
use crate::fx::*;
use proptest::prelude::*;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::collections::BTreeMap;
use vcore::alloc;

// ------------------------------------------------------------------ A09

#[derive(Clone, Debug)]
enum Evil {
    Random(Vec<u8>),
    /// starts like a handshake to the node or like a datagram of the channel
    Prefixed { chan: bool, rest: Vec<u8> },
    /// a valid handshake envelope around arbitrary bytes (`point`: kind of the ephemeral key)
    Envelope { point: u8, plain: Vec<u8>, version: Option<u16> },
    /// a valid channel envelope around arbitrary bytes
    ChanEnvelope { plain: Vec<u8>, version: Option<u16>, prio: bool },
    /// an authentic packet cut or damaged inside (before it is sealed)
    Damaged { chan: bool, cut: u16, flip: u16, bit: u8, msgs: Vec<M> },
    Authentic { chan: bool, msgs: Vec<M>, flags: u32 },
    /// parts of a transfer with given (offset, length) and total; `hash`: of what the parts give in order
    Parts { total: u32, parts: Vec<(u32, u16)>, hash: bool, id: u8 },
    /// parts whose contents are an encoded message
    Nested { depth: u8, inner: M },
    Advance(u16),
}

#[derive(Clone, Debug)]
enum M {
    Raw(Vec<u8>),
    Create { point: u8, date: u32 },
    Confirm { point: u8, date: u32 },
    Custom(Vec<u8>),
    Query(Vec<u8>),
    Answer(Vec<u8>),
    Nop,
    Reinit(u32),
    Part { total: u32, offset: u32, len: u16 },
    Truncated(Box<M>, u8),
}

/// Special public keys: small order points, non-canonical and undecodable ones
fn point(k: u8) -> B32 {
    let mut p = [0u8; 32];
    match k % 8 {
        0 => {}
        1 => p[0] = 1,
        2 => p = [0xff; 32],
        3 => {
            p = [0xff; 32];
            p[0] = 0xec;
            p[31] = 0x7f;
        }
        4 => {
            p = [0xff; 32];
            p[0] = 0xed;
            p[31] = 0x7f;
        }
        5 => p[0] = 2,
        6 => p = Key::nth(4242).public,
        _ => {
            p.copy_from_slice(&hex::decode("26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05").unwrap());
        }
    }
    p
}

impl M {
    fn msg(&self, k: u64) -> Msg {
        match self {
            M::Raw(d) => Msg::Raw(d.clone()),
            M::Create { point: p, date } => Msg::Create { key: point(*p), date: *date },
            M::Confirm { point: p, date } => Msg::Confirm { key: point(*p), peer_key: point(p / 8), date: *date },
            M::Custom(d) => Msg::Custom(d.clone()),
            M::Query(d) => Msg::Query { id: sha256(&k.to_le_bytes()), data: d.clone() },
            M::Answer(d) => Msg::Answer { id: sha256(&k.to_le_bytes()), data: d.clone() },
            M::Nop => Msg::Nop,
            M::Reinit(d) => Msg::Reinit(*d),
            M::Part { total, offset, len } => Msg::Part { hash: sha256(&[*total as u8 % 3]), total: *total, offset: *offset, data: payload(k, *len as usize) },
            M::Truncated(m, n) => {
                let mut e = m.msg(k).encode();
                let l = e.len().saturating_sub(*n as usize);
                e.truncate(l);
                Msg::Raw(e)
            }
        }
    }
}

fn size() -> impl Strategy<Value = u32> {
    prop_oneof![
        3 => 0u32..3000,
        2 => prop::sample::select(vec![0u32, 1, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1, 1 << 30, 0x00ff_ffff]),
        1 => any::<u32>(),
    ]
}

fn m() -> impl Strategy<Value = M> {
    let leaf = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..40).prop_map(M::Raw),
        2 => (any::<u8>(), prop_oneof![Just(0u32), Just(u32::MAX), Just(1_700_000_000), any::<u32>()]).prop_map(|(point, date)| M::Create { point, date }),
        2 => (any::<u8>(), any::<u32>()).prop_map(|(point, date)| M::Confirm { point, date }),
        2 => prop::collection::vec(any::<u8>(), 0..12).prop_map(M::Custom),
        2 => prop::collection::vec(any::<u8>(), 0..12).prop_map(M::Query),
        1 => Just(W::new().u32(id::ping()).raw(&[1, 2]).done()).prop_map(M::Query),
        1 => prop::collection::vec(any::<u8>(), 0..12).prop_map(M::Answer),
        1 => Just(M::Nop),
        1 => any::<u32>().prop_map(M::Reinit),
        3 => (size(), size(), 0u16..600).prop_map(|(total, offset, len)| M::Part { total, offset, len }),
    ];
    (leaf, prop::option::weighted(0.15, 1u8..40)).prop_map(|(l, t)| match t {
        Some(n) => M::Truncated(Box::new(l), n),
        None => l,
    })
}

fn evil() -> impl Strategy<Value = Evil> {
    let bytes = || prop::collection::vec(any::<u8>(), 0..160);
    let ver = || prop_oneof![2 => Just(None), 2 => Just(Some(0u16)), 1 => any::<u16>().prop_map(Some)];
    // offsets that continue each other (or nearly) and lengths that add up to the total
    let parts = (1u32..1200, prop::collection::vec((prop_oneof![3 => 0u32..1200, 1 => size()], prop_oneof![2 => Just(0u16), 3 => 0u16..700]), 1..6)).prop_map(|(total, p)| (total, p));
    let exact = (prop::collection::vec((0u16..300, any::<bool>()), 1..6), -2i64..3).prop_map(|(l, off)| {
        // a chain of parts; some are repeated with another length
        let mut at = 0u32;
        let mut out = vec![];
        for (n, again) in l {
            out.push((at, n));
            if again {
                out.push((at, 0));
                out.push((at + n as u32 / 2, n / 2));
            }
            at += n as u32;
        }
        let total = out.iter().map(|x| x.1 as i64).sum::<i64>() + off;
        (total.max(0) as u32, out)
    });
    prop_oneof![
        1 => bytes().prop_map(Evil::Random),
        1 => prop::collection::vec(any::<u8>(), 1400..2100).prop_map(Evil::Random),
        2 => (any::<bool>(), bytes()).prop_map(|(chan, rest)| Evil::Prefixed { chan, rest }),
        2 => (any::<u8>(), bytes(), ver()).prop_map(|(point, plain, version)| Evil::Envelope { point, plain, version }),
        2 => (bytes(), ver(), any::<bool>()).prop_map(|(plain, version, prio)| Evil::ChanEnvelope { plain, version, prio }),
        3 => (any::<bool>(), any::<u16>(), any::<u16>(), 0u8..8, prop::collection::vec(m(), 0..3)).prop_map(|(chan, cut, flip, bit, msgs)| Evil::Damaged { chan, cut, flip, bit, msgs }),
        5 => (any::<bool>(), prop::collection::vec(m(), 0..5), prop_oneof![4 => Just(0u32), 1 => any::<u32>()]).prop_map(|(chan, msgs, flags)| Evil::Authentic { chan, msgs, flags }),
        4 => (prop_oneof![parts.boxed(), exact.boxed()], any::<bool>(), 0u8..3).prop_map(|((total, parts), hash, id)| Evil::Parts { total, parts, hash, id }),
        1 => (1u8..6, m()).prop_map(|(depth, inner)| Evil::Nested { depth, inner }),
        2 => (0u16..5000).prop_map(Evil::Advance),
    ]
}

#[derive(Clone, Debug)]
struct A09Case {
    seed: u64,
    signed: bool,
    history: bool,
    ops: Vec<Evil>,
}

async fn a09(c: &A09Case) -> CaseResult {
    let mut o = opts();
    o.packet_signature_required = c.signed;
    o.packet_history_enabled = c.history;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let mut good = RefPeer::new(Key::nth(c.seed + 5), &s);
    let mut bad = RefPeer::new(Key::nth(c.seed + 6), &s);
    good.connect().await?;
    bad.connect().await?;
    s.take();
    let live0 = alloc::live();
    let mut k = c.seed * 1000;
    let mut sent_bytes = 0usize;
    let mut nt = false;
    for op in &c.ops {
        k += 1;
        let mut out: Vec<Vec<u8>> = vec![];
        match op {
            Evil::Random(d) => out.push(d.clone()),
            Evil::Prefixed { chan, rest } => {
                let mut d = if *chan { channel_id(&bad.link.chan.as_ref().unwrap().out[k as usize % 2]).to_vec() } else { s.keys[0].id.to_vec() };
                d.extend_from_slice(rest);
                out.push(d);
            }
            Evil::Envelope { point: p, plain, version } => {
                if p % 3 == 0 {
                    // an ephemeral key of small order: the shared secret is known to anyone
                    let mut d = s.keys[0].id.to_vec();
                    d.extend_from_slice(&point(p / 3));
                    d.extend_from_slice(&sha256(plain));
                    d.extend_from_slice(plain);
                    out.push(d);
                } else {
                    let e = bad.link.next_eph();
                    out.push(seal_handshake(&s.keys[0].public, &e, plain, *version));
                }
            }
            Evil::ChanEnvelope { plain, version, prio } => out.push(bad.link.chan.as_ref().unwrap().seal(*prio, plain, *version)),
            Evil::Damaged { chan, cut, flip, bit, msgs } => {
                let ms: Vec<Msg> = msgs.iter().map(|x| x.msg(k)).collect();
                let mut p = if *chan { bad.link.base(k % 2 == 0, ms) } else { bad.link.handshake_contents(ms) };
                let me = bad.link.me.clone();
                if !*chan || k % 3 == 0 {
                    p.sign(&me);
                }
                let mut e = p.encode();
                if *cut % 2 == 0 {
                    e.truncate(*cut as usize / 2 % (e.len() + 1));
                }
                if !e.is_empty() {
                    let i = *flip as usize % e.len();
                    e[i] ^= 1 << bit;
                }
                if *chan {
                    out.push(bad.link.chan.as_ref().unwrap().seal(k % 2 == 0, &e, None));
                } else {
                    let q = bad.link.next_eph();
                    out.push(seal_handshake(&s.keys[0].public, &q, &e, None));
                }
                nt = true;
            }
            Evil::Authentic { chan, msgs, flags } => {
                let ms: Vec<Msg> = msgs.iter().map(|x| x.msg(k)).collect();
                let mut p = if *chan { bad.link.base(k % 2 == 0, ms) } else { bad.link.handshake_contents(ms) };
                p.single = p.messages.len() == 1;
                p.extra_flags = *flags;
                if !*chan {
                    let me = bad.link.me.clone();
                    p.sign(&me);
                }
                let d = if *chan { bad.link.wrap_channel(k % 2 == 0, &p) } else { bad.link.wrap_handshake(&p) };
                out.push(d);
                nt = true;
            }
            Evil::Parts { total, parts, hash, id } => {
                // what a receiver assembles from the parts in the order of their offsets
                let datas: Vec<(u32, Vec<u8>)> = parts.iter().enumerate().map(|(i, (o, n))| (*o, payload(k + i as u64, *n as usize))).collect();
                let mut sorted = datas.clone();
                sorted.sort();
                let whole: Vec<u8> = sorted.iter().flat_map(|x| x.1.clone()).collect();
                let h = if *hash { sha256(&whole) } else { sha256(&[*id]) };
                for (offset, data) in datas {
                    out.push(bad.link.channel(false, vec![Msg::Part { hash: h, total: *total, offset, data }]));
                }
                nt = true;
            }
            Evil::Nested { depth, inner } => {
                let mut x = inner.msg(k);
                for _ in 0..*depth {
                    x = match x.split(2000).into_iter().next() {
                        Some(x) => x,
                        None => break,
                    };
                }
                out.push(bad.link.channel(false, vec![x]));
            }
            Evil::Advance(ms) => advance(*ms as u64, 500).await,
        }
        for d in out {
            sent_bytes += d.len();
            alloc::mark();
            let before = alloc::live();
            bad.raw(&d);
            settle().await;
            check!(alloc::peak() - before < 2_000_000, "one datagram of {} bytes made the node allocate {} bytes", d.len(), alloc::peak() - before);
        }
        good.poll();
        bad.sock.recv();
    }
    // honest traffic goes on
    while bad.sock.recv().is_some() {}
    s.take();
    good.poll();
    let q = payload(7, 50);
    check!(good.query(false, &q).await == Some(answer_for(&q)), "an honest query over a channel was not answered after hostile traffic of another peer");
    let q = payload(8, 3000);
    check!(good.query(true, &q).await == Some(answer_for(&q)), "a large honest query was not answered after hostile traffic of another peer");
    let mut fresh = RefPeer::new(Key::nth(c.seed + 7), &s);
    let q = payload(9, 50);
    check!(fresh.query(false, &q).await == Some(answer_for(&q)), "a new peer was not answered after hostile traffic of another peer");
    advance(8000, 500).await;
    let n = s.node.metrics().incoming_transfers_len;
    check!(n == 0, "{n} incomplete multipart messages are kept 8 s after the last datagram (transfer timeout 3 s)");
    s.take();
    let grown = alloc::live() - live0;
    check!(grown < 300_000 + sent_bytes as i64 / 4, "the node keeps {grown} bytes more than before {sent_bytes} bytes of hostile traffic");
    Ok(nt)
}

/// Floods of incomplete transfers: all memory comes back
async fn a09_flood(seed: u64, n: usize, len: usize) -> CaseResult {
    let s = Sut::new(&Key::nth(seed), opts())?;
    let mut bad = RefPeer::new(Key::nth(seed + 6), &s);
    bad.connect().await?;
    let live0 = alloc::live();
    for i in 0..n {
        let d = bad.link.channel(false, vec![Msg::Part { hash: sha256(&i.to_le_bytes()), total: 1 << 30, offset: i as u32 % 7, data: payload(1, len) }]);
        bad.raw(&d);
        if i % 16 == 0 {
            settle().await;
        }
    }
    settle().await;
    need!(until(|| s.node.metrics().incoming_transfers_len == n).await, "transfers");
    advance(2000, 500).await;
    check!(s.node.metrics().incoming_transfers_len == n, "transfers ended before the timeout");
    advance(6000, 500).await;
    check!(s.node.metrics().incoming_transfers_len == 0, "incomplete transfers outlive their timeout");
    let grown = alloc::live() - live0;
    // tables keep their capacity
    check!(grown < 200_000 + 400 * n as i64, "{grown} bytes are kept after {n} incomplete transfers of {len} bytes ended");
    Ok(n > 50)
}

pub fn a09_run(c: &mut Ctx) {
    c.scenario(
        "hostile",
        "authenticated hostile content was processed",
        3000,
        || (0u64..100_000, any::<bool>(), any::<bool>(), prop::collection::vec(evil(), 1..12)).prop_map(|(seed, signed, history, ops)| A09Case { seed, signed, history, ops }),
        |c| run(a09(c)),
    );
    c.scenario("flood", "more than 50 incomplete messages", 60, || (0u64..100_000, 1usize..300, 100usize..1000), |c| run(a09_flood(c.0, c.1, c.2)));
}

// ------------------------------------------------------------------ A10

#[derive(Clone, Debug)]
struct Form {
    chan: bool,
    prio: bool,
    version: bool,
    rand: (u8, u8),
    single: bool,
    both: bool,
    from: u8,
    address: u8,
    prio_address: bool,
    seqno: bool,
    confirm: bool,
    recv_ver: Option<u32>,
    recv_prio_ver: Option<u32>,
    reinit: bool,
    signature: bool,
    /// 0 custom, 1 query, 2 nop, 3 a message split in one part
    msgs: Vec<u8>,
}

fn form() -> impl Strategy<Value = Form> {
    (
        (any::<bool>(), any::<bool>(), any::<bool>(), prop_oneof![3 => (0u8..40, 0u8..40), 1 => (0u8..4, 0u8..4)], any::<bool>(), 0u8..3, prop_oneof![2 => Just(0u8), 3 => 1u8..4]),
        (any::<bool>(), any::<bool>(), any::<bool>(), prop::option::of(any::<u32>()), prop::option::of(any::<u32>()), any::<bool>(), any::<bool>(), prop::bool::weighted(0.2)),
        prop::collection::vec(0u8..4, 0..6),
    )
        .prop_map(|((chan, prio, version, rand, single, from, address), (prio_address, seqno, confirm, recv_ver, recv_prio_ver, reinit, signature, both), msgs)| Form {
            chan, prio, version, rand, single, both, from, address, prio_address, seqno, confirm, recv_ver, recv_prio_ver, reinit, signature, msgs,
        })
        // some with as little as possible
        .prop_flat_map(|f| prop_oneof![5 => Just(f.clone()), 1 => Just(Form {
            rand: (f.rand.0 % 4, f.rand.1 % 4), address: 0, prio_address: false, seqno: false, confirm: false, recv_ver: None, recv_prio_ver: None, reinit: false, signature: false,
            msgs: f.msgs.iter().copied().take(1).collect(),
            ..f
        })])
}

async fn a10_in(seed: u64, history: bool, forms: &[Form]) -> CaseResult {
    let mut o = opts();
    o.packet_history_enabled = history;
    let s = Sut::new(&Key::nth(seed), o)?;
    let mut p = RefPeer::new(Key::nth(seed + 60), &s);
    p.connect().await?;
    s.take();
    let mut tag = 0u64;
    for (i, f) in forms.iter().enumerate() {
        let mut want: Vec<(bool, Vec<u8>)> = vec![];
        let mut msgs = vec![];
        for k in &f.msgs {
            tag += 1;
            let d = payload(tag, if f.rand.0 < 4 { 4 } else { 4 + (tag as usize * 7) % 60 });
            match k {
                0 => {
                    want.push((false, d.clone()));
                    msgs.push(Msg::Custom(d));
                }
                1 => {
                    want.push((true, d.clone()));
                    msgs.push(Msg::Query { id: sha256(&d), data: d });
                }
                2 => msgs.push(Msg::Nop),
                _ => {
                    want.push((false, d.clone()));
                    msgs.extend(Msg::Custom(d).split(5000));
                }
            }
        }
        let n = msgs.len();
        let chan = f.chan && p.link.ready;
        let prio = chan && f.prio;
        let mut k = p.link.base(prio, msgs);
        k.single = n == 1 && f.single;
        k.no_messages = n == 0 && f.single;
        k.both = n > 0 && f.both;
        let padding = |n: u8| (0..n).map(|i| i ^ 0x5a).collect::<Vec<u8>>();
        k.rand1 = padding(f.rand.0);
        k.rand2 = padding(f.rand.1);
        let now = clock::unix();
        if !chan {
            // 0: full, 1: both, 2: short
            if f.from < 2 {
                k.from = Some(p.link.me.public);
            }
            if f.from > 0 {
                k.from_short = Some(p.link.me.id);
            }
        }
        k.address = match f.address {
            0 => None,
            1 => Some(p.link.addr_list()),
            2 => Some(AddrList { expire_at: 0, ..p.link.addr_list() }),
            _ => Some(AddrList { reinit_date: 0, version: now, ..p.link.addr_list() }),
        };
        k.priority_address = f.prio_address.then(|| AddrList::one(p.addr(), now, 0, 0));
        if !f.seqno {
            k.seqno = None;
            p.link.sent[prio as usize] -= 1;
        }
        if !f.confirm {
            k.confirm = None;
        }
        k.recv_ver = f.recv_ver;
        k.recv_prio_ver = f.recv_prio_ver;
        if f.reinit {
            k.reinit = Some((p.link.reinit, p.link.remote_reinit));
        }
        let me = p.link.me.clone();
        // channel packets may be signed too
        if !chan || f.signature {
            k.sign(&me);
        }
        p.link.version = f.version.then_some(0);
        let d = if chan { p.link.wrap_channel(prio, &k) } else { p.link.wrap_handshake(&k) };
        if d.len() > 1900 {
            continue;
        }
        p.raw(&d);
        let ok = until(|| s.count() >= want.len()).await;
        settle().await;
        let e = s.take();
        check!(ok, "packet {i} built by the reference implementation was not acted on ({} of {} messages): {f:?}", e.len(), want.len());
        let mut got: Vec<(bool, Vec<u8>)> = e.into_iter().map(|x| (x.query, x.data)).collect();
        got.sort();
        let mut w = want.clone();
        w.sort();
        check!(got == w, "packet {i}: other messages were processed than it contains: {f:?}");
        // queries are answered
        let mut left: Vec<B32> = want.iter().filter(|x| x.0).map(|x| sha256(&x.1)).collect();
        until(|| {
            for m in p.msgs() {
                if let Msg::Answer { id, .. } = m {
                    left.retain(|x| *x != id);
                }
            }
            left.is_empty()
        })
        .await;
        check!(left.is_empty(), "{} queries of packet {i} were not answered: {f:?}", left.len());
    }
    Ok(!forms.is_empty())
}

/// Packets without a version whose first bytes look exactly as if they had one (one of 65,536 does)
async fn a10_lookalike(seed: u64, handshake: bool, prio: bool, len: usize) -> CaseResult {
    let s = Sut::new(&Key::nth(seed * 10), opts())?;
    let mut p = RefPeer::new(Key::nth(seed * 10 + 1), &s);
    if !handshake {
        p.connect().await?;
    }
    s.take();
    p.link.version = None;
    let data = payload(seed, len);
    let mut k = p.link.base(prio && !handshake, vec![Msg::Custom(data.clone())]);
    let n = if handshake { 64 } else { 32 };
    if handshake {
        k.from = Some(p.link.me.public);
        k.address = Some(p.link.addr_list());
    }
    let me = p.link.me.clone();
    let mut found = None;
    for t in 0..2_000_000u32 {
        k.rand1 = [&t.to_le_bytes()[..], &[7; 3]].concat();
        if handshake {
            k.sign(&me);
        }
        let d = if handshake { p.link.wrap_handshake(&k) } else { p.link.wrap_channel(prio, &k) };
        let mut x = [0u8; 4];
        for (i, b) in d[..n].iter().enumerate() {
            x[i % 4] ^= b;
        }
        for (i, b) in d[n..n + 36].iter().enumerate() {
            x[i % 4] ^= b;
        }
        if x[0] == x[2] && x[1] == x[3] {
            found = Some(d);
            break;
        }
    }
    let Some(d) = found else { return Ok(false) };
    p.raw(&d);
    let ok = until(|| s.count() > 0).await;
    check!(ok, "a correct packet without a version (handshake: {handshake}, priority: {prio}) is not acted on: its first bytes look like a version");
    check!(s.take().iter().all(|e| e.data == data), "something else is delivered");
    Ok(true)
}

#[derive(Clone, Debug)]
enum EmitOp {
    Send(usize),
    Ask(usize),
    /// the peer sends
    Hear { prio: bool, jump: u8 },
    Advance(u32),
    /// the peer restarts and forgets its channel
    Restart,
}

#[derive(Clone, Debug)]
struct EmitCase {
    seed: u64,
    version: bool,
    prio: bool,
    history: bool,
    expire: u32,
    reply_len: usize,
    ops: Vec<EmitOp>,
}

/// Everything a node emits, field by field
async fn a10_out(c: &EmitCase) -> CaseResult {
    let mut o = opts();
    o.version = c.version.then_some(0);
    o.force_use_priority_channels = c.prio;
    o.packet_history_enabled = c.history;
    o.address_list_timeout_sec = c.expire;
    // the reset of dead channels belongs to A08
    o.channel_reset_timeout_sec = 1_000_000;
    let n = c.reply_len;
    let s = Sut::with(&[Key::nth(c.seed)], LOCAL, o, move |e: &Ev| Reply::Answer(payload(e.data.len() as u64, n)))?;
    let start = s.node.start_time();
    let mut p = RefPeer::new(Key::nth(c.seed + 17), &s);
    p.link.version = c.version.then_some(0);
    s.add_peer(p.key(), p.addr());
    let mut sent = [0u64; 2];
    let mut tag = 0u64;
    let mut hs = vec![];
    let mut chan_date: Option<u32> = None;
    let mut kinds = std::collections::HashSet::new();
    let mut met = false;
    for op in &c.ops {
        tag += 1;
        let mut expect_some = false;
        match op {
            EmitOp::Send(len) => {
                let r = s.node.send_custom_message(&s.id(), &p.id(), &payload(tag, *len));
                check!(r.is_ok(), "send_custom_message of {len} bytes: {r:?}");
                expect_some = true;
            }
            EmitOp::Ask(len) => {
                let (n, l, r, d) = (s.node.clone(), s.id(), p.id(), payload(tag, *len));
                hs.push(tokio::spawn(async move { n.query_raw(&l, &r, d.into(), None).await }));
                expect_some = true;
            }
            EmitOp::Hear { prio, jump } => {
                p.link.sent[(*prio && p.link.ready) as usize] += *jump as u64;
                met = true;
                let d = p.link.packet(*prio, vec![Msg::Query { id: sha256(&tag.to_le_bytes()), data: payload(tag, 20) }]);
                p.raw(&d);
                expect_some = true;
            }
            EmitOp::Advance(s) => advance(*s as u64 * 1000, 5000).await,
            EmitOp::Restart => {
                // only a later date is a restart
                advance(2000, 1000).await;
                p.link.chan = None;
                p.link.peer_chan = None;
                p.link.ready = false;
                p.link.reinit = clock::unix();
                p.link.sent = [0; 2];
                p.link.recv = [0; 2];
                p.link.chan_key = Key::nth(c.seed * 31 + tag);
                let d = p.link.packet(false, vec![Msg::Query { id: sha256(&tag.to_le_bytes()), data: payload(tag, 20) }]);
                p.raw(&d);
                // (for the node, only a peer it has heard before can restart)
                if met {
                    sent = [0; 2];
                }
                met = true;
                expect_some = true;
            }
        }
        // collect what it emits
        let mut raws = vec![];
        let mut idle = 0;
        for _ in 0..200 {
            let mut any = false;
            while let Some((d, _)) = p.sock.recv() {
                raws.push(d);
                any = true;
            }
            idle = if any { 0 } else { idle + 1 };
            if idle >= 3 && (!raws.is_empty() || !expect_some) {
                break;
            }
            settle().await;
            if raws.is_empty() && expect_some && idle > 3 {
                std::thread::sleep(std::time::Duration::from_micros(100));
            }
        }
        check!(!expect_some || !raws.is_empty(), "nothing was emitted");
        for d in raws {
            check!(d.len() < 1500, "a datagram of {} bytes", d.len());
            // what the node has received by now (numbers are only kept with the history on)
            let heard = if c.history { p.link.sent } else { [0; 2] };
            let known_reinit = p.link.reinit;
            let had_chan = p.link.chan.is_some();
            let Some(g) = p.link.open(&d) else { viol!("an emitted datagram does not decrypt, verify or parse under the reference implementation") };
            let k = &g.packet;
            let now = clock::unix();
            check!(g.version == c.version.then_some(0), "version prefix {:?}", g.version);
            let prio = matches!(g.how, How::Channel { priority: true });
            sent[prio as usize] += 1;
            check!(k.seqno == Some(sent[prio as usize]), "sequence number {:?}, expected {} ({:?})", k.seqno, sent[prio as usize], g.how);
            let conf = k.confirm.unwrap_or(0);
            check!(k.confirm.is_some() && conf == heard[prio as usize], "confirmed number {:?}, the peer sent up to {} ({:?})", k.confirm, heard[prio as usize], g.how);
            let Some(a) = &k.address else { viol!("no address list") };
            let ip = u32::from(*s.addr.ip());
            check!(a.addrs == vec![(ip, s.addr.port() as u32)], "address list {:?}", a.addrs);
            check!(a.version == now && a.reinit_date == start && a.expire_at == now + c.expire, "address list fields {a:?}, now {now}, start {start}");
            check!(k.priority_address.is_none() && k.from_short.is_none(), "unexpected fields");
            check!(!k.rand1.is_empty() && !k.rand2.is_empty(), "no padding");
            match g.how {
                How::Handshake => {
                    kinds.insert(0);
                    check!(k.from == Some(s.keys[0].public), "source");
                    check!(k.verify(&s.keys[0].public), "the signature of a handshake does not verify");
                    let seen = if p.link.sent[0] > 0 && chan_seen(&sent, &p) { known_reinit } else { 0 };
                    let Some((src, dst)) = k.reinit else { viol!("a handshake without reinit dates") };
                    check!(src == start, "source reinit date {src}, started at {start}");
                    check!(dst == seen || (dst == 0 && p.link.sent == [0, 0]), "destination reinit date {dst}, expected {seen}");
                    // setup messages
                    let setup: Vec<&Msg> = k.messages.iter().filter(|m| matches!(m, Msg::Create { .. } | Msg::Confirm { .. })).collect();
                    for m in setup {
                        match m {
                            Msg::Create { date, .. } => {
                                check!(*date == now, "CreateChannel dated {date}, now {now}");
                                chan_date = Some(*date);
                            }
                            Msg::Confirm { peer_key, .. } => check!(*peer_key == p.link.chan_key.public, "ConfirmChannel names another key than ours"),
                            _ => {}
                        }
                    }
                }
                How::Channel { priority } => {
                    kinds.insert(1 + priority as u8);
                    check!(had_chan, "channel packet");
                    check!(k.from.is_none() && k.signature.is_none() && k.reinit.is_none(), "a channel packet names its source, is signed or carries dates");
                }
            }
        }
    }
    for h in hs {
        h.abort();
    }
    let _ = chan_date;
    Ok(kinds.len() > 1)
}

/// The node has heard a handshake of the peer's present life
fn chan_seen(_sent: &[u64; 2], p: &RefPeer) -> bool {
    p.link.sent[0] > 0
}

/// A peer that takes no part in priority traffic, or does
#[derive(Clone, Debug)]
struct PrioCase {
    seed: u64,
    /// the node is told to prefer priority
    force: bool,
    history: bool,
    /// the peer sends priority packets
    uses: bool,
    lens: Vec<(bool, usize)>,
}
async fn a10_prio(c: &PrioCase) -> CaseResult {
    let mut o = opts();
    o.force_use_priority_channels = c.force;
    o.packet_history_enabled = c.history;
    o.channel_reset_timeout_sec = 1_000_000;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 17), &s);
    p.connect().await?;
    mark(&mut p).await?;
    if c.uses {
        p.send(true, vec![Msg::Query { id: [3; 32], data: vec![1, 2, 3, 4] }]);
        settle().await;
    }
    p.poll();
    let (mut prio, mut after, mut late) = (0, 0, 0);
    let mut hs = vec![];
    for (i, (ask, len)) in c.lens.iter().enumerate() {
        let d = payload(c.seed + i as u64, *len);
        if *ask {
            let (n, l, r) = (s.node.clone(), s.id(), p.id());
            hs.push(tokio::spawn(async move { n.query_raw(&l, &r, d.into(), None).await }));
        } else {
            let r = s.node.send_custom_message(&s.id(), &p.id(), &d);
            check!(r.is_ok(), "send_custom_message: {r:?}");
        }
        let mut got = vec![];
        until(|| {
            got.extend(p.poll());
            !got.is_empty()
        })
        .await;
        settle().await;
        got.extend(p.poll());
        check!(!got.is_empty(), "nothing is sent");
        for g in got {
            match g.how {
                How::Channel { priority: true } => prio += 1,
                How::Channel { priority: false } => after += 1,
                How::Handshake => viol!("a handshake over an established channel"),
            }
            late += (prio > 20) as usize;
        }
    }
    for h in hs {
        h.abort();
    }
    if !c.force {
        check!(prio == 0, "{prio} priority packets although they are not asked for");
    } else if !c.uses {
        check!(late == 0, "{prio} priority packets to a peer that never sent one");
    } else if c.history {
        check!(after == 0, "{after} ordinary packets to a peer that uses priority traffic");
    }
    // an answer goes the way its query came
    p.poll();
    for (i, by_prio) in [(0u64, false), (1, true), (2, false)] {
        let q = payload(c.seed + 900 + i, 24);
        p.send_msg(by_prio, Msg::Query { id: [40 + i as u8; 32], data: q.clone() });
        let mut got = vec![];
        until(|| {
            got.extend(p.poll());
            !got.is_empty()
        })
        .await;
        let want = Msg::Answer { id: [40 + i as u8; 32], data: answer_for(&q) };
        let Some(g) = got.iter().find(|g| g.packet.messages.contains(&want)) else { viol!("a query is not answered") };
        check!(matches!(g.how, How::Channel { .. }), "an answer comes by a handshake over an established channel");
        if !by_prio || c.history || prio < 10 {
            check!(g.how == How::Channel { priority: by_prio }, "the answer to {} query comes by {:?}", if by_prio { "a priority" } else { "an ordinary" }, g.how);
        }
    }
    Ok(c.force && prio + after > 25)
}

/// What a node announces and where it sends to, by the addresses of both sides
#[derive(Clone, Debug)]
enum NearOp {
    Send(usize),
    Hear { prio: bool },
    /// the peer is known under another address from now on
    Move(u8),
}
#[derive(Clone, Debug)]
struct NearCase {
    seed: u64,
    node: u8,
    peer: u8,
    loopback: bool,
    version: bool,
    prio: bool,
    ops: Vec<NearOp>,
}
fn near_ip(n: u8) -> Ipv4Addr {
    // (reserved for documentation: nobody has these)
    if n == 0 { LOCAL } else { Ipv4Addr::new(192, 0, 2, n) }
}
async fn a10_near(c: &NearCase) -> CaseResult {
    let mut o = opts();
    o.use_loopback_for_neighbours = c.loopback;
    o.version = c.version.then_some(0);
    o.force_use_priority_channels = c.prio;
    let s = Sut::with(&[Key::nth(c.seed)], near_ip(c.node), o, default_reply)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 17), &s);
    p.link.version = c.version.then_some(0);
    let port = p.addr().port();
    let mut shown = SocketAddrV4::new(near_ip(c.peer), port);
    p.link.addr = shown;
    need!(s.add_peer(p.key(), shown), "a peer is refused");
    let mut nt = false;
    for (i, op) in c.ops.iter().enumerate() {
        let mut sends = true;
        let mut want = None;
        match op {
            NearOp::Send(len) => {
                let d = payload(i as u64, *len);
                let r = s.node.send_custom_message(&s.id(), &p.id(), &d);
                check!(r.is_ok(), "send_custom_message: {r:?}");
                want = Some(d);
            }
            NearOp::Hear { prio } => p.send(*prio, vec![Msg::Query { id: [i as u8; 32], data: payload(i as u64, 20) }]),
            NearOp::Move(n) => {
                shown = SocketAddrV4::new(near_ip(*n), port);
                p.link.addr = shown;
                s.add_peer(p.key(), shown);
                sends = false;
            }
        }
        // (the peer's packets keep announcing the same address)
        let near = c.loopback && s.addr.ip() == shown.ip() && !shown.ip().is_loopback();
        let arrives = sends && (near || *shown.ip() == LOCAL);
        let mut got = vec![];
        if arrives {
            until(|| {
                got.extend(p.poll());
                !got.is_empty()
            })
            .await;
        }
        settle().await;
        got.extend(p.poll());
        check!(!arrives || !got.is_empty(), "nothing arrives from {} at the neighbour {shown} (use_loopback_for_neighbours: {})", s.addr, c.loopback);
        check!(arrives || got.is_empty(), "{} packets arrive on the loopback address of the peer {shown}", got.len());
        let from = if near { LOCAL } else { *s.addr.ip() };
        for g in &got {
            let Some(a) = &g.packet.address else { viol!("no address list") };
            check!(a.addrs == vec![(u32::from(from), s.addr.port() as u32)], "the node at {} announces {:?} to {shown}", s.addr, a.addrs);
        }
        nt |= near;
        let msgs = p.assemble(got);
        if let (true, Some(d)) = (arrives, want) {
            check!(msgs.iter().any(|m| matches!(m, Msg::Custom(x) if *x == d)), "the message does not arrive");
        }
    }
    Ok(nt)
}

pub fn a10_run(c: &mut Ctx) {
    c.scenario(
        "neighbours",
        "the node addresses a neighbour by loopback",
        1000,
        || {
            let op = prop_oneof![4 => prop_oneof![4usize..200, 900usize..3000].prop_map(NearOp::Send), 3 => any::<bool>().prop_map(|prio| NearOp::Hear { prio }), 1 => (0u8..3).prop_map(NearOp::Move)];
            (0u64..1_000_000, 0u8..3, 0u8..3, prop::bool::weighted(0.7), any::<bool>(), any::<bool>(), prop::collection::vec(op, 1..12))
                .prop_map(|(seed, node, peer, loopback, version, prio, ops)| NearCase { seed, node, peer: if peer == 2 { node } else { peer }, loopback, version, prio, ops })
        },
        |c| run(a10_near(c)),
    );
    c.scenario(
        "priority",
        "priority is preferred and more than 25 packets are sent",
        500,
        || {
            let l = (any::<bool>(), prop_oneof![5 => 4usize..200, 1 => 1100usize..3000]);
            (0u64..1_000_000, prop_oneof![4 => Just(true), 1 => Just(false)], any::<bool>(), any::<bool>(), prop::collection::vec(l, 1..60)).prop_map(|(seed, force, history, uses, lens)| PrioCase { seed, force, history, uses, lens })
        },
        |c| run(a10_prio(c)),
    );
    c.scenario(
        "accepts",
        "always",
        2500,
        || (0u64..1_000_000, any::<bool>(), prop::collection::vec(form(), 1..12)),
        |c| run(a10_in(c.0, c.1, &c.2)),
    );
    c.scenario(
        "lookalike",
        "such a packet was built",
        40,
        || (1u64..1_000_000, any::<bool>(), 4usize..300).prop_map(|(seed, prio, len)| (seed, prio, len)),
        |c| run(a10_lookalike(c.0, false, c.1, c.2)),
    );
    c.scenario("numbers_at_once", "more than three threads", 60, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::numbers_at_once(v)));
    c.scenario("lookalike_handshake", "such a packet was built", 4, || (1u64..1_000_000, 4usize..300), |c| run(a10_lookalike(c.0, true, false, c.1)));
    c.scenario(
        "emits",
        "more than one kind of datagram was emitted",
        2000,
        || {
            let len = || prop_oneof![3 => 4usize..200, 2 => 850usize..1100, 1 => 1100usize..5000];
            let op = prop_oneof![
                4 => len().prop_map(EmitOp::Send),
                3 => len().prop_map(EmitOp::Ask),
                4 => (any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 0u8..9]).prop_map(|(prio, jump)| EmitOp::Hear { prio, jump }),
                1 => (1u32..500).prop_map(EmitOp::Advance),
                1 => Just(EmitOp::Restart),
            ];
            (0u64..1_000_000, any::<bool>(), any::<bool>(), any::<bool>(), 0u32..5000, prop_oneof![4usize..300, 900usize..3000], prop::collection::vec(op, 1..20))
                .prop_map(|(seed, version, prio, history, expire, reply_len, ops)| EmitCase { seed, version, prio, history, expire, reply_len, ops })
        },
        |c| run(a10_out(c)),
    );
}

// ------------------------------------------------------------------ A11

/// What subscriber `s` does with constructor class `k`: 0 consume, 1 consume without an answer,
/// 2 reject, 3 fail
#[derive(Clone, Debug)]
struct A11Case {
    seed: u64,
    query_subs: Vec<Vec<u8>>,
    msg_subs: Vec<Vec<u8>>,
    chan: bool,
    /// how long the subscribers take
    slow: Vec<u8>,
    packets: Vec<Vec<(bool, u8, usize)>>,
}

const CLASSES: u8 = 4;

fn reply_of(k: u8, sub: usize, data: &[u8]) -> Reply {
    match k {
        0 => {
            let mut a = vec![sub as u8; 5];
            a.extend_from_slice(&answer_for(data));
            Reply::Answer(a)
        }
        1 => Reply::NoAnswer,
        2 => Reply::Reject,
        _ => Reply::Error,
    }
}

fn constructor(class: u8) -> u32 {
    match class {
        // the built-in one
        3 => id::ping(),
        // prefixes of known protocols without their contents
        2 => id::overlay_query(),
        x => 0x7100_0000 + x as u32,
    }
}

async fn a11(c: &A11Case) -> CaseResult {
    let (node, addr) = new_node(&[Key::nth(c.seed)], LOCAL, opts(), None)?;
    let events = Arc::new(Mutex::new(vec![]));
    let table = |subs: &[Vec<u8>], i: usize| {
        let t = subs[i].clone();
        let r = Recorder::new(&events, i, move |e: &Ev| {
            let k = (0..CLASSES).find(|k| constructor(*k) == e.constructor);
            reply_of(k.map(|k| t[k as usize]).unwrap_or(2), e.sub, &e.data)
        });
        Arc::new(Slow(r, c.slow[i % c.slow.len()] as usize))
    };
    for i in 0..c.query_subs.len() {
        check!(node.add_query_subscriber(table(&c.query_subs, i)).is_ok(), "subscribing before start failed");
    }
    for i in 0..c.msg_subs.len() {
        check!(node.add_message_subscriber(table(&c.msg_subs, i)).is_ok(), "subscribing before start failed");
    }
    check!(node.start().is_ok(), "start failed");
    let late = Recorder::new(&events, 99, default_reply);
    check!(node.add_query_subscriber(late.clone()).is_err(), "a query subscriber was accepted after start");
    check!(node.add_message_subscriber(late).is_err(), "a message subscriber was accepted after start");
    check!(node.start().is_err(), "starting twice succeeded");
    let s = Sut { node, keys: vec![Key::nth(c.seed)], addr, events: events.clone() };
    let mut p = RefPeer::new(Key::nth(c.seed + 4), &s);
    // a channel without queries: nobody may be there to answer them
    let d = p.link.handshake(vec![p.link.create_msg()]);
    p.raw(&d);
    need!(until(|| s.node.metrics().channels_by_peers_len == 1).await, "channel");
    if c.chan {
        let _ = s.node.send_custom_message(&s.id(), &p.id(), &payload(1, 8));
        need!(until(|| { p.poll(); p.link.ready }).await, "confirmation");
    }
    let mut tag = 0u64;
    let mut nt = false;
    for pk in &c.packets {
        let mut msgs = vec![];
        // offers in order; answers
        let mut want: Vec<(bool, usize, u32, Vec<u8>)> = vec![];
        let mut answers: BTreeMap<B32, Vec<u8>> = BTreeMap::new();
        for (query, class, len) in pk {
            tag += 1;
            let mut data = if *class >= CLASSES {
                // too short for a constructor
                vec![7u8; *len % 4]
            } else {
                constructor(*class).to_le_bytes().to_vec()
            };
            if *class < CLASSES {
                if *class == 3 && *query {
                    data.extend_from_slice(&(tag * 0x0101_0101_0101).to_le_bytes());
                } else {
                    data.extend_from_slice(&payload(tag, *len));
                }
            }
            let qid = sha256(&tag.to_le_bytes());
            msgs.push(if *query { Msg::Query { id: qid, data: data.clone() } } else { Msg::Custom(data.clone()) });
            if *class >= CLASSES {
                continue;
            }
            let subs = if *query { &c.query_subs } else { &c.msg_subs };
            let mut done = false;
            for (i, t) in subs.iter().enumerate() {
                want.push((*query, i, constructor(*class), data.clone()));
                match reply_of(t[*class as usize], i, &data) {
                    Reply::Answer(a) => {
                        if *query {
                            answers.insert(qid, a);
                        }
                        done = true;
                    }
                    Reply::NoAnswer => done = true,
                    Reply::Reject => nt = true,
                    Reply::Error => {
                        nt = true;
                        done = true;
                    }
                }
                if done {
                    break;
                }
            }
            if !done && *query && *class == 3 {
                answers.insert(qid, W::new().u32(id::pong()).raw(&data[4..12]).done());
            }
        }
        // several messages of one packet
        let d = p.link.packet(false, msgs);
        p.raw(&d);
        until(|| events.lock().unwrap().len() >= want.len()).await;
        settle().await;
        let got: Vec<_> = s.take();
        for e in &got {
            check!(e.local == s.keys[0].id && e.peer == p.link.me.id, "wrong identities in the context");
        }
        let got: Vec<_> = got.into_iter().map(|e| (e.query, e.sub, e.constructor, e.data)).collect();
        if got != want {
            let brief = |v: &[(bool, usize, u32, Vec<u8>)]| v.iter().map(|x| format!("{}{}:{:x}", if x.0 { "q" } else { "m" }, x.1, x.2)).collect::<Vec<_>>().join(" ");
            viol!("offers of a packet: [{}], expected [{}]", brief(&got), brief(&want));
        }
        let mut ans = BTreeMap::new();
        until(|| {
            for m in p.msgs() {
                if let Msg::Answer { id, data } = m {
                    ans.insert(id, data);
                }
            }
            ans.len() >= answers.len()
        })
        .await;
        settle().await;
        for m in p.msgs() {
            if let Msg::Answer { id, data } = m {
                ans.insert(id, data);
            }
        }
        check!(ans == answers, "{} answers were sent, expected {} (or with other contents)", ans.len(), answers.len());
    }
    Ok(nt)
}
use std::sync::{Arc, Mutex};

pub fn a11_run(c: &mut Ctx) {
    c.scenario(
        "offers",
        "some subscriber rejected or failed",
        2500,
        || {
            let subs = || prop::collection::vec(prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8)], CLASSES as usize), 0..4);
            (0u64..1_000_000, subs(), subs(), any::<bool>(), prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => 1u8..20], 1..4), prop::collection::vec(prop::collection::vec((any::<bool>(), prop_oneof![8 => 0u8..CLASSES, 1 => Just(CLASSES)], 0usize..80), 1..5), 1..6))
                .prop_map(|(seed, query_subs, msg_subs, chan, slow, packets)| A11Case { seed, query_subs, msg_subs, chan, slow, packets })
        },
        |c| run(a11(c)),
    );
}
