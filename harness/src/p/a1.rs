//! A01-A05: authenticity, delivery, channels, history, reinit dates
use crate::fx::*;
use proptest::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ A01

#[derive(Clone, Debug)]
pub enum Forge {
    Flip { pos: u16, bit: u8 },
    Truncate(u16),
    Extend(u8),
    Swap { a: u16, b: u16 },
    /// readdressed to another identity: 0 own second key, 1 unknown id
    Readdress(u8),
    /// encrypted for another of the node's keys than the id says
    WrongDestKey,
    NoSignature,
    SignatureLen(u8),
    SignatureOther,
    SignatureGarbage,
    /// a field is changed after signing
    AfterSign(u8),
    /// `from` of the victim, signed by the attacker
    VictimFromAttackerSig,
    /// `from_short` of the victim, no `from`
    VictimShort { sig: u8 },
    /// `from` of the attacker, `from_short` of the victim
    MixedSource,
    NoSource,
    /// explicit source inside a channel packet
    SourceInChannel { short: bool },
    /// a channel packet with a wrong secret
    ChannelWrongSecret,
    ChannelPrioSwapped,
    /// ordinary channel packet carrying a wrong signature
    ChannelBadSignature,
    VersionTwiddle(u16),
}

fn forge() -> impl Strategy<Value = Forge> {
    prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(pos, bit)| Forge::Flip { pos, bit }),
        1 => any::<u16>().prop_map(Forge::Truncate),
        1 => (1u8..40).prop_map(Forge::Extend),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Forge::Swap { a, b }),
        1 => (0u8..2).prop_map(Forge::Readdress),
        1 => Just(Forge::WrongDestKey),
        2 => Just(Forge::NoSignature),
        1 => (0u8..70).prop_map(Forge::SignatureLen),
        1 => Just(Forge::SignatureOther),
        1 => Just(Forge::SignatureGarbage),
        2 => (0u8..7).prop_map(Forge::AfterSign),
        2 => Just(Forge::VictimFromAttackerSig),
        3 => (0u8..4).prop_map(|sig| Forge::VictimShort { sig }),
        1 => Just(Forge::MixedSource),
        1 => Just(Forge::NoSource),
        2 => any::<bool>().prop_map(|short| Forge::SourceInChannel { short }),
        1 => Just(Forge::ChannelWrongSecret),
        1 => Just(Forge::ChannelPrioSwapped),
        1 => Just(Forge::ChannelBadSignature),
        1 => prop_oneof![1u16..4, 1u16..].prop_map(Forge::VersionTwiddle),
    ]
}

#[derive(Clone, Debug)]
struct A01Case {
    seed: u64,
    known: bool,
    required: bool,
    versioned: bool,
    carry: u8,
    forges: Vec<Forge>,
}

/// The victim is a peer the node knows (or not); the attacker has its own valid identity.
async fn a01(c: &A01Case) -> CaseResult {
    let k0 = Key::nth(c.seed * 4);
    let k1 = Key::nth(c.seed * 4 + 1);
    let mut o = opts();
    o.packet_signature_required = c.required;
    o.packet_history_enabled = c.seed % 2 == 0;
    let s = Sut::with(&[k0.clone(), k1.clone()], LOCAL, o, default_reply)?;
    let mut victim = RefPeer::new(Key::nth(c.seed * 4 + 2), &s);
    let mut attacker = RefPeer::new(Key::nth(c.seed * 4 + 3), &s);
    attacker.connect().await?;
    if c.known {
        victim.connect().await?;
    }
    let ver = if c.versioned { Some(0) } else { None };
    victim.link.version = ver;
    attacker.link.version = ver;
    s.take();
    settle().await;
    victim.poll();
    attacker.poll();
    let pids = [victim.link.me.id, attacker.link.me.id];
    let state = |s: &Sut| {
        let m = s.node.metrics();
        let mut v = vec![m.peer_count, m.channels_by_id_len, m.channels_by_peers_len, m.incoming_transfers_len, m.query_count];
        for l in [&k0, &k1] {
            for p in &pids {
                v.push(s.node.get_peer_address(&short(&l.id), &short(p)).map(|a| a.port() as usize).unwrap_or(0));
            }
        }
        v
    };
    let before = state(&s);
    let mut applied = 0;
    for (n, f) in c.forges.iter().enumerate() {
        // what the forged datagram would do if it were accepted
        let tag = payload(c.seed * 100 + n as u64, 24);
        let msgs = match c.carry % 4 {
            0 => vec![Msg::Custom(tag.clone())],
            1 => vec![Msg::Query { id: sha256(&tag), data: tag.clone() }],
            2 => vec![Msg::Create { key: Key::nth(n as u64 + 77).public, date: clock::unix() + 100 }, Msg::Custom(tag.clone())],
            _ => vec![Msg::Part { hash: sha256(&tag), total: 5000, offset: 0, data: tag.clone() }],
        };
        let bad_addr = SocketAddr4(c.seed, n);
        // every forged packet claims a foreign address
        let genuine = |from: &mut RefPeer, msgs: Vec<Msg>| {
            let mut p = from.link.handshake_contents(msgs);
            p.address = Some(AddrList::one(bad_addr, clock::unix(), from.link.reinit, clock::unix() + 100));
            p
        };
        let vk = victim.link.me.clone();
        let ak = attacker.link.me.clone();
        // a datagram that would be accepted as it is: from the victim, by handshake or channel
        let valid = |victim: &mut RefPeer| -> Vec<u8> {
            if c.known && n % 2 == 0 {
                let prio = n % 4 == 0;
                victim.link.channel(prio, msgs.clone())
            } else {
                let mut p = genuine(victim, msgs.clone());
                p.sign(&vk);
                victim.link.wrap_handshake(&p)
            }
        };
        let d = match f {
            Forge::Flip { pos, bit } => {
                let mut d = valid(&mut victim);
                let mut pos = *pos as usize % d.len();
                // the x sign bit of the ephemeral key does not enter the shared secret
                if pos == 63 && *bit == 7 {
                    pos = 62;
                }
                d[pos] ^= 1 << bit;
                d
            }
            Forge::Truncate(t) => {
                let mut d = valid(&mut victim);
                let n = *t as usize % d.len();
                d.truncate(n.max(1));
                d
            }
            Forge::Extend(n) => {
                let mut d = valid(&mut victim);
                d.extend(std::iter::repeat(*n).take(*n as usize));
                d
            }
            Forge::Swap { a, b } => {
                let mut d = valid(&mut victim);
                let (a, b) = (*a as usize % d.len(), *b as usize % d.len());
                if d[a] == d[b] || (a == 63 || b == 63) {
                    continue;
                }
                d.swap(a, b);
                d
            }
            Forge::Readdress(w) => {
                let mut d = {
                    let mut p = genuine(&mut victim, msgs.clone());
                    p.sign(&vk);
                    victim.link.wrap_handshake(&p)
                };
                let id = if *w == 0 { k1.id } else { sha256(b"unknown") };
                d[..32].copy_from_slice(&id);
                d
            }
            Forge::WrongDestKey => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.sign(&vk);
                let e = victim.link.next_eph();
                let mut d = seal_handshake(&k1.public, &e, &p.encode(), ver);
                d[..32].copy_from_slice(&k0.id);
                d
            }
            Forge::NoSignature => {
                if !c.required {
                    continue;
                }
                let p = genuine(&mut victim, msgs.clone());
                victim.link.wrap_handshake(&p)
            }
            Forge::SignatureLen(l) => {
                if *l == 64 || (*l == 0 && !c.required) {
                    continue;
                }
                let mut p = genuine(&mut victim, msgs.clone());
                p.sign(&vk);
                let mut sig = p.signature.clone().unwrap();
                sig.resize(*l as usize, 0);
                p.signature = Some(sig);
                victim.link.wrap_handshake(&p)
            }
            Forge::SignatureOther => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.sign(&Key::nth(999_999));
                victim.link.wrap_handshake(&p)
            }
            Forge::SignatureGarbage => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.signature = Some(payload(n as u64, 64));
                victim.link.wrap_handshake(&p)
            }
            Forge::AfterSign(w) => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.sign(&vk);
                match w {
                    0 => p.rand1.push(9),
                    1 => p.rand2.push(9),
                    2 => p.seqno = p.seqno.map(|s| s + 1),
                    3 => p.messages.push(Msg::Nop),
                    4 => p.address.as_mut().unwrap().version ^= 1,
                    5 => p.recv_ver = Some(1),
                    _ => p.from_short = Some(vk.id),
                }
                if p.messages.len() > 1 {
                    p.single = false;
                }
                victim.link.wrap_handshake(&p)
            }
            Forge::VictimFromAttackerSig => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.sign(&ak);
                victim.link.wrap_handshake(&p)
            }
            Forge::VictimShort { sig } => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.from = None;
                p.from_short = Some(vk.id);
                match sig {
                    0 if c.required => {}
                    0 => continue,
                    1 => p.sign(&ak),
                    2 => p.signature = Some(vec![0; 64]),
                    _ => {
                        p.sign(&vk);
                        p.rand1.push(1)
                    }
                }
                victim.link.wrap_handshake(&p)
            }
            Forge::MixedSource => {
                let mut p = genuine(&mut attacker, msgs.clone());
                p.from_short = Some(vk.id);
                p.sign(&ak);
                attacker.link.wrap_handshake(&p)
            }
            Forge::NoSource => {
                let mut p = genuine(&mut victim, msgs.clone());
                p.from = None;
                p.sign(&vk);
                victim.link.wrap_handshake(&p)
            }
            Forge::SourceInChannel { short } => {
                // by the attacker over its own genuine channel, naming the victim
                let mut p = attacker.link.base(false, msgs.clone());
                if *short {
                    p.from_short = Some(vk.id)
                } else {
                    p.from = Some(vk.public)
                }
                attacker.link.wrap_channel(false, &p)
            }
            Forge::ChannelWrongSecret => {
                if !c.known {
                    continue;
                }
                let good = victim.link.channel(false, msgs.clone());
                let p = victim.link.base(false, msgs.clone());
                let mut d = attacker.link.wrap_channel(false, &p);
                d[..32].copy_from_slice(&good[..32]);
                d
            }
            Forge::ChannelPrioSwapped => {
                if !c.known {
                    continue;
                }
                let a = victim.link.channel(false, msgs.clone());
                let mut b = victim.link.channel(true, msgs.clone());
                b[..32].copy_from_slice(&a[..32]);
                b
            }
            Forge::ChannelBadSignature => {
                if !c.known {
                    continue;
                }
                let mut p = victim.link.base(false, msgs.clone());
                p.sign(&ak);
                victim.link.wrap_channel(false, &p)
            }
            Forge::VersionTwiddle(v) => {
                let save = victim.link.version;
                victim.link.version = Some(*v);
                let d = valid(&mut victim);
                victim.link.version = save;
                d
            }
        };
        applied += 1;
        victim.raw(&d);
        settle().await;
        let evs = s.take();
        check!(evs.is_empty(), "forged datagram #{n} ({f:?}) was handed to a subscriber as {:?}", evs[0]);
        let after = state(&s);
        check!(
            after == before,
            "forged datagram #{n} ({f:?}) changed the node's state from {before:?} to {after:?} (peers, channels, channels, transfers, queries, addresses)"
        );
        for (who, p) in [("victim", &mut victim), ("attacker", &mut attacker)] {
            let g = p.poll();
            check!(
                g.iter().all(|g| g.packet.messages.iter().all(|m| !matches!(m, Msg::Answer { .. }))),
                "forged datagram #{n} ({f:?}) was answered to the {who}"
            );
        }
    }
    // the genuine peer is still served
    let q = payload(c.seed, 40);
    check!(victim.query(false, &q).await == Some(answer_for(&q)), "the genuine peer is not served after {:?}", c.forges);
    Ok(applied > 0)
}

#[allow(non_snake_case)]
fn SocketAddr4(seed: u64, n: usize) -> std::net::SocketAddrV4 {
    std::net::SocketAddrV4::new(std::net::Ipv4Addr::LOCALHOST, 9000 + ((seed as usize * 31 + n) % 900) as u16)
}

pub fn a01_run(c: &mut Ctx) {
    c.scenario(
        "forged",
        "at least one forged datagram was sent to the node",
        2500,
        || {
            (0u64..1_000_000, any::<bool>(), prop::bool::weighted(0.8), any::<bool>(), any::<u8>(), prop::collection::vec(forge(), 1..8))
                .prop_map(|(seed, known, required, versioned, carry, forges)| A01Case { seed, known, required, versioned, carry, forges })
        },
        |c| run(a01(c)),
    );
}

// ------------------------------------------------------------------ A02

/// Lengths around every boundary of the splitting
pub fn len() -> impl Strategy<Value = usize> {
    prop_oneof![
        3 => 4usize..300,
        4 => 900usize..1100,
        2 => 1900usize..2200,
        2 => 1000usize..5000,
        1 => 5000usize..20000,
        1 => prop::sample::select(vec![251usize, 252, 253, 254, 255, 256, 979, 980, 981, 984, 1011, 1012, 1013, 1016, 1020, 1024, 1028, 2048]),
    ]
}

#[derive(Clone, Debug)]
struct Fate {
    order: u32,
    dup: bool,
    drop: bool,
}
fn fates() -> impl Strategy<Value = Vec<Fate>> {
    prop::collection::vec(
        (any::<u32>(), prop::bool::weighted(0.2), prop::bool::weighted(0.05)).prop_map(|(order, dup, drop)| Fate { order, dup, drop }),
        40,
    )
}

#[derive(Clone, Debug)]
struct Item {
    from: u8,
    query: bool,
    len: usize,
    chunk: usize,
    same: bool,
}

#[derive(Clone, Debug)]
struct A02Case {
    seed: u64,
    items: Vec<Item>,
    fates: Vec<Fate>,
    lossless: bool,
    in_order: bool,
    version: Option<u16>,
    prio: bool,
    stage: u8,
}

fn a02_case() -> impl Strategy<Value = A02Case> {
    (
        0u64..1_000_000,
        prop::collection::vec(
            (0u8..3, any::<bool>(), len(), prop_oneof![Just(1024usize), Just(900), 200usize..1100], prop::bool::weighted(0.15))
                .prop_map(|(from, query, len, chunk, same)| Item { from, query, len, chunk, same }),
            1..4,
        ),
        fates(),
        prop::bool::weighted(0.6),
        prop::bool::weighted(0.3),
        prop_oneof![Just(None), Just(Some(0u16))],
        any::<bool>(),
        0u8..3,
    )
        .prop_map(|(seed, items, fates, lossless, in_order, version, prio, stage)| A02Case {
            seed, items, fates, lossless, in_order, version, prio, stage,
        })
}

/// Applies fates: returns the datagrams to deliver (with their origin) and which origins lost one
fn mangle<T: Clone>(d: Vec<(usize, T)>, c: &A02Case) -> (Vec<T>, HashSet<usize>) {
    let mut lost = HashSet::new();
    let mut out: Vec<(u32, T)> = vec![];
    for (i, (origin, x)) in d.into_iter().enumerate() {
        let f = &c.fates[i % c.fates.len()];
        if f.drop && !c.lossless {
            lost.insert(origin);
            continue;
        }
        let key = |o: u32| if c.in_order { i as u32 } else { o };
        out.push((key(f.order), x.clone()));
        if f.dup {
            out.push((key(f.order.rotate_left(16)), x));
        }
    }
    out.sort_by_key(|x| x.0);
    (out.into_iter().map(|x| x.1).collect(), lost)
}

/// Reference peers send; the node's handlers must see exactly what was sent
async fn a02_in(c: &A02Case) -> CaseResult {
    let mut o = opts();
    o.version = c.version;
    let s = Sut::with(&[Key::nth(c.seed)], LOCAL, o, default_reply)?;
    let mut peers: Vec<RefPeer> = (0..3).map(|i| RefPeer::new(Key::nth(c.seed + 1_000_000 * (i + 1)), &s)).collect();
    for p in &mut peers {
        p.link.version = c.version;
        p.connect().await?;
    }
    s.take();
    let mut grams: Vec<(usize, (usize, Vec<u8>))> = vec![];
    let mut want: BTreeMap<(B32, bool, Vec<u8>), Vec<usize>> = BTreeMap::new();
    for (i, it) in c.items.iter().enumerate() {
        let who = it.from as usize % 3;
        // `same`: another peer sends the very same bytes
        let tag = if it.same { 42 } else { c.seed * 10 + i as u64 };
        let data = payload(tag, if it.same { 3000 } else { it.len });
        let m = if it.query && !it.same {
            Msg::Query { id: sha256(&[i as u8; 9]), data: data.clone() }
        } else {
            Msg::Custom(data.clone())
        };
        let p = &mut peers[who];
        let key = (p.link.me.id, it.query && !it.same, data);
        if want.contains_key(&key) {
            continue; // the same peer sending the same bytes twice is not distinguishable
        }
        want.insert(key, vec![i]);
        let parts = if m.encode().len() <= it.chunk.min(1000) { vec![m] } else { m.split(it.chunk) };
        for part in parts {
            grams.push((i, (who, p.link.packet(c.prio, vec![part]))));
        }
    }
    let multi = grams.len() > want.len();
    let (list, lost) = mangle(grams, c);
    for chunk in list.chunks(16) {
        for (who, d) in chunk {
            peers[*who].raw(d);
        }
        settle().await;
    }
    let expect: Vec<_> = want.iter().filter(|(_, v)| !lost.contains(&v[0])).map(|(k, _)| k.clone()).collect();
    until(|| {
        let e = s.events.lock().unwrap();
        expect.iter().all(|k| e.iter().any(|x| x.peer == k.0 && x.query == k.1 && x.data == k.2))
    })
    .await;
    for k in &expect {
        let n = s.events.lock().unwrap().iter().filter(|x| x.peer == k.0 && x.query == k.1 && x.data == k.2).count();
        check!(n > 0, "a {} of {} bytes was not delivered although all its datagrams arrived", if k.1 { "query" } else { "custom message" }, k.2.len());
    }
    for e in s.take() {
        check!(e.local == s.keys[0].id, "delivered for a wrong local identity");
        let k = (e.peer, e.query, e.data.clone());
        check!(want.contains_key(&k), "a handler saw {} bytes that nobody sent", e.data.len());
        check!(!lost.contains(&want[&k][0]), "a message with a lost datagram was delivered");
    }
    // answers to the queries arrive whole
    let mut answers: HashMap<B32, Vec<u8>> = HashMap::new();
    let n_q = expect.iter().filter(|k| k.1).count();
    until(|| {
        for p in &mut peers {
            for m in p.msgs() {
                if let Msg::Answer { id, data } = m {
                    answers.insert(id, data);
                }
            }
        }
        answers.len() >= n_q
    })
    .await;
    for (k, v) in &want {
        if k.1 && !lost.contains(&v[0]) {
            let got = answers.get(&sha256(&[v[0] as u8; 9]));
            check!(got == Some(&answer_for(&k.2)), "the answer to a query of {} bytes arrived as {:?} bytes, wrong or not at all", k.2.len(), got.map(|g| g.len()));
        }
    }
    Ok(multi)
}

/// The node sends; the reference side must be able to assemble exactly what was sent
async fn a02_out(c: &A02Case) -> CaseResult {
    let mut o = opts();
    o.version = c.version;
    o.force_use_priority_channels = c.prio;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 5), &s);
    p.link.version = c.version;
    match c.stage {
        // nothing exists: CreateChannel goes along
        0 => need!(s.add_peer(p.key(), p.addr()), "add_peer"),
        // the node has a channel it is not sure about: ConfirmChannel goes along
        1 => {
            let m = p.link.create_msg();
            let d = p.link.handshake(vec![m]);
            p.raw(&d);
            need!(until(|| s.node.metrics().channels_by_peers_len == 1).await, "channel");
        }
        _ => p.connect().await?,
    }
    s.take();
    settle().await;
    p.poll();
    let mut handles = vec![];
    let mut sent: Vec<(bool, Vec<u8>)> = vec![];
    let mut grams = vec![];
    for (i, it) in c.items.iter().enumerate() {
        let data = payload(c.seed * 10 + i as u64, it.len);
        sent.push((it.query, data.clone()));
        if it.query {
            let (node, l, r) = (s.node.clone(), s.id(), p.id());
            handles.push(tokio::spawn(async move { node.query_raw(&l, &r, data.into(), None).await }));
            settle().await;
        } else {
            let r = s.node.send_custom_message(&s.id(), &p.id(), &data);
            check!(r.is_ok(), "send_custom_message({} bytes) failed: {r:?}", data.len());
            settle().await;
        }
        // all datagrams of this message; loopback is synchronous, a short real wait covers the rest
        let mut n = 0;
        for _ in 0..3 {
            while let Some((d, _)) = p.sock.recv() {
                check!(d.len() < 1500, "a datagram of {} bytes", d.len());
                grams.push((i, d));
                n += 1;
            }
            settle().await;
            if n > 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    }
    let multi = grams.len() > sent.len();
    let (list, lost) = mangle(grams, c);
    let mut seen: Vec<(usize, Msg)> = vec![];
    for d in list {
        let Some(g) = p.link.open(&d) else { viol!("an emitted datagram cannot be opened") };
        for m in p.assemble(vec![g]) {
            let i = match &m {
                Msg::Query { data, .. } => sent.iter().position(|x| x.0 && &x.1 == data),
                Msg::Custom(data) => sent.iter().position(|x| !x.0 && &x.1 == data),
                _ => None,
            };
            let Some(i) = i else { viol!("the remote side assembled a message that was not sent: {:?}", short_dbg(&m)) };
            seen.push((i, m));
        }
    }
    for (i, (q, d)) in sent.iter().enumerate() {
        if !lost.contains(&i) {
            check!(
                seen.iter().any(|x| x.0 == i),
                "a {} of {} bytes sent by the node cannot be assembled although all its datagrams arrived",
                if *q { "query" } else { "custom message" }, d.len()
            );
        }
    }
    // answer them: large answers come back whole
    let mut n_ans = 0;
    for (i, m) in &seen {
        if let Msg::Query { id, data } = m {
            if !lost.contains(i) {
                n_ans += 1;
                p.send_msg(c.prio, Msg::Answer { id: *id, data: answer_for(data) });
                settle().await;
            }
        }
    }
    let want: Vec<Vec<u8>> = sent.iter().enumerate().filter(|(i, x)| x.0 && !lost.contains(i)).map(|(_, x)| answer_for(&x.1)).collect();
    until(|| handles.iter().filter(|h| h.is_finished()).count() >= want.len()).await;
    let mut got = vec![];
    for h in handles {
        if h.is_finished() {
            if let Ok(Ok(Some(a))) = h.await {
                got.push(a);
            }
        } else {
            h.abort();
        }
    }
    let (mut a, mut b) = (got, want);
    a.sort();
    b.sort();
    check!(a == b, "queries resolved with {} answers (lengths {:?}), expected {} ({:?}); {n_ans} sent", a.len(), a.iter().map(|x| x.len()).collect::<Vec<_>>(), b.len(), b.iter().map(|x| x.len()).collect::<Vec<_>>());
    Ok(multi)
}

pub fn short_dbg(m: &impl std::fmt::Debug) -> String {
    let s = format!("{m:?}");
    s.chars().take(200).collect()
}

/// Two nodes: both directions, with the network mangled
async fn a02_two(c: &A02Case) -> CaseResult {
    let mut o = opts();
    o.version = c.version;
    o.force_use_priority_channels = c.prio;
    let a = Sut::with(&[Key::nth(c.seed)], ip(0), o, default_reply)?;
    let b = Sut::with(&[Key::nth(c.seed + 1)], ip(1), o, default_reply)?;
    let (ta, tb) = (Tap::new(a.addr)?, Tap::new(b.addr)?);
    need!(a.add_peer(b.key(), b.addr) && b.add_peer(a.key(), a.addr), "add_peer");
    let mut want: Vec<(bool, B32, Vec<u8>)> = vec![];
    let mut handles = vec![];
    for (i, it) in c.items.iter().enumerate() {
        let data = payload(c.seed * 10 + i as u64, it.len);
        let (x, y) = if it.from % 2 == 0 { (&a, &b) } else { (&b, &a) };
        want.push((it.query, x.keys[0].id, data.clone()));
        if it.query {
            let (node, l, r) = (x.node.clone(), x.id(), y.id());
            let exp = answer_for(&data);
            handles.push((exp, tokio::spawn(async move { node.query_raw(&l, &r, data.into(), None).await })));
        } else {
            let r = x.node.send_custom_message(&x.id(), &y.id(), &data);
            check!(r.is_ok(), "send_custom_message: {r:?}");
        }
        if c.stage != 0 {
            settle().await;
        }
    }
    // rounds: everything in flight is reordered and duplicated (never lost here)
    let mut k = 0usize;
    let done = until(|| {
        let mut fl: Vec<(u32, bool, Vec<u8>)> = vec![];
        while let Some((d, _)) = ta.recv() {
            fl.push((0, true, d));
        }
        while let Some((d, _)) = tb.recv() {
            fl.push((0, false, d));
        }
        let mut out = vec![];
        for (_, to_a, d) in fl {
            let f = &c.fates[k % c.fates.len()];
            k += 1;
            out.push((if c.in_order { k as u32 } else { f.order }, to_a, d.clone()));
            if f.dup {
                out.push((f.order.rotate_left(13), to_a, d));
            }
        }
        out.sort_by_key(|x| x.0);
        for (_, to_a, d) in out.into_iter().take(150) {
            if to_a { ta.forward(&d) } else { tb.forward(&d) }
        }
        handles.iter().all(|h| h.1.is_finished())
            && want.iter().filter(|w| !w.0).all(|w| {
                [&a, &b].iter().any(|n| n.events.lock().unwrap().iter().any(|e| !e.query && e.peer == w.1 && e.data == w.2))
            })
    })
    .await;
    for (w, n) in [(&a, "first"), (&b, "second")] {
        for e in w.take() {
            check!(want.iter().any(|x| x.0 == e.query && x.1 == e.peer && x.2 == e.data), "the {n} node's handler saw bytes nobody sent ({} bytes)", e.data.len());
        }
    }
    check!(done, "messages of {:?} bytes were not all delivered and answered on a loss-free network", want.iter().map(|w| w.2.len()).collect::<Vec<_>>());
    for (exp, h) in handles {
        let r = h.await.map_err(|e| Fail::Harness(e.to_string()))?;
        match r {
            Ok(Some(x)) => check!(x == exp, "a query resolved with wrong bytes"),
            o => viol!("a query resolved with {:?} on a loss-free network", o.map(|x| x.map(|y| y.len()))),
        }
    }
    Ok(k > 2 * want.len())
}

#[derive(Clone, Debug)]
struct Resend {
    seed: u64,
    len: usize,
    chunk: usize,
    copies: Vec<Copy_>,
}

#[derive(Clone, Debug)]
struct Copy_ {
    /// seconds before this copy
    before: u64,
    /// a pause of that many ms after the given part (below the transfer timeout)
    pause: Option<(usize, u64)>,
    /// the pause is made after every part
    often: bool,
    dup: bool,
    order: u32,
    /// the copy is abandoned after that many parts (and left alone for long enough)
    abandon: Option<usize>,
}

/// The same bytes sent again and again by the same peer: each complete copy is delivered
async fn a02_resend(c: &Resend) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed), opts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 77), &s);
    p.connect().await?;
    s.take();
    let m = Msg::Custom(payload(c.seed, c.len));
    let n = m.split(c.chunk).len();
    for (i, k) in c.copies.iter().enumerate() {
        advance(k.before * 1000, 250).await;
        let mut parts: Vec<(u32, Vec<u8>)> = vec![];
        for (j, part) in m.split(c.chunk).into_iter().enumerate() {
            let o = (j as u32 + 1).wrapping_mul(k.order | 1);
            parts.push((o, p.link.packet(false, vec![part])));
        }
        parts.sort_by_key(|x| x.0);
        let stop = k.abandon.map(|a| a % n).filter(|a| *a > 0);
        let mut late = vec![];
        for (j, (_, d)) in parts.iter().enumerate() {
            if stop == Some(j) {
                break;
            }
            p.raw(d);
            // a repetition while the message is still incomplete
            if k.dup && j + 1 < n {
                p.raw(d);
            }
            settle().await;
            if let Some((at, ms)) = k.pause {
                if k.often || at % n == j {
                    // the age of a transfer is counted in whole seconds
                    advance(if k.often { ms.min(1900) } else { ms }, 250).await;
                }
            }
            late.push(d.clone());
        }
        if stop.is_some() {
            check!(s.count() == 0, "an incomplete message was delivered");
            // long after the timeout nothing of it may be left that gets in the way of the next copy
            advance(8000, 250).await;
            check!(s.node.metrics().incoming_transfers_len == 0, "an abandoned message is kept");
            continue;
        }
        check!(until(|| s.count() > 0).await, "copy {i} of a message in {n} parts was not delivered");
        settle().await;
        let e = s.take();
        check!(e.len() == 1 && e[0].data == payload(c.seed, c.len), "copy {i} was delivered {} times", e.len());
    }
    Ok(n > 1 && c.copies.len() > 1)
}

fn resend() -> impl Strategy<Value = Resend> {
    let copy = (0u64..8, prop::option::weighted(0.6, (0usize..6, 0u64..2600)), any::<bool>(), any::<bool>(), any::<u32>(), prop::option::weighted(0.25, 1usize..6))
        .prop_map(|(before, pause, often, dup, order, abandon)| Copy_ { before, pause, often, dup, order, abandon });
    (0u64..1_000_000, 900usize..5000, 300usize..1024, prop::collection::vec(copy, 1..5))
        .prop_map(|(seed, len, chunk, copies)| Resend { seed, len, chunk, copies })
}

#[derive(Clone, Debug)]
struct Mixed {
    seed: u64,
    len: usize,
    query: bool,
    /// sizes of the parts of every copy: those of the first part and of the others
    chunks: Vec<(usize, usize)>,
    /// indices of the datagram that comes next; what is left comes at the end
    order: Vec<u16>,
    dup: Vec<bool>,
}
/// Copies of one message that are cut differently and arrive mixed with each other
async fn a02_mixed(c: &Mixed) -> CaseResult {
    let s = Sut::new(&Key::nth(c.seed), opts())?;
    let mut p = RefPeer::new(Key::nth(c.seed + 77), &s);
    p.connect().await?;
    s.take();
    let data = payload(c.seed, c.len);
    let m = if c.query { Msg::Query { id: sha256(&data), data: data.clone() } } else { Msg::Custom(data.clone()) };
    let all = m.encode();
    let mut left = vec![];
    for (first, other) in &c.chunks {
        let mut at = 0;
        while at < all.len() {
            let n = if at == 0 { *first } else { *other }.min(all.len() - at);
            left.push(p.link.packet(false, vec![Msg::Part { hash: sha256(&all), total: all.len() as u32, offset: at as u32, data: all[at..at + n].to_vec() }]));
            at += n;
        }
    }
    let total = left.len();
    let mut i = 0;
    while !left.is_empty() {
        let at = c.order.get(i).map(|o| *o as usize % left.len()).unwrap_or(0);
        let d = left.remove(at);
        p.raw(&d);
        if c.dup.get(i) == Some(&true) {
            p.raw(&d);
        }
        i += 1;
        settle().await;
    }
    check!(until(|| s.count() > 0).await, "none of {} copies of a message was delivered although all {total} datagrams arrived", c.chunks.len());
    settle().await;
    let e = s.take();
    for x in &e {
        check!(x.query == c.query && x.peer == p.link.me.id && x.data == data, "a handler saw {} bytes that nobody sent", x.data.len());
    }
    check!(e.len() <= 2 * c.chunks.len(), "{} copies were delivered {} times", c.chunks.len(), e.len());
    advance(8000, 250).await;
    check!(s.node.metrics().incoming_transfers_len == 0, "a part is kept");
    Ok(c.chunks.len() > 1 && total > c.chunks.len())
}
fn mixed() -> impl Strategy<Value = Mixed> {
    let chunk = || prop_oneof![2 => 200usize..1024, 1 => Just(1024usize), 1 => Just(912usize), 1 => Just(944usize)];
    (1u64..1_000_000, prop_oneof![3 => 980usize..3000, 1 => 1usize..980], any::<bool>(), prop::collection::vec((chunk(), chunk()), 1..4), prop::collection::vec(any::<u16>(), 0..40), prop::collection::vec(prop::bool::weighted(0.15), 0..40))
        .prop_map(|(seed, len, query, chunks, order, dup)| Mixed { seed, len: len.max(4), query, chunks, order, dup })
}

pub fn a02_run(c: &mut Ctx) {
    c.scenario("mixed", "several copies in several parts", 1200, mixed, |c| run(a02_mixed(c)));
    c.scenario("resend", "a message of several parts was sent repeatedly", 800, resend, |c| run(a02_resend(c)));
    c.scenario("incoming", "some message took several datagrams", 1500, a02_case, |c| run(a02_in(c)));
    c.scenario("outgoing", "some message took several datagrams", 1500, a02_case, |c| run(a02_out(c)));
    c.scenario("both", "more datagrams than two per message", 1000, a02_case, |c| run(a02_two(c)));
    c.scenario("pieces", "a round of more than fifty messages", 60, crate::p::t1::pieces_gen, |v| run_mt(crate::p::t1::pieces(v)));
    c.scenario("threads", "both sides send", 40, || crate::p::t1::crowd_gen(6000), |v| run_mt(crate::p::t1::crowd(v)));
}
