//! O01, O03, O05: ordinary and large broadcasts at one node
use crate::fx::*;
use crate::ov::*;
use crate::rl::compress;
use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use proptest::prelude::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ ordinary broadcasts

/// Changes made after signing
#[derive(Clone, Debug)]
pub enum Sp {
    SigBit(u16),
    SigLen(u8),
    Data(u16),
    DataLen(i8),
    Date(i32),
    Flag(u8),
    /// another key is named
    Src(u8),
    /// a source that cannot sign
    SrcKind(u8),
    /// signed by another key
    Resign(u8),
    // of the whole message
    Cut(u16),
    Extend(Vec<u8>),
    Flip(u16),
    Overlay(u8),
    Kind(u8),
    Certificate(u32),
}
pub fn sp() -> impl Strategy<Value = Sp> {
    prop_oneof![
        3 => any::<u16>().prop_map(Sp::SigBit),
        1 => any::<u8>().prop_map(Sp::SigLen),
        3 => any::<u16>().prop_map(Sp::Data),
        1 => any::<i8>().prop_map(Sp::DataLen),
        2 => prop_oneof![Just(1i32), Just(-1), -100i32..100].prop_map(Sp::Date),
        4 => (0u8..32).prop_map(Sp::Flag),
        3 => any::<u8>().prop_map(Sp::Src),
        1 => any::<u8>().prop_map(Sp::SrcKind),
        2 => any::<u8>().prop_map(Sp::Resign),
        2 => any::<u16>().prop_map(Sp::Cut),
        2 => prop::collection::vec(any::<u8>(), 1..12).prop_map(Sp::Extend),
        3 => any::<u16>().prop_map(Sp::Flip),
        2 => any::<u8>().prop_map(Sp::Overlay),
        2 => any::<u8>().prop_map(Sp::Kind),
        1 => any::<u32>().prop_map(Sp::Certificate),
    ]
}

#[derive(Clone, Debug)]
pub struct BcGen {
    pub author: u8,
    pub flags: u32,
    pub len: u32,
    pub tag: u8,
    pub date: i64,
    /// raw, compressed, or a blob that was signed as it is
    pub form: u8,
    pub overlay: u8,
    pub spoils: Vec<Sp>,
}
pub fn dates() -> impl Strategy<Value = i64> {
    prop_oneof![
        6 => Just(0i64),
        2 => -70i64..10,
        1 => Just(i64::MIN),
        1 => Just(i64::MAX),
        1 => (0i64..100).prop_map(|x| i64::MAX - x),
        1 => 0i64..100_000,
    ]
}
/// A date relative to now; the far ends are the ends of the range
pub fn date_of(d: i64) -> u32 {
    if d < i64::MIN / 2 {
        0
    } else if d > i64::MAX / 2 {
        u32::MAX - (i64::MAX - d) as u32
    } else {
        (clock::unix() as i64 + d).clamp(0, u32::MAX as i64) as u32
    }
}
fn bc_gen(spoiled: bool) -> impl Strategy<Value = BcGen> {
    let w = spoiled as u32;
    (
        0u8..3,
        prop_oneof![4 => Just(1u32), 2 => Just(0u32), 1 => 0u32..8, 1 => any::<u32>()],
        prop_oneof![3 => 0u32..40, 2 => 41u32..800, 1 => 800u32..3000],
        0u8..3,
        dates(),
        prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![5 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![1 => Just(vec![]), w => prop::collection::vec(sp(), 0..3)],
    )
        .prop_map(|(author, flags, len, tag, date, form, overlay, spoils)| BcGen { author, flags, len, tag, date, form, overlay, spoils })
}
impl BcGen {
    pub fn build(&self, seed: u64) -> Vec<u8> {
        let k = Key::nth(seed + 50 + self.author as u64);
        let other = |n: u8| Key::nth(seed + 50 + (self.author as u64 + 1 + n as u64 % 3) % 4);
        let data = payload(seed + self.tag as u64, self.len as usize);
        let date = date_of(self.date);
        let mut b = match self.form {
            0 => Bc::new(&k, self.flags, &data, date),
            1 => Bc::compressed(&k, self.flags, &data, date),
            _ => Bc::new(&k, self.flags, &compress(&data), date),
        };
        let mut body = None;
        let mut ov = ov_id(seed, self.overlay as u64);
        for s in &self.spoils {
            match s {
                Sp::SigBit(n) => {
                    if !b.sig.is_empty() {
                        let i = *n as usize % (b.sig.len() * 8);
                        b.sig[i / 8] ^= 1 << (i % 8);
                    }
                }
                Sp::SigLen(n) => b.sig.resize(*n as usize, 1),
                Sp::Data(n) => {
                    if !b.data.is_empty() {
                        let i = *n as usize % b.data.len();
                        b.data[i] ^= 1 + (*n >> 8) as u8 % 255;
                    }
                }
                Sp::DataLen(n) => b.data.resize((b.data.len() as i64 + *n as i64).max(0) as usize, 0),
                Sp::Date(n) => b.date = b.date.wrapping_add(*n as u32),
                Sp::Flag(n) => b.flags ^= 1 << n,
                Sp::Src(n) => b.src = pubkey_tl(&other(*n).public),
                Sp::SrcKind(n) => {
                    b.src = match n % 4 {
                        0 => W::new().u32(id::pub_overlay()).bytes(&k.public).done(),
                        1 => W::new().u32(id::pub_unenc()).bytes(&k.public).done(),
                        2 => W::new().u32(id::pub_aes()).raw(&k.public).done(),
                        _ => W::new().u32(id::pub_ed25519()).raw(&[0xff; 32]).done(),
                    }
                }
                Sp::Resign(n) => {
                    let o = other(*n);
                    b.sig = o.sign(&Bc::to_sign(&o.public, b.flags, &b.data, b.date)).to_vec();
                }
                Sp::Overlay(n) => ov = ov_id(seed, *n as u64 % 4),
                Sp::Certificate(n) => {
                    b.cert = W::new().u32(id::certificate()).raw(&pubkey_tl(&other(*n as u8).public)).u32(*n).u32(*n).bytes(&[1; 64]).done()
                }
                Sp::Kind(n) => {
                    body = Some(match n % 6 {
                        0 => W::new().u32(id::fec_received()).raw(&sha256(&b.data)).done(),
                        1 => W::new().u32(id::fec_completed()).raw(&sha256(&b.data)).done(),
                        2 => W::new().u32(id::unicast()).bytes(&b.data).done(),
                        3 => W::new().u32(id::broadcast_not_found()).done(),
                        4 => W::new().u32(id::broadcast_fec_short()).raw(&b.src).raw(&b.cert).raw(&sha256(&b.data)).raw(&sha256(&b.data)).u32(0).bytes(&b.sig).done(),
                        _ => W::new().u32(*n as u32).raw(&b.tl()).done(),
                    })
                }
                _ => {}
            }
        }
        let mut m = wrap(&ov, &body.unwrap_or_else(|| b.tl()));
        for s in &self.spoils {
            match s {
                Sp::Cut(n) => m.truncate(4 + *n as usize % (m.len() - 4).max(1)),
                Sp::Extend(x) => m.extend(x),
                Sp::Flip(n) if m.len() > 4 => {
                    let i = 32 + *n as usize % (m.len() * 8 - 32);
                    m[i / 8] ^= 1 << (i % 8);
                }
                _ => {}
            }
        }
        m
    }
}

#[derive(Clone, Debug)]
pub enum Op1 {
    Send(u8, BcGen),
    Again(u8, u8),
    Wait(u32),
    Own { len: u16, tag: u8, key: bool, overlay: u8 },
    /// an own packet comes back
    Echo(u8, u8),
}
#[derive(Clone, Debug)]
pub struct C1 {
    seed: u64,
    members: u8,
    secondary: u32,
    targets: u32,
    timeout: u64,
    log: u32,
    compress: bool,
    ops: Vec<Op1>,
}
pub fn c1(spoiled: bool, repeats: bool) -> impl Strategy<Value = C1> {
    let (ws, wa) = if repeats { (3, 6) } else { (6, 1) };
    let op = prop_oneof![
        ws => (any::<u8>(), bc_gen(spoiled)).prop_map(|(a, b)| Op1::Send(a, b)),
        wa => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op1::Again(a, b)),
        1 => prop_oneof![0u32..2500, 2500u32..90_000].prop_map(Op1::Wait),
        wa => (prop_oneof![0u16..50, 50u16..769], 0u8..2, any::<bool>(), 0u8..2).prop_map(|(len, tag, key, overlay)| Op1::Own { len, tag, key, overlay }),
        wa => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op1::Echo(a, b)),
    ];
    (
        1u64..1_000_000,
        0u8..7,
        prop_oneof![4 => 0u32..7, 1 => Just(u32::MAX)],
        prop_oneof![4 => 0u32..7, 1 => Just(u32::MAX)],
        prop_oneof![3 => Just(60u64), 1 => 1u64..5, 1 => Just(u32::MAX as u64)],
        prop_oneof![2 => Just(1000u32), 1 => 0u32..3],
        any::<bool>(),
        prop::collection::vec(op, 1..14),
    )
        .prop_map(|(seed, members, secondary, targets, timeout, log, compress, ops)| C1 { seed: seed * 1000, members, secondary, targets, timeout, log, compress, ops })
}

/// What the node should do with a message, judged by its bytes
enum Verdict {
    /// overlay, data, author, what makes it distinct, date
    Good(usize, Vec<u8>, B32, B32, u32),
    Bad,
    /// not in the one encoding that the scheme prescribes
    Unspecified,
}
fn judge(m: &[u8], overlays: &[B32], timeout: u64) -> Verdict {
    let Some((o, body)) = unwrap(m) else { return Verdict::Bad };
    let Some(k) = overlays.iter().position(|x| *x == o) else { return Verdict::Bad };
    let Some(b) = Bc::read(&body) else { return Verdict::Bad };
    if b.tl() != body {
        return Verdict::Unspecified;
    }
    if b.date as u64 + timeout < clock::unix() as u64 {
        return Verdict::Bad;
    }
    match b.authentic() {
        Some((d, a, i)) => Verdict::Good(k, d, a, i, b.date),
        None => Verdict::Bad,
    }
}

pub async fn ordinary(c: &C1) -> CaseResult {
    let o = OverlayOptions {
        secondary_broadcast_target_count: c.secondary,
        broadcast_target_count: c.targets,
        broadcast_timeout_sec: c.timeout,
        max_broadcast_log: c.log,
        force_compression: c.compress,
        ..oopts()
    };
    let ids = [ov_id(c.seed, 0), ov_id(c.seed, 1)];
    let ov = Ov::new(&Key::nth(c.seed), &[(ids[0], o), (ids[1], o)])?;
    let keys: Vec<Key> = (0..c.members as u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut peers = ov.members(0, &keys).await?;
    // the second overlay has every other member
    for (i, k) in keys.iter().enumerate() {
        if i % 2 == 1 {
            need!(ov.add(1, &crate::dh::ONode::new(k, &ids[1], 1), peers[i].addr()).is_some(), "a member is refused");
        }
    }
    let nb = |k: usize, except: usize| (0..c.members as usize).filter(|i| *i != except && (k == 0 || i % 2 == 1)).count();
    let mut outsider = RefPeer::new(Key::nth(c.seed + 30), &ov.s);
    outsider.connect().await?;
    peers.push(outsider);
    let own = ov.o[0].overlay_key().clone();
    let own2 = std::sync::Arc::new(everscale_network::adnl::Key::from_bytes(Key::nth(c.seed + 40).seed));
    // distinct -> when it was received
    let mut seen: BTreeMap<(usize, B32), u64> = BTreeMap::new();
    let mut sent: Vec<Vec<u8>> = vec![];
    let mut own_packets: Vec<Vec<u8>> = vec![];
    let (mut good, mut bad, mut again) = (0, 0, 0);
    for op in &c.ops {
        let (from, m) = match op {
            Op1::Wait(ms) => {
                advance(*ms as u64, 500.max(*ms as u64 / 40)).await;
                continue;
            }
            Op1::Own { len, tag, key, overlay } => {
                let k = *overlay as usize;
                let data = payload(c.seed + 70 + *tag as u64, *len as usize);
                let key = if *key { &own2 } else { &own };
                let now = clock::unix();
                let info = ov.o[k].broadcast(&ov.s.node, data.clone(), Some(key), BroadcastTarget::RandomNeighbours);
                settle().await;
                let mut n = 0;
                for (i, p) in peers.iter_mut().enumerate() {
                    for m in customs(p) {
                        n += 1;
                        check!(i < c.members as usize && (k == 0 || i % 2 == 1), "an own broadcast goes to a peer that is no member");
                        let (v, d) = match judge(&m, &ids, c.timeout) {
                            Verdict::Good(k, d, a, i, _) => ((k, a, i), d),
                            _ => viol!("the own broadcast is invalid: {}", hex::encode(&m)),
                        };
                        check!(v.0 == k && v.1 == *key.id().as_slice() && d == data, "the own broadcast is altered");
                        own_packets.push(m);
                        seen.insert((k, v.2), clock::ms());
                    }
                }
                let full = *everscale_network::adnl::NodeIdFull::new(*key.full_id().public_key()).public_key().as_bytes();
                let i = sha256(&Bc::to_sign(&full, 1, &data, now));
                let expect = (c.targets as usize).min(nb(k, usize::MAX));
                if n != expect {
                    // the same broadcast in the same second
                    check!(n == 0 && seen.get(&(k, i)).is_some(), "an own broadcast goes to {n} peers instead of {expect}");
                }
                check!(info.recipient_count == n, "{} recipients are reported, there are {n}", info.recipient_count);
                seen.entry((k, i)).or_insert(clock::ms());
                for k in 0..2 {
                    check!(ov.drain(k).await.is_empty(), "an own broadcast is delivered");
                }
                continue;
            }
            Op1::Send(f, g) => (*f, g.build(c.seed)),
            Op1::Again(f, w) if !sent.is_empty() => (*f, sent[*w as usize % sent.len()].clone()),
            Op1::Echo(f, w) if !own_packets.is_empty() => (*f, own_packets[*w as usize % own_packets.len()].clone()),
            _ => continue,
        };
        let from = from as usize % peers.len();
        let v = judge(&m, &ids, c.timeout);
        let now = clock::ms();
        let (mut deliver, mut forward) = ([vec![], vec![]], 0);
        match &v {
            Verdict::Unspecified => continue,
            Verdict::Good(k, d, a, i, _) => match seen.get(&(*k, *i)) {
                Some(t) if now - t >= c.timeout * 1000 => continue,
                Some(_) => again += 1,
                None => {
                    good += 1;
                    seen.insert((*k, *i), now);
                    deliver[*k].push((d.clone(), *a, 1));
                    forward = (c.secondary as usize).min(nb(*k, from));
                }
            },
            Verdict::Bad => bad += 1,
        }
        let mut got = vec![vec![]; peers.len()];
        got[from] = send_custom(&mut peers[from], &m).await?;
        for (i, p) in peers.iter_mut().enumerate() {
            got[i].extend(customs(p));
        }
        for k in 0..2 {
            let d = ov.drain(k).await;
            check!(
                d == deliver[k],
                "overlay {k} delivers {} broadcasts instead of {} after {op:?}{}",
                d.len(),
                deliver[k].len(),
                if d.len() == deliver[k].len() { " (different ones)" } else { "" }
            );
        }
        let mut n = 0;
        for (i, g) in got.iter().enumerate() {
            if g.is_empty() {
                continue;
            }
            check!(g.len() == 1, "a broadcast is passed to a peer {} times", g.len());
            check!(g[0] == m, "an altered broadcast is passed on");
            check!(i != from, "a broadcast is passed back to its sender");
            let k = matches!(v, Verdict::Good(1, ..)) as usize;
            check!(i < c.members as usize && (k == 0 || i % 2 == 1), "a broadcast is passed to a peer that is no member");
            n += 1;
        }
        check!(n == forward, "a broadcast is passed to {n} peers instead of {forward} after {op:?}");
        sent.push(m);
    }
    check!(ov.s.take().iter().all(|e| e.query), "an overlay message reaches another handler");
    Ok(good > 0 && bad + again > 0)
}
pub fn o01_run(c: &mut Ctx) {
    c.scenario("packets", "genuine broadcasts are delivered and others refused", 1500, || c1(true, false), |v| run(ordinary(v)));
}
pub fn o03_run(c: &mut Ctx) {
    c.scenario("packets", "a repeated broadcast is neither delivered nor passed on again", 1200, || c1(false, true), |v| run(ordinary(v)));
    c.scenario("parts", "a large broadcast is delivered and parts are refused", 800, || super::o2::c2(1, 4), |v| run(super::o2::large(v)));
    super::o3::o03_at_once(c);
}
pub fn o05_run(c: &mut Ctx) {
    c.scenario("packets", "genuine broadcasts are delivered and others refused", 1200, || c1(true, true), |v| run(ordinary(v)));
    c.scenario("parts", "a large broadcast is delivered and parts are refused", 800, || super::o2::c2(2, 2), |v| run(super::o2::large(v)));
}
