//! O02: large (FEC) broadcasts at one node; also used by O03 and O05
use super::o1::{date_of, dates};
use crate::fx::*;
use crate::ov::*;
use crate::rl::{compress, decompress};
use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct FecGen {
    author: u8,
    flags: u32,
    /// which data; equal tags with equal length are equal data
    tag: u8,
    len: u32,
    compressed: bool,
    /// the data itself looks like something compressed
    blob: bool,
    symbol: u32,
    overlay: u8,
}
impl FecGen {
    pub fn len(&self) -> u32 {
        self.len
    }
    fn data(&self, seed: u64) -> Vec<u8> {
        let d = payload(seed + self.tag as u64 % 2, self.len as usize);
        if self.blob {
            compress(&d)
        } else {
            d
        }
    }
}
pub fn fec_gen() -> impl Strategy<Value = FecGen> {
    (
        0u8..3,
        prop_oneof![3 => Just(1u32), 2 => Just(0u32), 1 => any::<u32>()],
        0u8..2,
        prop_oneof![1 => 1u32..64, 3 => 64u32..3000, 2 => 3000u32..12_000, 1 => 40_000u32..90_000],
        prop::bool::weighted(0.3),
        prop::bool::weighted(0.15),
        prop_oneof![3 => Just(768u32), 2 => Just(64u32), 1 => (8u32..140).prop_map(|x| x * 8)],
        prop_oneof![4 => Just(0u8), 1 => Just(1u8)],
    )
        .prop_map(|(author, flags, tag, len, compressed, blob, symbol, overlay)| FecGen {
            author,
            flags,
            tag,
            len: if symbol < 256 { len } else { len.min(30_000) },
            compressed,
            blob,
            symbol,
            overlay,
        })
}

/// How a part is spoiled; `resign` tells who signs it afterwards
#[derive(Clone, Debug)]
pub enum Fs {
    SigBit(u16),
    SigLen(u8),
    Data(u16),
    DataLen(i8),
    Date(i32),
    Flag(u8),
    Src(u8),
    Seqno(u32),
    Size(u32),
    Fec(u8, u32),
    Hash(u8),
    // of the whole message
    Cut(u16),
    Extend(u8),
    Flip(u16),
    Overlay(u8),
}
pub fn fs() -> impl Strategy<Value = Fs> {
    let word = || prop_oneof![Just(0u32), Just(1), Just(u32::MAX), Just(1 << 24), any::<u32>(), 0u32..100, Just(768)];
    prop_oneof![
        3 => any::<u16>().prop_map(Fs::SigBit),
        1 => any::<u8>().prop_map(Fs::SigLen),
        3 => any::<u16>().prop_map(Fs::Data),
        1 => any::<i8>().prop_map(Fs::DataLen),
        1 => prop_oneof![Just(1i32), Just(-1)].prop_map(Fs::Date),
        2 => (0u8..32).prop_map(Fs::Flag),
        2 => any::<u8>().prop_map(Fs::Src),
        3 => word().prop_map(Fs::Seqno),
        2 => word().prop_map(Fs::Size),
        3 => (0u8..3, word()).prop_map(|(a, b)| Fs::Fec(a, b)),
        1 => any::<u8>().prop_map(Fs::Hash),
        1 => any::<u16>().prop_map(Fs::Cut),
        1 => any::<u8>().prop_map(Fs::Extend),
        3 => any::<u16>().prop_map(Fs::Flip),
        1 => any::<u8>().prop_map(Fs::Overlay),
    ]
}
#[derive(Clone, Debug)]
pub enum Signer {
    Nobody,
    Author,
    /// another key, named as the source
    Other(u8),
}
#[derive(Clone, Debug)]
pub enum Op2 {
    /// parts of a broadcast: which, first, how many, order
    Parts { from: u8, bc: u8, first: u16, count: u16, order: u8, date: i64 },
    /// a spoiled part
    Bad { from: u8, bc: u8, seqno: u16, spoils: Vec<Fs>, signer: Signer, times: u8 },
    /// parts of another data under the hash of a broadcast, signed by another key
    Fake { from: u8, bc: u8, count: u8, key: u8 },
    Again { from: u8, from_end: u16, count: u8 },
    Wait(u16),
    /// the node itself broadcasts this data
    Own(u8),
}
#[derive(Clone, Debug)]
pub struct C2 {
    pub seed: u64,
    pub members: u8,
    pub secondary: u32,
    pub bcs: Vec<FecGen>,
    pub ops: Vec<Op2>,
    /// the last thing: everybody's parts, so that genuine broadcasts complete
    pub finish: bool,
}
pub fn c2(hostile: u32, repeats: u32) -> impl Strategy<Value = C2> {
    let op = prop_oneof![
        5 => (any::<u8>(), any::<u8>(), prop_oneof![3 => Just(0u16), 2 => 0u16..50, 1 => any::<u16>()], prop_oneof![3 => 0u16..12, 2 => 10u16..60, 1 => Just(2000u16)], any::<u8>(), dates())
            .prop_map(|(from, bc, first, count, order, date)| Op2::Parts { from, bc, first, count, order, date }),
        hostile => (any::<u8>(), any::<u8>(), any::<u16>(), prop::collection::vec(fs(), 1..3), prop_oneof![3 => Just(Signer::Nobody), 1 => Just(Signer::Author), 3 => any::<u8>().prop_map(Signer::Other)], 1u8..3)
            .prop_map(|(from, bc, seqno, spoils, signer, times)| Op2::Bad { from, bc, seqno, spoils, signer, times }),
        hostile => (any::<u8>(), any::<u8>(), 1u8..20, any::<u8>()).prop_map(|(from, bc, count, key)| Op2::Fake { from, bc, count, key }),
        repeats => (any::<u8>(), any::<u16>(), 1u8..20).prop_map(|(from, from_end, count)| Op2::Again { from, from_end, count }),
        1 => (0u16..3000).prop_map(Op2::Wait),
        (repeats + 1) / 2 => any::<u8>().prop_map(Op2::Own),
    ];
    (1u64..1_000_000, 0u8..5, prop_oneof![4 => 0u32..5, 1 => Just(u32::MAX)], prop::collection::vec(fec_gen(), 1..3), prop::collection::vec(op, 1..8), prop::bool::weighted(0.8))
        .prop_map(|(seed, members, secondary, bcs, ops, finish)| C2 { seed: seed * 1000, members, secondary, bcs, ops, finish })
}

/// An incoming large broadcast in the model
struct Model {
    fec: [u32; 3],
    dec: Decoder,
    seen: BTreeSet<u32>,
    used: u32,
    /// decoded; whether it was what it should be
    done: Option<bool>,
}
struct M2 {
    ids: [B32; 2],
    timeout: u64,
    /// (overlay, author, hash)
    transfers: BTreeMap<(usize, B32, B32), Model>,
    /// (overlay, hash) of what was delivered or sent
    closed: BTreeSet<(usize, B32)>,
}
#[derive(Debug, Clone, PartialEq)]
enum Say {
    Refuse,
    /// overlay it is passed on in; what is delivered
    Accept(usize, Option<Delivered>),
    /// accepted or not
    Any,
}
impl M2 {
    fn judge(&mut self, m: &[u8]) -> Say {
        let Some((o, body)) = unwrap(m) else { return Say::Refuse };
        let Some(k) = self.ids.iter().position(|x| *x == o) else { return Say::Refuse };
        let Some(f) = Fec::read(&body) else { return Say::Refuse };
        if f.date as u64 + self.timeout < clock::unix() as u64 || !f.signed() || f.seqno > 0xff_ffff {
            return Say::Refuse;
        }
        let [total, symbol, _] = f.fec;
        if total == 0 || symbol == 0 || f.size != total || f.data.len() != symbol as usize {
            return Say::Refuse;
        }
        if symbol % 8 != 0 || symbol < 64 || symbol > u16::MAX as u32 || (total - 1) / symbol >= 56403 {
            return Say::Refuse;
        }
        let author = key_id(&f.public().unwrap());
        let key = (k, author, f.hash);
        let closed = self.closed.contains(&(k, f.hash));
        if !self.transfers.contains_key(&key) {
            if closed {
                return Say::Refuse;
            }
            let dec = Decoder::new(ObjectTransmissionInformation::with_defaults(total as u64, symbol as u16));
            self.transfers.insert(key, Model { fec: f.fec, dec, seen: Default::default(), used: 0, done: None });
        }
        let t = self.transfers.get_mut(&key).unwrap();
        if t.fec != f.fec || !t.seen.insert(f.seqno) {
            return Say::Refuse;
        }
        match t.done {
            Some(true) => return Say::Accept(k, None),
            // the author did not tell the truth about the hash
            Some(false) => return Say::Any,
            None => {}
        }
        t.used += 1;
        let Some(d) = t.dec.decode(EncodingPacket::new(PayloadId::new(0, f.seqno), f.data.clone())) else { return Say::Accept(k, None) };
        let got = decompress(&d).into_iter().chain([d.clone()]).find(|x| sha256(x) == f.hash);
        t.done = Some(got.is_some());
        let used = t.used;
        match got {
            Some(d) if self.closed.insert((k, f.hash)) => Say::Accept(k, Some((d, author, used))),
            _ => Say::Accept(k, None),
        }
    }
}

pub async fn large(c: &C2) -> CaseResult {
    let o = OverlayOptions { secondary_fec_broadcast_target_count: c.secondary, ..oopts() };
    let ids = [ov_id(c.seed, 0), ov_id(c.seed, 1)];
    let ov = Ov::new(&Key::nth(c.seed), &[(ids[0], o), (ids[1], o)])?;
    let keys: Vec<Key> = (0..c.members as u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut peers = ov.members(0, &keys).await?;
    for (i, k) in keys.iter().enumerate() {
        if i % 2 == 1 {
            need!(ov.add(1, &crate::dh::ONode::new(k, &ids[1], 1), peers[i].addr()).is_some(), "a member is refused");
        }
    }
    let nb = |k: usize, except: usize| (0..c.members as usize).filter(|i| *i != except && (k == 0 || i % 2 == 1)).count();
    let mut outsider = RefPeer::new(Key::nth(c.seed + 30), &ov.s);
    outsider.connect().await?;
    peers.push(outsider);
    let author = |a: u64| Key::nth(c.seed + 50 + a);
    let senders: Vec<Sender> = c
        .bcs
        .iter()
        .map(|g| Sender::new(&author(g.author as u64), &g.data(c.seed), g.flags, g.compressed, g.symbol))
        .collect();
    let mut model = M2 { ids, timeout: o.broadcast_timeout_sec, transfers: Default::default(), closed: Default::default() };
    let mut sent: Vec<Vec<u8>> = vec![];
    let (mut delivered, mut refused) = (0, 0);
    let mut ops = c.ops.clone();
    if c.finish {
        for (i, s) in senders.iter().enumerate() {
            let n = s.sym.k() as u16;
            ops.push(Op2::Parts { from: i as u8, bc: i as u8, first: 0, count: n + n / 2 + 4, order: (c.seed / 1000) as u8, date: 0 });
        }
    }
    for op in &ops {
        let mut batch: Vec<Vec<u8>> = vec![];
        let from = match op {
            Op2::Wait(ms) => {
                advance(*ms as u64, 250).await;
                continue;
            }
            Op2::Own(bc) => {
                let i = *bc as usize % senders.len();
                let k = c.bcs[i].overlay as usize % 2;
                let s = &senders[i];
                if s.data.len() <= o.max_ordinary_broadcast_len || model.transfers.keys().any(|x| x.0 == k && x.2 == s.hash) {
                    continue;
                }
                ov.o[k].broadcast(&ov.s.node, s.data.clone(), None, BroadcastTarget::RandomNeighbours);
                for _ in 0..s.data.len() / 768 / 4 + 4 {
                    advance(30, 10).await;
                    for p in &mut peers {
                        // they come back later
                        for m in customs(p) {
                            sent.push(m);
                        }
                    }
                }
                model.closed.insert((k, s.hash));
                for k in 0..2 {
                    check!(ov.drain(k).await.is_empty(), "an own broadcast is delivered");
                }
                continue;
            }
            Op2::Parts { from, bc, first, count, order, date } => {
                let i = *bc as usize % senders.len();
                let s = &senders[i];
                let n = (*count).min(s.sym.k() as u16 * 3 / 2 + 8) as u32;
                let first = if *first > 100 { *first as u32 * 200 } else { *first as u32 };
                let mut seq: Vec<u32> = (first..first + n).collect();
                match order % 4 {
                    0 => {}
                    1 => seq.reverse(),
                    2 => {
                        let step = 7 + *order as usize;
                        let m = seq.len().max(1);
                        let mut x: Vec<u32> = (0..seq.len()).map(|i| seq[i * step % m]).collect();
                        x.extend(seq.iter().rev().step_by(3));
                        seq = x;
                    }
                    // the last one first
                    _ => seq.rotate_right((n > 0) as usize),
                }
                let d = date_of(*date);
                batch.extend(seq.into_iter().map(|q| wrap(&ids[c.bcs[i].overlay as usize % 2], &s.part(q, d).tl())));
                *from
            }
            Op2::Fake { from, bc, count, key } => {
                let i = *bc as usize % senders.len();
                let s = &senders[i];
                let mut f = Sender::new(&author(1 + c.bcs[i].author as u64 + *key as u64 % 2), &payload(99, s.sym.len), s.flags, false, s.sym.symbol);
                f.hash = s.hash;
                batch.extend((0..*count as u32).map(|q| wrap(&ids[c.bcs[i].overlay as usize % 2], &f.part(q, clock::unix()).tl())));
                *from
            }
            Op2::Again { from, from_end, count } => {
                let at = sent.len().saturating_sub(1 + *from_end as usize % 300.min(sent.len()).max(1));
                batch.extend(sent.iter().skip(at).take(*count as usize).cloned());
                *from
            }
            Op2::Bad { from, bc, seqno, spoils, signer, times } => {
                let i = *bc as usize % senders.len();
                let s = &senders[i];
                let mut f = s.part(*seqno as u32 % (s.sym.k() + 20), clock::unix());
                let mut ovl = c.bcs[i].overlay as u64 % 2;
                for x in spoils {
                    match x {
                        Fs::SigBit(n) if !f.sig.is_empty() => {
                            let i = *n as usize / 8 % f.sig.len();
                            f.sig[i] ^= 1 << (n % 8)
                        }
                        Fs::SigLen(n) => f.sig.resize(*n as usize, 1),
                        Fs::Data(n) if !f.data.is_empty() => {
                            let i = *n as usize % f.data.len();
                            f.data[i] ^= 1 + (*n >> 8) as u8 % 255
                        }
                        Fs::DataLen(n) => f.data.resize((f.data.len() as i64 + *n as i64).max(0) as usize, 0),
                        Fs::Date(n) => f.date = f.date.wrapping_add(*n as u32),
                        Fs::Flag(n) => f.flags ^= 1 << n,
                        Fs::Src(n) => f.src = pubkey_tl(&author(1 + c.bcs[i].author as u64 + *n as u64 % 3).public),
                        Fs::Seqno(n) => f.seqno = *n,
                        Fs::Size(n) => f.size = *n,
                        Fs::Fec(i, n) => f.fec[*i as usize % 3] = *n,
                        Fs::Hash(n) => f.hash[*n as usize % 32] ^= 1,
                        Fs::Overlay(n) => ovl = *n as u64 % 3,
                        _ => {}
                    }
                }
                match signer {
                    Signer::Nobody => {}
                    Signer::Author => {
                        f.src = pubkey_tl(&s.key.public);
                        f.sign(&s.key);
                    }
                    Signer::Other(n) => {
                        let k = author(1 + c.bcs[i].author as u64 + *n as u64 % 3);
                        f.src = pubkey_tl(&k.public);
                        f.sign(&k);
                    }
                }
                let mut m = wrap(&ov_id(c.seed, ovl), &f.tl());
                for x in spoils {
                    match x {
                        Fs::Cut(n) => m.truncate(4 + *n as usize % (m.len() - 4).max(1)),
                        Fs::Extend(n) => m.extend(vec![*n; 1 + *n as usize % 9]),
                        Fs::Flip(n) if m.len() > 4 => {
                            let i = 32 + *n as usize % (m.len() * 8 - 32);
                            m[i / 8] ^= 1 << (i % 8);
                        }
                        _ => {}
                    }
                }
                batch.extend(std::iter::repeat(m).take(*times as usize));
                *from
            }
        } as usize
            % peers.len();
        // not specified: bytes which no encoder writes, symbol numbers next to the limit
        batch.retain(|m| match unwrap(m).and_then(|(_, b)| Some((Fec::read(&b)?, b))) {
            Some((f, b)) => f.tl() == b && !(0xff_0000..=0xff_ffff).contains(&f.seqno),
            None => true,
        });
        for chunk in batch.chunks(40) {
            let mut want: BTreeMap<&[u8], Option<usize>> = BTreeMap::new();
            let mut deliver = [vec![], vec![]];
            for m in chunk {
                let v = model.judge(m);
                peers[from].send_msg(false, Msg::Custom(m.clone()));
                match v {
                    Say::Any => {
                        want.insert(m, None);
                    }
                    Say::Refuse => {
                        refused += 1;
                        want.entry(m).or_insert(Some(0));
                    }
                    Say::Accept(k, d) => {
                        want.insert(m, Some((c.secondary as usize).min(nb(k, from))));
                        deliver[k].extend(d);
                    }
                }
            }
            let mut got: BTreeMap<Vec<u8>, Vec<usize>> = BTreeMap::new();
            for m in mark(&mut peers[from]).await? {
                got.entry(m).or_default().push(from);
            }
            for (i, p) in peers.iter_mut().enumerate() {
                for m in customs(p) {
                    got.entry(m).or_default().push(i);
                }
            }
            for k in 0..2 {
                let d = ov.drain(k).await;
                delivered += d.len();
                check!(
                    d == deliver[k],
                    "overlay {k} delivers {:?} (length, author, parts) instead of {:?} after {op:?}",
                    d.iter().map(|x| (x.0.len(), x.1[0], x.2)).collect::<Vec<_>>(),
                    deliver[k].iter().map(|x| (x.0.len(), x.1[0], x.2)).collect::<Vec<_>>()
                );
            }
            for (m, to) in &got {
                let Some(w) = want.get(&m[..]) else { viol!("something else is passed on: {}", hex::encode(m)) };
                check!(!to.contains(&from), "a part is passed back to its sender");
                let set: BTreeSet<_> = to.iter().collect();
                check!(set.len() == to.len(), "a part is passed to a peer twice");
                let k = (unwrap(m).map(|x| x.0) == Some(ids[1])) as usize;
                check!(to.iter().all(|i| *i < c.members as usize && (k == 0 || i % 2 == 1)), "a part is passed to a peer that is no member");
                check!(w.is_none() || *w == Some(to.len()), "a part is passed to {} peers instead of {w:?} after {op:?}", to.len());
            }
            for (m, w) in &want {
                check!(matches!(w, None | Some(0)) || got.contains_key(*m), "a part is not passed on after {op:?}");
            }
        }
        sent.extend(batch);
        if sent.len() > 3000 {
            sent.drain(..1500);
        }
    }
    check!(ov.s.take().iter().all(|e| e.query), "an overlay message reaches another handler");
    Ok(delivered > 0 && refused > 0)
}

pub fn o02_run(c: &mut Ctx) {
    c.scenario("parts", "a large broadcast is delivered and parts are refused", 1500, || c2(3, 1), |v| run(large(v)));
}
