//! U01-U03
use crate::fx::*;
use everscale_network::adnl::{self, ComputeNodeIds, Keystore, NodeIdShort, PeersSet};
use everscale_network::{overlay, proto};
use proptest::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};

// ------------------------------------------------------------------ U01

#[derive(Clone, Debug)]
enum SetOp {
    Insert(u8),
    Remove(u8),
    Extend(Vec<u8>),
    Random { amount: u32, except: Option<u8> },
    Fill { from: Vec<u8>, cap: u32, amount: u32, except: Option<Vec<u8>> },
    FillSelf(u32),
}

fn set_op() -> impl Strategy<Value = SetOp> {
    let amount = || prop_oneof![6 => 0u32..30, 1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31])];
    let ids = || prop::collection::vec(0u8..40, 0..25);
    prop_oneof![
        8 => (0u8..40).prop_map(SetOp::Insert),
        2 => (0u8..40).prop_map(SetOp::Remove),
        2 => ids().prop_map(SetOp::Extend),
        4 => (amount(), prop::option::of(0u8..40)).prop_map(|(amount, except)| SetOp::Random { amount, except }),
        2 => (ids(), 1u32..30, amount(), prop::option::of(ids())).prop_map(|(from, cap, amount, except)| SetOp::Fill { from, cap, amount, except }),
        1 => amount().prop_map(SetOp::FillSelf),
    ]
}

fn nid(i: u8) -> NodeIdShort {
    NodeIdShort::new(sha256(&[i, 1, 2]))
}

struct Model {
    cap: usize,
    q: VecDeque<u8>,
    version: u64,
}
impl Model {
    fn insert(&mut self, i: u8) -> bool {
        if self.q.contains(&i) {
            return false;
        }
        if self.q.len() == self.cap {
            self.q.pop_front();
        }
        self.q.push_back(i);
        self.version += 1;
        true
    }
}

fn same(s: &PeersSet, m: &Model) -> Result<(), Fail> {
    let names: HashMap<NodeIdShort, u8> = (0..=255u8).map(|i| (nid(i), i)).collect();
    let want: HashSet<u8> = m.q.iter().copied().collect();
    let it: Vec<u8> = s.iter().map(|x| names[x]).collect();
    let set: HashSet<u8> = it.iter().copied().collect();
    check!(set.len() == it.len(), "the set holds duplicates: {it:?}");
    check!(set == want, "the set holds {it:?}, expected {:?}", m.q);
    check!(it.len() <= m.cap, "{} entries, capacity {}", it.len(), m.cap);
    let ix: Vec<u8> = (0..it.len()).map(|i| s.get(i).map(|x| names[&x]).unwrap_or(255)).collect();
    check!(ix == it && s.get(it.len()).is_none() && s.get(usize::MAX).is_none(), "indexing disagrees with iteration");
    let cl: Vec<u8> = s.clone_inner().iter().map(|x| names[x]).collect();
    check!(cl == it, "clone_inner disagrees with iteration");
    check!(s.len() == it.len() && s.is_empty() == it.is_empty(), "length");
    check!(s.is_full() == (it.len() == m.cap), "fullness");
    for i in 0..45u8 {
        check!(s.contains(&nid(i)) == want.contains(&i), "membership of {i}");
    }
    check!(s.version() == m.version, "version {}, {} successful insertions", s.version(), m.version);
    check!(s.iter().size_hint() == (it.len(), Some(it.len())), "size hint");
    Ok(())
}

fn u01(init: &Option<Vec<u8>>, cap: u32, ops: &[SetOp]) -> CaseResult {
    let mut m = Model { cap: cap as usize, q: VecDeque::new(), version: 0 };
    let s = match init {
        None => PeersSet::with_capacity(cap),
        Some(v) => {
            for i in v {
                if m.q.len() < m.cap {
                    m.insert(*i);
                }
            }
            let v: Vec<_> = v.iter().map(|i| nid(*i)).collect();
            PeersSet::with_peers_and_capacity(&v, cap)
        }
    };
    m.version = s.version();
    same(&s, &m)?;
    let mut evicted = false;
    let mut loose = false;
    for op in ops {
        match op {
            SetOp::Remove(i) => {
                let before = s.clone_inner();
                let want = m.q.contains(i);
                let got = s.remove(&nid(*i));
                check!(got == want, "remove({i}) returned {got}");
                let after = s.clone_inner();
                check!(after.len() == before.len() - want as usize && after.iter().all(|x| before.contains(x) && *x != nid(*i)), "removing {i} of {} entries leaves {}", before.len(), after.len());
                m.q.retain(|x| x != i);
                m.version += want as u64;
                // which one is the oldest is not defined any more
                loose |= want;
            }
            SetOp::Insert(i) if loose && m.q.len() == m.cap && !m.q.contains(i) => {
                let before = s.clone_inner();
                check!(s.insert(nid(*i)), "insert({i}) into a full set returned false");
                let after = s.clone_inner();
                check!(after.len() == m.cap && after.contains(&nid(*i)), "{} entries after insert({i}) into a full set of {}", after.len(), m.cap);
                let gone: Vec<u8> = m.q.iter().copied().filter(|x| !after.contains(&nid(*x))).collect();
                check!(gone.len() == 1 && before.contains(&nid(gone[0])), "insert({i}) into a full set removed {} entries", gone.len());
                m.q.retain(|x| *x != gone[0]);
                m.q.push_back(*i);
                m.version += 1;
            }
            SetOp::Insert(i) => {
                let full = m.q.len() == m.cap;
                let want = m.insert(*i);
                let got = s.insert(nid(*i));
                check!(got == want, "insert({i}) returned {got}");
                evicted |= full && want;
            }
            SetOp::Extend(v) if loose => {
                s.extend(v.iter().map(|i| nid(*i)));
                let names: HashMap<NodeIdShort, u8> = (0..=255u8).map(|i| (nid(i), i)).collect();
                let after = s.clone_inner();
                let set: HashSet<_> = after.iter().collect();
                check!(set.len() == after.len() && after.len() <= m.cap, "duplicates or too many entries after extending");
                for x in &after {
                    check!(m.q.contains(&names[x]) || v.contains(&names[x]), "an id was added that was not given");
                }
                if after.len() < m.cap {
                    check!(m.q.iter().chain(v).all(|x| after.contains(&nid(*x))), "an id is missing after extending a set that is not full");
                }
                m.q = after.iter().map(|x| names[x]).collect();
                m.version = s.version();
            }
            SetOp::Extend(v) => {
                for i in v {
                    m.insert(*i);
                }
                s.extend(v.iter().map(|i| nid(*i)));
            }
            SetOp::Random { amount, except } => {
                let e = except.map(nid);
                let r = s.get_random_peers(*amount, e.as_ref());
                let d: HashSet<_> = r.iter().collect();
                check!(d.len() == r.len(), "random selection repeats a member");
                for x in &r {
                    check!(s.contains(x), "random selection returned an id that is not in the set");
                    check!(Some(*x) != e, "random selection returned the excepted id");
                }
                let avail = m.q.iter().filter(|x| Some(**x) != *except).count();
                check!(r.len() == avail.min(*amount as usize), "{} members were selected, {amount} requested, {avail} available", r.len());
            }
            SetOp::Fill { from, cap, amount, except } => {
                let v: Vec<_> = from.iter().map(|i| nid(*i)).collect();
                let other = PeersSet::with_peers_and_capacity(&v, *cap);
                // what is allowed to be taken over
                let pool: Vec<NodeIdShort> = other.clone_inner().into_iter().filter(|x| !except.as_ref().map(|e| e.iter().any(|i| nid(*i) == *x)).unwrap_or(false)).collect();
                let before: Vec<NodeIdShort> = s.clone_inner();
                let v0 = s.version();
                if let Some(e) = except {
                    let ds = e.iter().map(|i| nid(*i)).collect();
                    s.randomly_fill_from(&other, *amount, Some(&ds));
                } else {
                    s.randomly_fill_from(&other, *amount, None);
                }
                let after: Vec<NodeIdShort> = s.clone_inner();
                check!(other.clone_inner().len() == other.len(), "the source changed");
                let n = (s.version() - v0) as usize;
                let fresh = pool.iter().filter(|x| !before.contains(x)).count();
                let taken = pool.len().min(*amount as usize);
                check!(n <= taken, "{n} were added, at most {amount} of {} were allowed", pool.len());
                // those not added were members already
                let present = pool.iter().filter(|x| before.contains(x)).count();
                check!(n + present >= taken && n <= fresh + present, "{n} were added, {taken} had to be selected of which {present} could be members already");
                for x in &after {
                    check!(before.contains(x) || pool.contains(x), "an id was added that may not be");
                }
                // follow the real choice; order of the additions is not visible
                let names: HashMap<NodeIdShort, u8> = (0..=255u8).map(|i| (nid(i), i)).collect();
                if after.len() < m.cap || n == 0 {
                    for x in &after {
                        m.insert(names[x]);
                    }
                    check!(m.q.len() == after.len(), "members were lost while filling");
                    m.version = s.version();
                    same(&s, &m)?;
                } else {
                    // evictions during a fill: only the invariants
                    let set: HashSet<_> = after.iter().collect();
                    check!(set.len() == after.len() && after.len() <= m.cap, "duplicates or too many entries after a fill");
                    return Ok(true);
                }
            }
            SetOp::FillSelf(a) => s.randomly_fill_from(&s, *a, None),
        }
        same(&s, &m)?;
    }
    let mut all: Vec<NodeIdShort> = s.into_iter().collect();
    let mut want: Vec<NodeIdShort> = m.q.iter().map(|i| nid(*i)).collect();
    all.sort();
    want.sort();
    check!(all == want, "consuming the set gives {} entries, expected {}", all.len(), want.len());
    Ok(evicted)
}

pub fn u01_run(c: &mut Ctx) {
    c.scenario(
        "histories",
        "a full set evicted its oldest entry",
        20_000,
        || (prop::option::of(prop::collection::vec(0u8..40, 0..25)), prop_oneof![1u32..6, 6u32..30], prop::collection::vec(set_op(), 0..60)),
        |c| u01(&c.0, c.1, &c.2),
    );
    c.scenario("threads", "more than two threads", 200, crate::p::t1::shared_gen, crate::p::t1::shared);
}

// ------------------------------------------------------------------ U02

fn u02(builder: &[(u8, usize)], ops: &[(u8, usize)], batch: bool) -> CaseResult {
    let seed = |k: u8| sha256(&[k, 7]);
    let mut tags: HashMap<usize, u8> = HashMap::new();
    let mut nt = false;
    let mut add = |k: u8, t: usize, nt: &mut bool| -> bool {
        if let Some(x) = tags.get(&t) {
            *nt |= *x != k;
            return *x == k;
        }
        if tags.values().any(|x| *x == k) {
            *nt = true;
            return false;
        }
        tags.insert(t, k);
        true
    };
    let mut b = Keystore::builder();
    let mut ok = true;
    if batch {
        let list: Vec<([u8; 32], usize)> = builder.iter().map(|(k, t)| (seed(*k), *t)).collect();
        for (k, t) in builder {
            ok = ok && add(*k, *t, &mut nt);
        }
        match b.with_tagged_keys(list) {
            Ok(x) => {
                check!(ok, "a duplicate key or tag was accepted by with_tagged_keys");
                b = x;
            }
            Err(_) => {
                check!(!ok, "with_tagged_keys refused distinct keys and tags");
                return Ok(true);
            }
        }
    } else {
        for (k, t) in builder {
            let want = add(*k, *t, &mut nt);
            match b.with_tagged_key(seed(*k), *t) {
                Ok(x) => {
                    check!(want, "a duplicate key or tag was accepted by with_tagged_key");
                    b = x;
                }
                Err(_) => {
                    check!(!want, "with_tagged_key refused a fresh key and tag");
                    return Ok(true);
                }
            }
        }
    }
    let mut s = b.build();
    for (k, t) in ops {
        let want = add(*k, *t, &mut nt);
        let key = Key::new(seed(*k));
        match s.add_key(seed(*k), *t) {
            Ok(id) => {
                check!(want, "add_key accepted a duplicate (key {k}, tag {t})");
                check!(*id.as_slice() == key.id, "add_key returned a wrong id");
            }
            Err(e) => check!(!want, "add_key refused key {k} with tag {t}: {e}"),
        }
    }
    // exactly the added ones
    check!(s.keys().len() == tags.len(), "{} keys, {} were added", s.keys().len(), tags.len());
    for t in 0..12usize {
        match (tags.get(&t), s.key_by_tag(t)) {
            (Some(k), Ok(x)) => {
                let key = Key::new(seed(*k));
                check!(*x.id().as_slice() == key.id && *x.full_id().public_key().as_bytes() == key.public, "tag {t} gives another key");
                let v = x.sign(proto::adnl::Pong { value: t as u64 });
                let content = W::new().u32(id::pong()).u64(t as u64).done();
                check!(verify(&key.public, &content, &v), "the signature of tag {t} does not verify");
            }
            (None, Err(e)) => check!(e.to_string() == format!("Key tag not found: {t}"), "tag {t} was not added; looking it up gives: {e}"),
            (Some(_), Err(e)) => viol!("tag {t} was added and is not found: {e}"),
            (None, Ok(_)) => viol!("tag {t} was not added and is found"),
        }
    }
    for k in 0..8u8 {
        let key = Key::new(seed(k));
        let have = tags.values().any(|x| *x == k);
        match s.key_by_id(&short(&key.id)) {
            Ok(x) => check!(have && *x.id().as_slice() == key.id, "key {k} is found and was not added (or is another one)"),
            Err(_) => check!(!have, "key {k} was added and is not found"),
        }
    }
    Ok(nt)
}


pub fn u02_run(c: &mut Ctx) {
    c.scenario(
        "histories",
        "a duplicate key or tag was refused",
        6000,
        || {
            let kt = || (0u8..8, 0usize..12);
            (prop::collection::vec(kt(), 0..4), prop::collection::vec(kt(), 0..20), any::<bool>())
        },
        |c| u02(&c.0, &c.1, c.2),
    );
}

// ------------------------------------------------------------------ U03

#[derive(Clone, Debug)]
struct U03Case {
    a: u64,
    b: u64,
    overlay: [u8; 32],
    hash: [u8; 32],
    nodes: Vec<[u8; 32]>,
    workchain: i32,
    version: u32,
    /// which field of the record is altered (0: none) and how
    alter: u8,
    byte: u16,
    bit: u8,
    value: u64,
}

fn scalar_plus_l(sig: &[u8; 64]) -> Option<[u8; 64]> {
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut r = *sig;
    let mut carry = 0u16;
    for i in 0..32 {
        let v = sig[32 + i] as u16 + L[i] as u16 + carry;
        r[32 + i] = v as u8;
        carry = v >> 8;
    }
    (carry == 0).then_some(r)
}

fn u03(c: &U03Case) -> CaseResult {
    let (k, other) = (Key::nth(c.a), Key::nth(c.b));
    let sut = adnl::Key::from_bytes(k.seed);
    // ids
    let pk = everscale_network::crypto::ed25519::PublicKey::from_bytes(k.public).unwrap();
    let (f, s) = pk.compute_node_ids();
    check!(*s.as_slice() == sha256(&pubkey_tl(&k.public)), "the short id is not the hash of the key's TL form");
    check!(f.compute_short_id() == s && *sut.id() == s && *sut.full_id() == f, "ids of one key disagree");
    let (f2, s2) = everscale_network::crypto::ed25519::SecretKey::from_bytes(k.seed).compute_node_ids();
    check!(f2 == f && s2 == s, "ids computed from the secret key differ");
    check!((s == short(&other.id)) == (c.a == c.b), "ids of distinct keys are equal or of equal keys distinct");
    // hex forms
    check!(s.to_string() == hex::encode(k.id), "display form");
    check!(!s.is_zero() && adnl::NodeIdShort::new([0; 32]).is_zero(), "only the id of zeros is zero");
    check!(format!("{s:?}") == hex::encode(k.id), "debug form");
    check!(adnl::NodeIdShort::from(k.id) == s && <[u8; 32]>::from(s) == k.id && <[u8; 32]>::from(&s) == k.id, "conversions of ids");
    check!(s == k.id && s == k.id[..] && *std::borrow::Borrow::<[u8; 32]>::borrow(&s) == k.id, "comparisons of ids");
    check!(adnl::NodeIdShort::random() != adnl::NodeIdShort::random(), "two random ids are equal");
    for i in 0..32 {
        let mut z = [0; 32];
        z[i] = 1 << (k.id[i] % 8);
        check!(!adnl::NodeIdShort::new(z).is_zero(), "only the id of zeros is zero");
    }
    // overlay ids
    let wo = overlay::IdFull::for_workchain_overlay(c.workchain, &c.hash);
    let want = sha256(&W::new().u32(id::shard_public_overlay_id()).u32(c.workchain as u32).u64(1 << 63).raw(&c.hash).done());
    check!(*wo.as_slice() == want, "full id of a workchain overlay");
    check!(*wo.compute_short_id().as_slice() == sha256(&W::new().u32(id::pub_overlay()).bytes(&want).done()), "short id of an overlay");
    let co = overlay::IdFull::for_catchain_overlay(&c.hash, c.nodes.iter());
    let mut w = W::new().u32(id::catchain_first_block()).raw(&c.hash).u32(c.nodes.len() as u32);
    for n in &c.nodes {
        w = w.raw(n);
    }
    check!(*co.as_slice() == sha256(&w.done()), "full id of a catchain overlay");
    // signatures
    let content = W::new().u32(id::pong()).u64(c.value).done();
    let made = sut.sign(proto::adnl::Pong { value: c.value });
    check!(verify(&k.public, &content, &made), "a signature made by the node does not verify elsewhere");
    let theirs = k.sign(&content);
    let v = |key: &Key, value: u64, sig: &[u8]| full(&key.public).verify(proto::adnl::Pong { value }, sig).is_ok();
    check!(v(&k, c.value, &theirs), "a correct signature is refused");
    check!(v(&other, c.value, &theirs) == (c.a == c.b), "a signature verifies for another key");
    check!(!v(&k, c.value ^ (1 << (c.bit as u64 * 8 + c.byte as u64 % 8)), &theirs), "a signature verifies for other contents");
    let mut bad = theirs;
    bad[c.byte as usize % 64] ^= 1 << c.bit;
    check!(!v(&k, c.value, &bad), "an altered signature (byte {}, bit {}) verifies", c.byte % 64, c.bit);
    for n in [0usize, 1, 63] {
        check!(!v(&k, c.value, &theirs[..n]), "a cut signature verifies");
    }
    let mut long = theirs.to_vec();
    long.push(c.byte as u8);
    check!(!v(&k, c.value, &long), "a longer signature verifies");
    if let Some(m) = scalar_plus_l(&theirs) {
        check!(!v(&k, c.value, &m), "a signature with a non-canonical scalar verifies");
    }
    // overlay node records
    let to_sign = |key_id: &B32, ov: &B32, version: u32| W::new().u32(id::overlay_node_to_sign()).raw(key_id).raw(ov).u32(version).done();
    let mut sig = k.sign(&to_sign(&k.id, &c.overlay, c.version)).to_vec();
    let (mut key, mut ov, mut version) = (k.public, c.overlay, c.version);
    let mut asked = c.overlay;
    match c.alter {
        1 => key = other.public,
        2 => ov[c.byte as usize % 32] ^= 1 << c.bit,
        3 => version ^= 1 << (c.byte % 32),
        4 => sig[c.byte as usize % 64] ^= 1 << c.bit,
        5 => {
            sig.truncate(c.byte as usize % 64);
        }
        6 => {
            // the record is right and for another overlay
            asked[c.byte as usize % 32] ^= 1 << c.bit;
        }
        7 => {
            // consistently moved to another overlay without its owner
            ov[c.byte as usize % 32] ^= 1 << c.bit;
            asked = ov;
        }
        8 => sig = other.sign(&to_sign(&k.id, &c.overlay, c.version)).to_vec(),
        9 => sig = k.sign(&to_sign(&other.id, &c.overlay, c.version)).to_vec(),
        _ => {}
    }
    let node = proto::overlay::Node { id: everscale_network::crypto::tl::PublicKey::Ed25519 { key: &key }, overlay: &ov, version, signature: &sig };
    let ok = overlay::IdShort::new(asked).verify_overlay_node(&node).is_ok();
    let want = c.alter == 0 || c.alter >= 10 || (c.a == c.b && matches!(c.alter, 1 | 8 | 9));
    check!(ok == want, "an overlay node record (alteration {}) was {}", c.alter, if ok { "accepted" } else { "refused" });
    // through bytes as well
    let bytes = W::new().u32(id::pub_ed25519()).raw(&key).raw(&ov).u32(version).bytes(&sig).done();
    let parsed: proto::overlay::Node = match everscale_network::tl::deserialize(&bytes) {
        Ok(x) => x,
        Err(e) => viol!("a record in the published encoding does not parse: {e}"),
    };
    check!(overlay::IdShort::new(asked).verify_overlay_node(&parsed).is_ok() == want, "the parsed record is judged differently");
    check!(everscale_network::tl::serialize(parsed) == bytes, "the record is encoded differently from the published form");
    Ok(!want)
}

pub fn u03_run(c: &mut Ctx) {
    c.scenario(
        "ids_and_signatures",
        "an altered overlay record was refused",
        6000,
        || {
            (
                (0u64..1000, 0u64..1000, any::<[u8; 32]>(), any::<[u8; 32]>()),
                (prop::collection::vec(any::<[u8; 32]>(), 0..6), any::<i32>(), any::<u32>(), 0u8..12, any::<u16>(), 0u8..8, any::<u64>()),
            )
                .prop_map(|((a, b, overlay, hash), (nodes, workchain, version, alter, byte, bit, value))| U03Case { a, b, overlay, hash, nodes, workchain, version, alter, byte, bit, value })
        },
        u03,
    );
}
