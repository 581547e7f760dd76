//! D01-D03: the DHT storage
use crate::dh::*;
use crate::fx::*;
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

/// How a value comes to the node
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Local,
    Remote(u8),
    /// remote, in the self-introducing form
    Intro(u8),
}
pub fn via() -> impl Strategy<Value = Via> {
    prop_oneof![3 => Just(Via::Local), 3 => (0u8..2).prop_map(Via::Remote), 1 => (0u8..2).prop_map(Via::Intro)]
}

/// Ways to spoil an authorised value (after it was signed, unless said otherwise)
#[derive(Clone, Debug)]
pub enum Spoil {
    KeySigBit(u16),
    ValSigBit(u16),
    /// which signature (0 key, 1 value, 2 both) is made by someone else
    OtherSigner(u8),
    NoSig(u8),
    ShortSig(u8, u8),
    SwapSigs,
    Rule(u8),
    /// the rule is changed before signing
    RuleSigned(u8),
    ValueBit(u16),
    ValueLen(i8),
    Ttl(i8),
    NameBit(u16),
    NameLen(i8),
    Idx(i8),
    KeyIdBit(u8),
    /// the key of another owner
    ForeignKey { resign: bool },
    /// another owner named, the key id unchanged
    ForeignOwner { resign: bool },
    OwnerKind(u8),
    /// overlay lists: signatures that are there although they must not be
    ExtraSig(u8),
    /// overlay lists: a wrong name or index with a consistent key id
    Raw(Vec<u8>),
    /// only the key signature is wrong, the signature of the value is made over it
    KeyOnly(u8, u16),
}

pub fn spoil() -> impl Strategy<Value = Spoil> {
    use Spoil::*;
    prop_oneof![
        any::<u16>().prop_map(KeySigBit),
        any::<u16>().prop_map(ValSigBit),
        (0u8..3).prop_map(OtherSigner),
        (0u8..3).prop_map(NoSig),
        (0u8..3, 1u8..64).prop_map(|(a, b)| ShortSig(a, b)),
        Just(SwapSigs),
        (0u8..3).prop_map(Rule),
        (0u8..3).prop_map(RuleSigned),
        any::<u16>().prop_map(ValueBit),
        prop_oneof![Just(-1i8), Just(1i8)].prop_map(ValueLen),
        prop_oneof![Just(-1i8), Just(1i8), any::<i8>()].prop_map(Ttl),
        any::<u16>().prop_map(NameBit),
        prop_oneof![Just(-1i8), Just(1i8)].prop_map(NameLen),
        prop_oneof![Just(-1i8), Just(1i8)].prop_map(Idx),
        any::<u8>().prop_map(KeyIdBit),
        any::<bool>().prop_map(|resign| ForeignKey { resign }),
        any::<bool>().prop_map(|resign| ForeignOwner { resign }),
        (0u8..4).prop_map(OwnerKind),
        (0u8..3).prop_map(ExtraSig),
        prop::collection::vec(any::<u8>(), 0..40).prop_map(Raw),
        (0u8..3, any::<u16>()).prop_map(|(a, b)| KeyOnly(a, b)),
    ]
}

fn flip(v: &mut [u8], bit: u16) {
    if !v.is_empty() {
        let b = bit as usize % (v.len() * 8);
        v[b / 8] ^= 1 << (b % 8);
    }
}
fn resize(v: &mut Vec<u8>, d: i8) {
    if d < 0 {
        v.pop();
    } else {
        v.push(d as u8);
    }
}

impl Spoil {
    pub fn apply(&self, v: &mut Val, owner: &Key, other: &Key) {
        use Spoil::*;
        match self {
            KeySigBit(b) => flip(&mut v.key_sig, *b),
            ValSigBit(b) => flip(&mut v.sig, *b),
            OtherSigner(w) => {
                if *w != 1 {
                    v.sign_key(other);
                    if *w == 0 {
                        v.sign_value(owner);
                    }
                }
                if *w != 0 {
                    v.sign_value(other);
                }
            }
            NoSig(w) => {
                if *w != 1 {
                    v.key_sig.clear();
                    if *w == 0 {
                        v.sign_value(owner);
                    }
                }
                if *w != 0 {
                    v.sig.clear();
                }
            }
            ShortSig(w, n) => {
                if *w != 1 {
                    v.key_sig.truncate(*n as usize);
                }
                if *w != 0 {
                    v.sig.truncate(*n as usize);
                }
            }
            SwapSigs => std::mem::swap(&mut v.key_sig, &mut v.sig),
            Rule(r) => v.rule = [id::rule_anybody(), id::rule_overlay_nodes(), id::rule_signature()][*r as usize],
            RuleSigned(r) => {
                v.rule = [id::rule_anybody(), id::rule_overlay_nodes(), id::rule_signature()][*r as usize];
                v.sign(owner);
            }
            ValueBit(b) => flip(&mut v.value, *b),
            ValueLen(d) => resize(&mut v.value, *d),
            Ttl(d) => v.ttl = v.ttl.wrapping_add(*d as i32 as u32),
            NameBit(b) => flip(&mut v.key.name, *b),
            NameLen(d) => resize(&mut v.key.name, *d),
            Idx(d) => v.key.idx = v.key.idx.wrapping_add(*d as i32 as u32),
            KeyIdBit(b) => flip(&mut v.key.id, *b as u16),
            ForeignKey { resign } => {
                v.key.id = other.id;
                if *resign {
                    v.sign(owner);
                }
            }
            ForeignOwner { resign } => {
                v.owner = pubkey_tl(&other.public);
                if *resign {
                    v.sign(other);
                }
            }
            OwnerKind(k) => {
                let raw = owner.public;
                v.owner = match k {
                    0 => W::new().u32(id::pub_aes()).raw(&raw).done(),
                    1 => W::new().u32(id::pub_unenc()).bytes(&raw).done(),
                    2 => overlay_pub(&raw),
                    _ => pubkey_tl(&raw),
                };
                v.key.id = sha256(&v.owner);
                if v.rule == id::rule_signature() {
                    v.sign(owner);
                }
            }
            ExtraSig(w) => {
                if *w != 1 {
                    v.sign_key(owner);
                }
                if *w != 0 {
                    v.sign_value(owner);
                }
            }
            Raw(d) => v.value = d.clone(),
            KeyOnly(k, b) => {
                match k {
                    0 => flip(&mut v.key_sig, *b),
                    1 => v.sign_key(other),
                    _ => v.key_sig.truncate(*b as usize % 64),
                }
                v.sign_value(owner);
            }
        }
    }
}

/// Time to live relative to now
pub fn ttl() -> impl Strategy<Value = i64> {
    prop_oneof![1 => -2i64..3, 3 => 1i64..40, 4 => 40i64..4000, 1 => Just(i64::MAX), 1 => prop::sample::select(vec![-1_700_000_000i64, -100])]
}
pub fn at(ttl: i64) -> u32 {
    (clock::unix() as i64).saturating_add(ttl).clamp(0, u32::MAX as i64) as u32
}

#[derive(Clone, Debug)]
pub struct SignedGen {
    pub owner: u8,
    pub name: (u8, u16), // tag and length (if not 0, of that length)
    pub idx: u32,
    pub len: u16,
    pub tag: u8,
    pub ttl: i64,
}
impl SignedGen {
    pub fn build(&self, seed: u64) -> (Val, Key) {
        let k = Key::nth(seed + 100 + self.owner as u64);
        let name = if self.name.1 == 0 { format!("n{}", self.name.0).into_bytes() } else { vec![b'a' + self.name.0; self.name.1 as usize] };
        (Val::signed(&k, &name, self.idx, &payload(self.tag as u64, self.len as usize), at(self.ttl)), k)
    }
}
pub fn signed_gen() -> impl Strategy<Value = SignedGen> {
    (
        0u8..3,
        (0u8..2, prop_oneof![5 => Just(0u16), 1 => 1u16..140, 1 => prop::sample::select(vec![126u16, 127, 128, 253, 254, 255])]),
        prop_oneof![4 => 0u32..2, 1 => 0u32..20, 1 => prop::sample::select(vec![15u32, 16, u32::MAX])],
        prop_oneof![4 => 0u16..64, 1 => 0u16..4000],
        any::<u8>(),
        ttl(),
    )
        .prop_map(|(owner, name, idx, len, tag, ttl)| SignedGen { owner, name, idx, len, tag, ttl })
}

/// A member record of an overlay list
#[derive(Clone, Debug)]
pub struct MemberGen {
    pub who: u8,
    pub version: u8,
    pub bad: Option<u8>,
}
impl MemberGen {
    pub fn build(&self, seed: u64, overlay: &B32) -> ONode {
        let k = Key::nth(seed + 200 + self.who as u64);
        let mut n = ONode::new(&k, overlay, self.version as u32);
        match self.bad.map(|b| b % 8) {
            None => {}
            Some(0) => n.sig[self.who as usize % 64] ^= 1,
            Some(1) => n.version += 1,
            Some(2) => n = ONode::new(&k, &sha256(b"another overlay"), self.version as u32),
            Some(3) => n.overlay[5] ^= 1,
            Some(4) => n.id = pubkey_tl(&Key::nth(seed + 200 + (self.who as u64 + 1) % 6).public),
            Some(5) => n.sig.clear(),
            Some(6) => n.id = W::new().u32(id::pub_aes()).raw(&k.public).done(),
            _ => {
                // signed for another overlay, then the name of this one put in
                n = ONode::new(&k, &sha256(b"another overlay"), self.version as u32);
                n.overlay = *overlay;
            }
        }
        n
    }
}
pub fn member() -> impl Strategy<Value = MemberGen> {
    (0u8..6, 0u8..5, prop::option::weighted(0.25, any::<u8>())).prop_map(|(who, version, bad)| MemberGen { who, version, bad })
}
#[derive(Clone, Debug)]
pub struct ListGen {
    pub ov: u8,
    pub members: Vec<MemberGen>,
    pub ttl: i64,
}
pub fn list_gen() -> impl Strategy<Value = ListGen> {
    (0u8..2, prop::collection::vec(member(), 0..7), ttl()).prop_map(|(ov, members, ttl)| ListGen { ov, members, ttl })
}
pub fn ov_name(seed: u64, ov: u8) -> B32 {
    sha256(format!("overlay {seed} {ov}").as_bytes())
}
impl ListGen {
    pub fn build(&self, seed: u64) -> Val {
        let name = ov_name(seed, self.ov);
        let id = sha256(&overlay_pub(&name));
        let l: Vec<ONode> = self.members.iter().map(|m| m.build(seed, &id)).collect();
        Val::overlay(&name, &ONode::list(&l), at(self.ttl))
    }
}

struct Lab {
    d: Dht,
    peers: Vec<RefPeer>,
}
impl Lab {
    async fn new(seed: u64, f: impl FnOnce(&mut everscale_network::dht::NodeOptions)) -> Result<Lab, Fail> {
        let mut o = dopts();
        f(&mut o);
        let d = Dht::new(&Key::nth(seed), o)?;
        let mut peers = vec![];
        for i in 0..2 {
            let mut p = RefPeer::new(Key::nth(seed + 10 + i), &d.s);
            p.connect().await?;
            peers.push(p);
        }
        Ok(Lab { d, peers })
    }
    /// Whether the node took the value (answered or reported no error)
    async fn store(&mut self, via: Via, v: &Val) -> Result<bool, Fail> {
        Ok(match via {
            Via::Local => self.d.store_local(v),
            Via::Remote(i) | Via::Intro(i) => {
                let p = &mut self.peers[i as usize];
                let q = v.store_query();
                let q = if matches!(via, Via::Intro(_)) { intro(&Rec::new(p.key(), p.addr(), 1), &q) } else { q };
                match try_query(p, &q).await? {
                    Some(a) => {
                        check!(a == stored(), "the answer to a store is {}", hex::encode(&a));
                        true
                    }
                    None => false,
                }
            }
        })
    }
    async fn get(&mut self, key: &B32) -> Result<Option<Val>, Fail> {
        Ok(match ask_value(&mut self.peers[1], key, 4).await? {
            Found::Value(v) => Some(v),
            Found::Nodes(_) => None,
        })
    }
}

// ------------------------------------------------------------------ D01

#[derive(Clone, Debug)]
enum What {
    Signed(SignedGen),
    List(ListGen),
}
#[derive(Clone, Debug)]
struct D01Op {
    via: Via,
    what: What,
    spoil: Vec<Spoil>,
    advance: u32,
    /// the key of an earlier store, with another expiry time
    again: Option<(u8, i8)>,
}
#[derive(Clone, Debug)]
struct D01Case {
    seed: u64,
    max_name: usize,
    max_idx: u32,
    ops: Vec<D01Op>,
}

fn d01_case() -> impl Strategy<Value = D01Case> {
    let op = (
        via(),
        prop_oneof![5 => signed_gen().prop_map(What::Signed), 3 => list_gen().prop_map(What::List)],
        prop_oneof![2 => Just(0usize), 5 => Just(1), 1 => Just(2)].prop_flat_map(|n| prop::collection::vec(spoil(), n)),
        prop_oneof![6 => Just(0u32), 1 => 0u32..3000],
        prop::option::weighted(0.5, (any::<u8>(), -20i8..60)),
    )
        .prop_map(|(via, what, spoil, advance, again)| D01Op { via, what, spoil, advance, again });
    (1u64..1_000_000, prop_oneof![3 => Just(127usize), 1 => 0usize..10, 1 => 100usize..300], prop_oneof![3 => Just(15u32), 1 => 0u32..3], prop::collection::vec(op, 1..9))
        .prop_map(|(seed, max_name, max_idx, ops)| D01Case { seed: seed * 1000, max_name, max_idx, ops })
}

async fn d01(c: &D01Case) -> CaseResult {
    let mut lab = Lab::new(c.seed, |o| {
        o.max_key_name_len = c.max_name;
        o.max_key_index = c.max_idx;
    })
    .await?;
    let mut seen: BTreeMap<B32, Option<Val>> = BTreeMap::new();
    let mut ever: BTreeSet<B32> = BTreeSet::new();
    let mut offered: BTreeSet<ONode> = BTreeSet::new();
    let (mut yes, mut no) = (0, 0);
    let mut whats: Vec<What> = vec![];
    for op in &c.ops {
        if op.advance > 0 {
            advance(op.advance as u64, 500).await;
        }
        let mut what = op.what.clone();
        if let (Some((n, d)), false) = (op.again, whats.is_empty()) {
            match (&whats[n as usize % whats.len()], &mut what) {
                (What::Signed(o), What::Signed(g)) => *g = SignedGen { tag: g.tag, len: g.len, ttl: o.ttl.saturating_add(d as i64), ..o.clone() },
                (What::List(o), What::List(g)) => *g = ListGen { ov: o.ov, ttl: o.ttl.saturating_add(d as i64), ..g.clone() },
                _ => {}
            }
        }
        whats.push(what.clone());
        let (mut v, owner) = match &what {
            What::Signed(g) => g.build(c.seed),
            What::List(g) => (g.build(c.seed), Key::nth(c.seed + 100)),
        };
        let other = Key::nth(c.seed + 102);
        for s in &op.spoil {
            s.apply(&mut v, &owner, &other);
        }
        let key = v.key.hash();
        let now = clock::unix();
        let frame = v.ttl > now && v.key.name.len() <= c.max_name && v.key.idx <= c.max_idx;
        let valid: Vec<ONode> = match v.members() {
            Some(m) if v.overlay_frame() => m.into_iter().filter(|m| m.valid_for(&v.key.id)).collect(),
            _ => vec![],
        };
        let ok = frame && (v.authentic_signed() || !valid.is_empty());
        let before = lab.get(&key).await?;
        let m0 = lab.d.d.metrics();
        let took = lab.store(op.via, &v).await?;
        check!(took == ok, "a value is {} although its update rule {} it: {op:?}", if took { "taken" } else { "refused" }, if ok { "authorises" } else { "forbids" });
        let after = lab.get(&key).await?;
        let m1 = lab.d.d.metrics();
        if !ok {
            no += 1;
            check!(after == before, "a refused value changed what is stored: {op:?}");
            check!(
                (m0.storage_len, m0.storage_total_size) == (m1.storage_len, m1.storage_total_size),
                "a refused value changed the counts: {op:?}"
            );
        } else if v.rule == id::rule_signature() {
            yes += 1;
            check!(after.as_ref() == Some(&v) || (before.is_some() && after == before), "after a store of {op:?} there is {after:?}");
            check!(before.is_some() || after.as_ref() == Some(&v), "an authorised value is not there: {op:?}");
        } else {
            yes += 1;
            offered.extend(valid);
            let Some(a) = &after else { viol!("an authorised overlay list is not there: {op:?}") };
            let Some(l) = a.members() else { viol!("the stored overlay list cannot be read") };
            check!(a.overlay_frame() && a.owner == v.owner && !l.is_empty(), "a stored overlay list has the frame {a:?}");
            for m in &l {
                check!(m.valid_for(&v.key.id), "an overlay list holds an invalid record {m:?}");
                check!(offered.contains(m), "an overlay list holds a record that was not stored {m:?}");
            }
        }
        if after.is_some() {
            ever.insert(key);
        }
        seen.insert(key, after);
    }
    // nothing but the last state seen under each key
    let now = clock::unix();
    let mut live = 0;
    for (k, v) in &seen {
        let got = lab.get(k).await?;
        let want = v.clone().filter(|v| v.ttl > now);
        live += want.is_some() as usize;
        check!(got == want, "the value under a key changed without a store: {got:?} instead of {want:?}");
    }
    let n = lab.d.d.metrics().storage_len;
    check!(n >= live && n <= ever.len(), "{n} values are counted, {live} were stored and live");
    Ok(no > 0 && yes + no > 1)
}

pub fn d01_run(c: &mut Ctx) {
    c.scenario(
        "stores",
        "some value is refused and there are at least two stores",
        1600,
        d01_case,
        |v| run(d01(v)),
    );
}

// ------------------------------------------------------------------ D02

#[derive(Clone, Debug)]
enum H {
    Store { via: Via, key: u8, ttl: i64, len: u16 },
    /// the same value again
    Again { via: Via, nth: u8 },
    Advance { ms: u32, step: u16 },
    Get { key: u8 },
}
#[derive(Clone, Debug)]
struct D02Case {
    seed: u64,
    gc: u64,
    ops: Vec<H>,
}
fn d02_case() -> impl Strategy<Value = D02Case> {
    let t = || prop_oneof![4 => 1i64..12, 3 => 1i64..60, 1 => -1i64..2, 1 => 60i64..4000];
    let op = prop_oneof![
        6 => (via(), 0u8..3, t(), 0u16..200).prop_map(|(via, key, ttl, len)| H::Store { via, key, ttl, len }),
        2 => (via(), any::<u8>()).prop_map(|(via, nth)| H::Again { via, nth }),
        4 => (prop_oneof![2 => 0u32..3000, 2 => 900u32..1100, 1 => 3000u32..60_000], prop_oneof![Just(500u16), Just(100), Just(1000)]).prop_map(|(ms, step)| H::Advance { ms, step }),
        2 => (0u8..3).prop_map(|key| H::Get { key }),
    ];
    (1u64..1_000_000, prop_oneof![2 => Just(10_000u64), 1 => 500u64..5000], prop::collection::vec(op, 2..22)).prop_map(|(seed, gc, ops)| D02Case { seed: seed * 1000, gc, ops })
}

async fn d02(c: &D02Case) -> CaseResult {
    let mut lab = Lab::new(c.seed, |o| o.storage_gc_interval_ms = c.gc).await?;
    // key -> newest value; and what may still be counted
    let mut model: BTreeMap<B32, Val> = BTreeMap::new();
    let mut sent: Vec<Val> = vec![];
    let keys: Vec<(Key, &[u8])> = vec![(Key::nth(c.seed + 100), b"x"), (Key::nth(c.seed + 100), b"y"), (Key::nth(c.seed + 101), b"x")];
    let mut max_step = 0u64;
    let (mut replaced, mut expired, mut kept) = (0, 0, 0);
    for op in &c.ops {
        let mut put = None;
        match op {
            H::Store { via, key, ttl, len } => {
                let (k, name) = &keys[*key as usize];
                let v = Val::signed(k, name, 0, &payload(sent.len() as u64, *len as usize), at(*ttl));
                sent.push(v.clone());
                put = Some((*via, v));
            }
            H::Again { via, nth } if !sent.is_empty() => put = Some((*via, sent[*nth as usize % sent.len()].clone())),
            H::Again { .. } => {}
            H::Advance { ms, step } => {
                max_step = max_step.max(*step as u64);
                advance(*ms as u64, *step as u64).await;
            }
            H::Get { key } => {
                let (k, name) = &keys[*key as usize];
                let key = DKey { id: k.id, name: name.to_vec(), idx: 0 }.hash();
                let want = model.get(&key).filter(|v| v.ttl > clock::unix()).cloned();
                expired += (want.is_none() && model.contains_key(&key)) as u32;
                let got = lab.get(&key).await?;
                check!(got == want, "a lookup at {} gives {got:?} instead of {want:?}", clock::unix());
            }
        }
        if let Some((via, v)) = put {
            let now = clock::unix();
            let took = lab.store(via, &v).await?;
            check!(took == (v.ttl > now), "at {now} a value that expires at {} is {}", v.ttl, if took { "taken" } else { "refused" });
            let key = v.key.hash();
            if v.ttl > now {
                match model.get(&key) {
                    Some(o) if o.ttl >= v.ttl && o.ttl > now => kept += (*o != v) as u32,
                    o => {
                        replaced += o.is_some() as u32;
                        model.insert(key, v);
                    }
                }
            }
            let want = model.get(&key).filter(|v| v.ttl > now).cloned();
            let got = lab.get(&key).await?;
            check!(got == want, "after a store at {now} a lookup gives {got:?} instead of {want:?}");
        }
        let m = lab.d.d.metrics();
        let now = clock::unix() as u64;
        let live: Vec<&Val> = model.values().filter(|v| v.ttl as u64 > now).collect();
        // collected at the latest one interval after the expiry (and what the steps of time blur)
        let blur = (c.gc + 3 * max_step) / 1000 + 2;
        let may: Vec<&Val> = model.values().filter(|v| v.ttl as u64 + blur >= now).collect();
        check!(m.storage_len >= live.len() && m.storage_len <= may.len(), "{} values are counted, {} are unexpired, {} can be uncollected", m.storage_len, live.len(), may.len());
        let size = |l: &[&Val]| l.iter().map(|v| v.value.len()).sum::<usize>();
        check!(m.storage_total_size >= size(&live) && m.storage_total_size <= size(&may), "a total size of {} is counted instead of {} to {}", m.storage_total_size, size(&live), size(&may));
    }
    Ok(replaced + kept > 0 || expired > 0)
}

pub fn d02_run(c: &mut Ctx) {
    c.scenario(
        "history",
        "a store meets a stored value of its key, or a lookup an expired one",
        1500,
        d02_case,
        |v| run(d02(v)),
    );
    c.scenario(
        "two_orders",
        "at least two different values of one key",
        600,
        || (1u64..1_000_000, prop::collection::vec((1i64..8, any::<bool>()), 2..7), any::<u64>()),
        |(seed, vals, order)| {
            run(async {
                // the same values in two orders end in the same value, unless expiry times are equal
                let seed = seed * 1000;
                let k = Key::nth(seed + 100);
                let vs: Vec<Val> = vals.iter().enumerate().map(|(i, (t, _))| Val::signed(&k, b"v", 0, &payload(i as u64, 20), at(*t))).collect();
                let mut perm: Vec<usize> = (0..vs.len()).collect();
                perm.sort_by_key(|i| sha256(&[order.to_le_bytes(), (*i as u64).to_le_bytes()].concat()));
                let mut got = vec![];
                for o in [(0..vs.len()).collect::<Vec<_>>(), perm] {
                    let mut lab = Lab::new(seed, |_| ()).await?;
                    for i in &o {
                        lab.store(if vals[*i].1 { Via::Local } else { Via::Remote(0) }, &vs[*i]).await?;
                    }
                    got.push(lab.get(&vs[0].key.hash()).await?.map(|v| v.ttl));
                }
                let want = vs.iter().map(|v| v.ttl).max();
                check!(got[0] == want && got[1] == want, "the expiry times {got:?} won instead of {want:?}");
                Ok(vs.iter().map(|v| v.ttl).collect::<BTreeSet<_>>().len() > 1)
            })
        },
    );
    c.scenario("threads", "more than five stores of each thread", 100, || crate::p::t1::stores_gen(false), |v| run_mt(crate::p::t1::stores(v)));
    c.scenario("at_once", "more than three threads", 60, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::at_once(v)));
}

// ------------------------------------------------------------------ D03

#[derive(Clone, Debug)]
enum L {
    Store { via: Via, list: ListGen },
    Advance { ms: u32 },
}
#[derive(Clone, Debug)]
struct D03Case {
    seed: u64,
    gc: u64,
    ops: Vec<L>,
}
fn d03_case() -> impl Strategy<Value = D03Case> {
    let t = || prop_oneof![3 => 1i64..6, 4 => 1i64..60, 1 => -1i64..2];
    let op = prop_oneof![
        6 => (via(), list_gen(), t()).prop_map(|(via, mut list, ttl)| { list.ttl = ttl; L::Store { via, list } }),
        2 => prop_oneof![2 => 500u32..4000, 1 => 0u32..30_000].prop_map(|ms| L::Advance { ms }),
    ];
    (1u64..1_000_000, prop_oneof![2 => Just(10_000u64), 1 => Just(1000u64)], prop::collection::vec(op, 2..16)).prop_map(|(seed, gc, ops)| D03Case { seed: seed * 1000, gc, ops })
}

/// The stored list as it should be
struct ListModel {
    ttl: u32,
    members: BTreeMap<Vec<u8>, ONode>,
}

async fn d03(c: &D03Case) -> CaseResult {
    let mut lab = Lab::new(c.seed, |o| o.storage_gc_interval_ms = c.gc).await?;
    let mut model: BTreeMap<B32, ListModel> = BTreeMap::new();
    let (mut merged, mut dead) = (0, 0);
    for op in &c.ops {
        match op {
            L::Advance { ms } => advance(*ms as u64, 500).await,
            L::Store { via, list } => {
                let v = list.build(c.seed);
                let valid: Vec<ONode> = v.members().unwrap().into_iter().filter(|m| m.valid_for(&v.key.id)).collect();
                let now = clock::unix();
                let ok = v.ttl > now && !valid.is_empty();
                let took = lab.store(*via, &v).await?;
                check!(took == ok, "an overlay list with {} valid members is {}", valid.len(), if took { "taken" } else { "refused" });
                if ok {
                    let e = model.entry(v.key.hash()).or_insert(ListModel { ttl: 0, members: Default::default() });
                    if e.ttl <= now {
                        dead += !e.members.is_empty() as u32;
                        e.members.clear();
                        e.ttl = 0;
                    }
                    if e.ttl <= v.ttl {
                        e.ttl = v.ttl;
                        merged += !e.members.is_empty() as u32;
                        for m in valid {
                            match e.members.get(&m.id) {
                                Some(o) if o.version >= m.version => {}
                                _ => {
                                    e.members.insert(m.id.clone(), m);
                                }
                            }
                        }
                    }
                }
            }
        }
        for (ov, k) in (0..2u8).map(|o| (o, { let n = overlay_pub(&ov_name(c.seed, o)); DKey { id: sha256(&n), name: b"nodes".to_vec(), idx: 0 }.hash() })) {
            let now = clock::unix();
            let got = lab.get(&k).await?;
            match (got, model.get(&k).filter(|m| m.ttl > now)) {
                (None, None) => {}
                (None, Some(_)) => viol!("the list of overlay {ov} is gone before its time"),
                (Some(g), None) => viol!("the list of overlay {ov} is there past its time or without a store: {g:?}"),
                (Some(g), Some(m)) => {
                    let Some(mut l) = g.members() else { viol!("the stored list cannot be read") };
                    l.sort();
                    let mut want: Vec<ONode> = m.members.values().cloned().collect();
                    want.sort();
                    check!(l == want, "the stored list has the (version, member) {:?} instead of {:?}", show(&l), show(&want));
                    check!(g.ttl == m.ttl, "the list expires at {} instead of {}", g.ttl, m.ttl);
                    check!(g.overlay_frame() && g.key.hash() == k, "the stored list has the frame {g:?}");
                }
            }
        }
    }
    Ok(merged > 0 || dead > 0)
}
fn show(l: &[ONode]) -> Vec<(u32, String)> {
    l.iter().map(|m| (m.version, hex::encode(&m.id[4..7]))).collect()
}

pub fn d03_run(c: &mut Ctx) {
    c.scenario(
        "lists",
        "a list is merged into a stored one or replaces an expired one",
        1800,
        d03_case,
        |v| run(d03(v)),
    );
    c.scenario("threads", "more than five lists of each thread", 100, || crate::p::t1::stores_gen(true), |v| run_mt(crate::p::t1::stores(v)));
    c.scenario("at_once", "more than three threads", 50, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::lists_at_once(v)));
}
