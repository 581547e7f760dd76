//! D05-D07: peers of the DHT
use crate::dh::*;
use crate::fx::*;
use everscale_network::adnl;
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex, OnceLock};

/// Many keys, so that some are close to others
fn pool() -> &'static [Key] {
    static P: OnceLock<Vec<Key>> = OnceLock::new();
    P.get_or_init(|| (0..2500).map(|i| Key::nth(900_000_000 + i)).collect())
}
fn some_addr(n: usize) -> SocketAddrV4 {
    SocketAddrV4::new(Ipv4Addr::new(10, 1, (n / 250) as u8, (n % 250) as u8), 3000 + n as u16)
}

// ------------------------------------------------------------------ D05

#[derive(Clone, Debug)]
enum Target {
    Any([u8; 32]),
    Local,
    /// the local id with these bits flipped
    Near(Vec<u8>),
    /// the local id with everything from a bit on replaced
    Tail(u8, u64),
    Peer(u16),
    /// the complement: every group qualifies
    Far,
}
#[derive(Clone, Debug)]
enum Q5 {
    Node { target: Target, k: u32, form: u8 },
    Value { target: Target, k: u32, form: u8, stored: bool },
}
#[derive(Clone, Debug)]
struct D05Case {
    me: u16,
    close: u16,
    random: u16,
    start: u16,
    max_k: u32,
    qs: Vec<Q5>,
}
fn target() -> impl Strategy<Value = Target> {
    prop_oneof![
        3 => any::<[u8; 32]>().prop_map(Target::Any),
        1 => Just(Target::Local),
        4 => prop::collection::vec(prop_oneof![2 => 0u8..16, 1 => any::<u8>()], 1..6).prop_map(Target::Near),
        3 => (0u8..20, any::<u64>()).prop_map(|(a, b)| Target::Tail(a, b)),
        3 => any::<u16>().prop_map(Target::Peer),
        1 => Just(Target::Far),
    ]
}
fn d05_case() -> impl Strategy<Value = D05Case> {
    let k = || prop_oneof![2 => Just(0u32), 6 => 1u32..12, 2 => 12u32..60, 1 => prop::sample::select(vec![1000u32, u32::MAX])];
    let q = prop_oneof![
        4 => (target(), k(), 0u8..3).prop_map(|(target, k, form)| Q5::Node { target, k, form }),
        3 => (target(), k(), 0u8..3, prop::bool::weighted(0.3)).prop_map(|(target, k, form, stored)| Q5::Value { target, k, form, stored }),
    ];
    (0u16..2500, prop_oneof![1 => Just(0u16), 3 => 1u16..30], 0u16..50, 0u16..2500, prop_oneof![3 => Just(20u32), 1 => 1u32..40], prop::collection::vec(q, 1..12))
        .prop_map(|(me, close, random, start, max_k, qs)| D05Case { me, close, random, start, max_k, qs })
}

impl Target {
    fn id(&self, local: &B32, known: &[B32]) -> B32 {
        let mut t = *local;
        match self {
            Target::Any(x) => return *x,
            Target::Local => {}
            Target::Near(bits) => {
                for b in bits {
                    t[*b as usize / 8] ^= 0x80 >> (*b % 8);
                }
            }
            Target::Tail(at, x) => {
                let r = sha256(&x.to_le_bytes());
                for b in *at as usize..256 {
                    let m = 0x80u8 >> (b % 8);
                    t[b / 8] = (t[b / 8] & !m) | (r[b / 8] & m);
                }
            }
            Target::Peer(n) => {
                if !known.is_empty() {
                    return known[*n as usize % known.len()];
                }
            }
            Target::Far => t.iter_mut().for_each(|x| *x = !*x),
        }
        t
    }
}

async fn d05(c: &D05Case) -> CaseResult {
    let me = pool()[c.me as usize].clone();
    let mut o = dopts();
    o.max_allowed_k = c.max_k;
    let d = Dht::new(&me, o)?;
    let mut idx: Vec<usize> = (0..pool().len()).filter(|i| *i != c.me as usize).collect();
    idx.sort_by_key(|i| std::cmp::Reverse(prefix(&pool()[*i].id, &me.id)));
    let mut chosen: BTreeSet<usize> = idx[..c.close as usize].iter().copied().collect();
    for i in 0..c.random as usize {
        let n = (c.start as usize + i * 7) % pool().len();
        if n != c.me as usize {
            chosen.insert(n);
        }
    }
    // known records by peer
    let mut known: BTreeMap<B32, Rec> = BTreeMap::new();
    for i in chosen {
        let r = Rec::new(&pool()[i], some_addr(i), 3);
        need!(matches!(d.d.add_dht_peer(r.owned()), Ok(Some(_))), "a DHT peer is refused");
        known.insert(pool()[i].id, r);
    }
    let mut asker = RefPeer::new(Key::nth(c.start as u64 + 1), &d.s);
    asker.connect().await?;
    let mut nt = false;
    for (qn, q) in c.qs.iter().enumerate() {
        let ids: Vec<B32> = known.keys().copied().collect();
        let (target, k, form) = match q {
            Q5::Node { target, k, form } | Q5::Value { target, k, form, .. } => (target, *k, *form),
        };
        let t = target.id(&me.id, &ids);
        let mut value = None;
        let (mut data, is_value) = match q {
            Q5::Node { .. } => (find_node_query(&t, k), false),
            Q5::Value { stored, .. } => {
                let mut key = t;
                if *stored {
                    let v = Val::signed(&Key::nth(c.me as u64 + 5), format!("v{qn}").as_bytes(), k % 16, &payload(k as u64, 30), clock::unix() + 50);
                    need!(d.store_local(&v), "a value is refused");
                    key = v.key.hash();
                    value = Some(v);
                }
                (find_value_query(&key, k), true)
            }
        };
        if form > 0 {
            let r = Rec::new(asker.key(), asker.addr(), form as u32);
            data = intro(&r, &data);
            let id = asker.key().id;
            match known.get(&id) {
                Some(o) if o.version >= r.version => {}
                _ => {
                    known.insert(id, r);
                }
            }
        }
        let a = try_query(&mut asker, &data).await?;
        if is_value {
            if k == 0 || k > c.max_k {
                check!(a.is_none(), "a value search for {k} nodes is answered, allowed are 1 to {}", c.max_k);
                nt = true;
                continue;
            }
            let Some(a) = a else { viol!("a value search for {k} nodes (form {form}) is not answered") };
            match parse_found(&a) {
                Some(Found::Value(v)) => check!(value.as_ref() == Some(&v), "a value search gives {v:?} instead of {value:?}"),
                Some(Found::Nodes(l)) => {
                    check!(value.is_none(), "the value is stored but nodes are answered");
                    check!(l.len() <= k as usize, "{} nodes are answered to a value search for {k}", l.len());
                    check!(l.len() == known.len().min(k as usize), "{} nodes are answered to a value search for {k}, {} are known", l.len(), known.len());
                    let mut seen = BTreeSet::new();
                    for r in &l {
                        check!(seen.insert(r.short()), "a node is answered twice");
                        check!(r.short().and_then(|s| known.get(&s)) == Some(r), "an unknown or altered node is answered: {r:?}");
                    }
                    nt |= known.len() > k as usize;
                }
                None => viol!("the answer to a value search is {}", hex::encode(&a)),
            }
            continue;
        }
        let Some(a) = a else { viol!("a node search for {k} nodes (form {form}) is not answered") };
        let Some(l) = parse_nodes(&a) else { viol!("the answer to a node search is {}", hex::encode(&a)) };
        check!(l.len() <= k as usize, "{} nodes are answered to a search for {k}", l.len());
        let mut got = BTreeSet::new();
        for r in &l {
            let s = r.short().unwrap_or_default();
            check!(got.insert(s), "a node is answered twice");
            check!(known.get(&s) == Some(r), "an unknown or altered node is answered: {r:?}");
        }
        // prefix groups: nodes that leave the local id at a bit where the target does too, ordered by
        // this bit; all others are further from the target than the node itself
        let group = |id: &B32| -> Option<usize> {
            let p = prefix(id, &me.id);
            (p < 256 && (t[p / 8] ^ me.id[p / 8]) & (0x80 >> (p % 8)) != 0).then_some(p)
        };
        let full = l.len() == k as usize;
        let worst = got.iter().map(|s| group(s).unwrap_or(usize::MAX)).max();
        for s in known.keys().filter(|s| !got.contains(*s)) {
            if let Some(g) = group(s) {
                check!(full, "a search for {k} nodes gives {} and leaves out one of group {g}", l.len());
                check!(worst.unwrap_or(0) <= g, "a node of group {g} is left out in favour of one of group {worst:?}");
                nt = true;
            }
        }
    }
    Ok(nt)
}

pub fn d05_run(c: &mut Ctx) {
    c.scenario(
        "finds",
        "a search leaves out some node that qualifies, or has a count outside the allowed ones",
        900,
        d05_case,
        |v| run(d05(v)),
    );
}

// ------------------------------------------------------------------ D06

#[derive(Clone, Debug)]
enum Bad6 {
    SigBit(u8),
    NoSig,
    OtherSigner,
    Version,
    Addr,
    ReinitAfter,
    ExpireAfter,
    /// the id of another key, its own signature
    Id(u8),
    Kind(u8),
}
#[derive(Clone, Debug)]
struct RecGen {
    who: u8,
    version: u32,
    addr: u8,
    /// relative reinit date, relative expiry (0: never), no address
    reinit: i32,
    expire: i32,
    empty: bool,
    bad: Option<Bad6>,
}
#[derive(Clone, Debug)]
enum Way {
    Api,
    /// in a query of this peer
    Intro(u8),
    /// in an answer of this peer to the search for more nodes
    More(u8),
    /// in an answer to a value search
    Value(u8),
}
#[derive(Clone, Debug)]
struct D06Case {
    seed: u64,
    /// peers that the filter does not admit
    refused: Vec<u8>,
    ops: Vec<(Way, Vec<RecGen>, u32)>,
}
fn rec_gen() -> impl Strategy<Value = RecGen> {
    let bad = prop_oneof![
        3 => any::<u8>().prop_map(Bad6::SigBit),
        1 => Just(Bad6::NoSig),
        2 => Just(Bad6::OtherSigner),
        2 => Just(Bad6::Version),
        2 => Just(Bad6::Addr),
        1 => Just(Bad6::ReinitAfter),
        1 => Just(Bad6::ExpireAfter),
        2 => any::<u8>().prop_map(Bad6::Id),
        1 => (0u8..3).prop_map(Bad6::Kind),
    ];
    (
        // 7 is the node itself
        prop_oneof![9 => 0u8..7, 1 => Just(7u8)],
        prop_oneof![4 => 0u32..6, 1 => any::<u32>()],
        0u8..4,
        prop_oneof![6 => Just(-1_700_000_000i32), 1 => -3i32..3, 2 => prop::sample::select(vec![59i32, 60, 61, 62, 100_000])],
        prop_oneof![6 => Just(0i32), 2 => 1i32..1000, 2 => prop::sample::select(vec![-1_000_000i32, -2, -1, 1])],
        prop::bool::weighted(0.07),
        prop::option::weighted(0.35, bad),
    )
        .prop_map(|(who, version, addr, reinit, expire, empty, bad)| RecGen { who, version, addr, reinit, expire, empty, bad })
}
fn d06_case() -> impl Strategy<Value = D06Case> {
    let way = prop_oneof![4 => Just(Way::Api), 3 => (0u8..2).prop_map(Way::Intro), 3 => (0u8..2).prop_map(Way::More), 2 => (0u8..2).prop_map(Way::Value)];
    let op = (way, prop::collection::vec(rec_gen(), 1..5), prop_oneof![4 => Just(0u32), 1 => 0u32..3000]);
    (1u64..1_000_000, prop::collection::vec(0u8..7, 0..3), prop::collection::vec(op, 1..7)).prop_map(|(seed, refused, ops)| D06Case { seed: seed * 1000, refused, ops })
}
impl RecGen {
    fn key(&self, seed: u64) -> Key {
        if self.who == 7 { Key::nth(seed) } else { Key::nth(seed + 400 + self.who as u64) }
    }
    fn build(&self, seed: u64) -> Rec {
        let k = self.key(seed);
        let now = clock::unix() as i64;
        let mut a = AddrList::one(
            some_addr(self.who as usize * 10 + self.addr as usize),
            1,
            (now + self.reinit as i64).max(0) as u32,
            if self.expire == 0 { 0 } else { (now + self.expire as i64) as u32 },
        );
        if self.empty {
            a.addrs.clear();
        }
        let mut r = Rec::with(&k, a, self.version);
        match &self.bad {
            None => {}
            Some(Bad6::SigBit(b)) => r.sig[*b as usize / 8 * 2] ^= 1 << (b % 8),
            Some(Bad6::NoSig) => r.sig.clear(),
            Some(Bad6::OtherSigner) => r.sign(&Key::nth(seed + 499)),
            Some(Bad6::Version) => r.version = r.version.wrapping_add(1),
            Some(Bad6::Addr) => {
                if let Some(x) = r.addrs.addrs.first_mut() {
                    x.1 ^= 1;
                }
            }
            Some(Bad6::ReinitAfter) => r.addrs.reinit_date ^= 1,
            Some(Bad6::ExpireAfter) => r.addrs.expire_at = now as u32 + 5000,
            Some(Bad6::Id(n)) => r.id = pubkey_tl(&Key::nth(seed + 400 + (self.who as u64 + 1 + *n as u64 % 5) % 7).public),
            Some(Bad6::Kind(n)) => {
                r.id = match n {
                    0 => W::new().u32(id::pub_aes()).raw(&k.public).done(),
                    1 => W::new().u32(id::pub_unenc()).bytes(&k.public).done(),
                    _ => overlay_pub(&k.public),
                };
                r.sign(&k);
            }
        }
        r
    }
}
struct Filter6 {
    refused: Vec<B32>,
}
#[async_trait::async_trait]
impl adnl::PeerFilter for Filter6 {
    fn check(&self, _: adnl::NewPeerContext, _: SocketAddrV4, peer: &adnl::NodeIdShort) -> bool {
        !self.refused.contains(peer.as_slice())
    }
}

async fn d06(c: &D06Case) -> CaseResult {
    let refused: Vec<B32> = c.refused.iter().map(|n| Key::nth(c.seed + 400 + *n as u64).id).collect();
    let me = Key::nth(c.seed);
    let d = Dht::with(&me, LOCAL, opts(), dopts(), Some(Arc::new(Filter6 { refused: refused.clone() })))?;
    let mut model: BTreeMap<B32, Rec> = BTreeMap::new();
    let plan: Arc<Mutex<Vec<Vec<u8>>>> = Arc::new(Mutex::new(vec![vec![]; 2]));
    let mut servers = vec![];
    for i in 0..2usize {
        let plan = plan.clone();
        let s = Server::new(Key::nth(c.seed + 300 + i as u64), &d, move |q| {
            let recs = plan.lock().unwrap()[i].clone();
            let empty = recs.is_empty();
            let list = |t: u32| W::new().u32(t).raw(if empty { &[0, 0, 0, 0] } else { &recs }).done();
            match R(q).u32() {
                Some(t) if t == id::find_node() => vec![list(id::dht_nodes())],
                Some(t) if t == id::find_value() => vec![list(id::value_not_found())],
                _ => vec![],
            }
        });
        let r = s.rec(1);
        need!(matches!(d.d.add_dht_peer(r.owned()), Ok(Some(_))), "a DHT peer is refused");
        model.insert(s.p.key().id, r);
        servers.push(s);
    }
    // the one who asks
    let mut asker = RefPeer::new(Key::nth(c.seed + 310), &d.s);
    asker.connect().await?;
    let (mut yes, mut no) = (0, 0);
    for (way, gens, adv) in &c.ops {
        if *adv > 0 {
            advance(*adv as u64, 500).await;
        }
        let recs: Vec<Rec> = gens.iter().map(|g| g.build(c.seed)).collect();
        let now = clock::unix();
        let valid = |r: &Rec| {
            r.signed()
                && r.addrs.addrs.len() == 1
                && r.addrs.reinit_date <= now + 60
                && (r.addrs.expire_at == 0 || r.addrs.expire_at >= now)
                && !refused.contains(&r.short().unwrap())
                && r.short() != Some(me.id)
        };
        let mut take = |r: &Rec| {
            let ok = valid(r);
            if ok {
                yes += 1;
                match model.get(&r.short().unwrap()) {
                    Some(o) if o.version >= r.version => {}
                    _ => {
                        model.insert(r.short().unwrap(), r.clone());
                    }
                }
            } else {
                no += 1;
            }
            ok
        };
        match way {
            Way::Api => {
                for r in &recs {
                    let ok = take(r);
                    let got = d.d.add_dht_peer(r.owned());
                    let id = got.as_ref().ok().and_then(|x| x.map(|x| *x.as_slice()));
                    check!(id == r.short().filter(|_| ok), "adding a peer (acceptable: {ok}) gives {got:?}: {r:?}");
                }
            }
            Way::Intro(i) => {
                for r in &recs {
                    let ok = take(r);
                    let q = W::new().u32(id::dht_ping()).u64(*i as u64).done();
                    let a = try_query(&mut asker, &intro(r, &q)).await?;
                    check!(!ok || a.is_some(), "a query in the self-introducing form is not answered");
                }
            }
            Way::More(i) | Way::Value(i) => {
                {
                    let mut p = plan.lock().unwrap();
                    *p = vec![vec![]; 2];
                    p[*i as usize] = nodes_tl(&recs);
                }
                recs.iter().for_each(|r| {
                    take(r);
                });
                let dd = d.d.clone();
                if matches!(way, Way::More(_)) {
                    let r = drive(&mut servers, 30_000, async move { dd.find_more_dht_nodes().await }).await?;
                    let Some(r) = r else { viol!("a search for more nodes does not end") };
                    check!(r.is_ok(), "a search for more nodes fails: {}", r.unwrap_err());
                } else {
                    let id = servers[*i as usize].p.id();
                    let r = drive(&mut servers, 30_000, async move {
                        dd.entry(&[7u8; 32], "x").value_from::<everscale_network::proto::dht::Pong>(&id).await
                    })
                    .await?;
                    let Some(r) = r else { viol!("a value query does not end") };
                    check!(matches!(r, Ok(None)), "a value search that finds nothing gives {:?}", r.is_ok());
                }
            }
        }
        let want: Vec<B32> = model.keys().copied().collect();
        let got = d.known();
        check!(got == want, "known are {:?} instead of {:?} after {way:?} {gens:?}", names(&got, c.seed), names(&want, c.seed));
        // what third parties are given
        let far: B32 = me.id.map(|x| !x);
        let Some(a) = asker.query(false, &find_node_query(&far, 1000)).await else { viol!("a node search is not answered") };
        let Some(l) = parse_nodes(&a) else { viol!("the answer to a node search is {}", hex::encode(&a)) };
        let handed: BTreeMap<B32, &Rec> = l.iter().map(|r| (r.short().unwrap_or_default(), r)).collect();
        for (id, w) in &model {
            let Some(h) = handed.get(id) else { viol!("the known peer {:?} is not handed out", names(&[*id], c.seed)) };
            check!(h.signed(), "the record handed out for {:?} is not validly signed: {h:?}", names(&[*id], c.seed));
            check!(h.version == w.version, "the record handed out for {:?} has the version {} instead of {}", names(&[*id], c.seed), h.version, w.version);
        }
        check!(handed.len() == model.len() && l.len() == model.len(), "{} nodes are handed out, {} are known", l.len(), model.len());
        let m = d.d.metrics();
        check!(m.known_peers_len == model.len() && m.bucket_peer_count == model.len(), "{} and {} peers are counted, {} are known", m.known_peers_len, m.bucket_peer_count, model.len());
    }
    Ok(yes > 0 && no > 0)
}
fn names(ids: &[B32], seed: u64) -> Vec<String> {
    ids.iter()
        .map(|x| {
            (0..8u64).find(|n| Key::nth(seed + 400 + n).id == *x).map(|n| format!("peer {n}")).unwrap_or_else(|| if *x == Key::nth(seed).id { "self".into() } else { hex::encode(&x[..4]) })
        })
        .collect()
}

pub fn d06_run(c: &mut Ctx) {
    c.scenario("admission", "one record is to be accepted and another one is not", 1500, d06_case, |v| run(d06(v)));
    c.scenario("at_once", "more than three threads", 50, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::records_at_once(v)));
}

// ------------------------------------------------------------------ D07

#[derive(Clone, Debug)]
enum O7 {
    Ping(u8),
    Nodes { peer: u8, with_self: bool },
    /// a value search over all peers
    Search { full: bool },
    From(u8),
    More,
    Store,
    ReAdd(u8),
    Intro(u8),
    /// who answers from now on (bit per peer)
    Answering(u8),
    /// several pings at once
    Burst(Vec<u8>),
}
#[derive(Clone, Debug)]
struct D07Case {
    seed: u64,
    threshold: usize,
    peers: u8,
    ops: Vec<O7>,
}
fn d07_case() -> impl Strategy<Value = D07Case> {
    let op = prop_oneof![
        5 => any::<u8>().prop_map(O7::Ping),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(peer, with_self)| O7::Nodes { peer, with_self }),
        3 => any::<bool>().prop_map(|full| O7::Search { full }),
        2 => any::<u8>().prop_map(O7::From),
        1 => Just(O7::More),
        1 => Just(O7::Store),
        1 => any::<u8>().prop_map(O7::ReAdd),
        1 => any::<u8>().prop_map(O7::Intro),
        4 => any::<u8>().prop_map(O7::Answering),
        2 => prop::collection::vec(any::<u8>(), 2..6).prop_map(O7::Burst),
    ];
    (1u64..1_000_000, prop_oneof![3 => Just(5usize), 2 => 0usize..9], 1u8..5, any::<u8>(), prop::collection::vec(op, 2..16)).prop_map(|(seed, threshold, peers, first, mut ops)| {
        ops.insert(0, O7::Answering(first));
        D07Case { seed: seed * 1000, threshold, peers, ops }
    })
}

async fn d07(c: &D07Case) -> CaseResult {
    let mut o = dopts();
    o.bad_peer_threshold = c.threshold;
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let n = c.peers as usize;
    let up: Arc<Mutex<u8>> = Arc::new(Mutex::new(0xff));
    let forged = Arc::new(Mutex::new(0u8));
    let mut servers = vec![];
    for i in 0..n {
        let up = up.clone();
        let forged = forged.clone();
        let s = Server::new(Key::nth(c.seed + 300 + i as u64), &d, move |q| {
            let f = *forged.lock().unwrap();
            if f > 0 {
                let mut v = [0u8; 8];
                v.iter_mut().zip(q.iter().skip(4)).for_each(|(a, b)| *a = *b);
                v[f as usize % 8] ^= f;
                return vec![W::new().u32(id::dht_pong()).raw(&v).done()];
            }
            if *up.lock().unwrap() >> i & 1 == 0 {
                return vec![];
            }
            let mut r = R(q);
            let t = r.u32().unwrap_or(0);
            if t == id::dht_ping() {
                vec![W::new().u32(id::dht_pong()).raw(r.0).done()]
            } else if t == id::find_node() {
                vec![nodes_answer(&[])]
            } else if t == id::find_value() {
                vec![not_found(&[])]
            } else if t == id::dht_store() {
                vec![stored()]
            } else {
                vec![]
            }
        });
        need!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a DHT peer is refused");
        servers.push(s);
    }
    let ids: Vec<_> = servers.iter().map(|s| s.p.id()).collect();
    let mut score = vec![0usize; n];
    let mut nt = false;
    for op in &c.ops {
        let alive = *up.lock().unwrap();
        let mut asked = vec![0usize; n];
        servers.iter_mut().for_each(|s| s.got.clear());
        let bad: Vec<bool> = score.iter().map(|s| *s > c.threshold).collect();
        let dd = d.d.clone();
        let t = 60_000;
        let mut ended = true;
        match op {
            O7::Answering(m) => *up.lock().unwrap() = *m,
            O7::Ping(p) => {
                let p = *p as usize % n;
                asked[p] += 1;
                let id = ids[p];
                let r = drive(&mut servers, t, async move { dd.ping(&id).await }).await?;
                ended = r.is_some();
                if let Some(r) = r {
                    check!(r.ok() == Some(alive >> p & 1 == 1), "a ping of a peer that {} fails", if alive >> p & 1 == 1 { "answers" } else { "is silent" });
                }
            }
            O7::Burst(l) => {
                let who: Vec<usize> = l.iter().map(|p| *p as usize % n).collect();
                who.iter().for_each(|p| asked[*p] += 1);
                let l: Vec<_> = who.iter().map(|p| ids[*p]).collect();
                ended = drive(&mut servers, t, async move { futures_util::future::join_all(l.iter().map(|p| dd.ping(p))).await.len() }).await?.is_some();
            }
            O7::Nodes { peer, with_self } => {
                let p = *peer as usize % n;
                asked[p] += 1;
                let (id, w) = (ids[p], *with_self);
                ended = drive(&mut servers, t, async move { dd.query_dht_nodes(&id, 3, w).await.is_ok() }).await?.is_some();
            }
            O7::From(p) => {
                let p = *p as usize % n;
                asked[p] += 1;
                let id = ids[p];
                ended = drive(&mut servers, t, async move { dd.entry(&[7u8; 32], "x").value_from::<everscale_network::proto::dht::Pong>(&id).await.is_ok() }).await?.is_some();
            }
            O7::Search { full } => {
                for p in 0..n {
                    asked[p] += !bad[p] as usize;
                }
                let full = *full;
                ended = drive(&mut servers, t, async move {
                    use futures_util::StreamExt;
                    let e = dd.entry(&[9u8; 32], "x").values::<everscale_network::proto::dht::Pong>();
                    let e = if full { e.use_full_batch() } else { e };
                    e.count().await
                })
                .await?
                .is_some();
                for p in 0..n {
                    let got = servers[p].got.iter().filter(|q| find_value_key(q).is_some()).count();
                    check!(got == 0 || !bad[p], "a bad peer (score {} over {}) is asked by a value search", score[p], c.threshold);
                    check!(got > 0 || bad[p], "a good peer (score {}, threshold {}) is not asked by a value search", score[p], c.threshold);
                    nt |= bad[p];
                }
            }
            O7::More => {
                asked.iter_mut().for_each(|a| *a += 1);
                ended = drive(&mut servers, t, async move { dd.find_more_dht_nodes().await.is_ok() }).await?.is_some();
            }
            O7::Store => {
                asked.iter_mut().for_each(|a| *a += 1);
                let k = Arc::new(adnl::Key::from_bytes(Key::nth(c.seed + 50).seed));
                ended = drive(&mut servers, t, async move {
                    let f = dd.entry(k.id(), "s").with_data_raw(&[1, 2, 3, 4]).with_ttl(1000).sign_and_store(&k);
                    match f {
                        Ok(f) => f.await,
                        Err(e) => panic!("{e}"),
                    }
                })
                .await?
                .is_some();
            }
            O7::ReAdd(p) | O7::Intro(p) => {
                let p = *p as usize % n;
                let r = servers[p].rec(1);
                if matches!(op, O7::ReAdd(_)) {
                    let _ = d.d.add_dht_peer(r.owned());
                } else {
                    let q = intro(&r, &W::new().u32(id::dht_ping()).u64(1).done());
                    servers[p].p.query(false, &q).await;
                }
                score[p] = score[p].saturating_sub(1);
            }
        }
        check!(ended, "{op:?} does not end");
        for p in 0..n {
            for _ in 0..asked[p] {
                if alive >> p & 1 == 1 {
                    score[p] = score[p].saturating_sub(1);
                } else {
                    score[p] += 2;
                }
            }
            let want = score[p] > c.threshold;
            let got = d.d.is_bad_peer(&ids[p]);
            check!(got == want, "peer {p} counts as {} with {} points and the threshold {} after {op:?}", if got { "bad" } else { "good" }, score[p], c.threshold);
            nt |= want;
        }
    }
    // the value of another ping
    *forged.lock().unwrap() = 1 + (c.seed / 1000 % 255) as u8;
    let (dd, id) = (d.d.clone(), ids[0]);
    let r = drive(&mut servers, 60_000, async move { dd.ping(&id).await }).await?;
    check!(matches!(r, Some(Ok(false) | Err(_))), "a ping that is answered with another value ends with {r:?}");
    Ok(nt)
}

pub fn d07_run(c: &mut Ctx) {
    c.scenario("scores", "some peer counts as bad at some time", 700, d07_case, |v| run(d07(v)));
}
