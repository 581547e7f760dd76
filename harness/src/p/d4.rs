//! D08, D09: DHT networks and hostile DHT traffic
use super::d1::{list_gen, signed_gen, spoil, ListGen, SignedGen, Spoil};
use crate::dh::*;
use crate::fx::*;
use crate::rl::{NetCfg, World};
use everscale_network::{adnl, dht, overlay, proto, tl};
use futures_util::StreamExt;
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddrV4;
use std::sync::Arc;

// ------------------------------------------------------------------ D08

#[derive(Clone, Debug)]
enum Put {
    /// owner, version of the contents
    Value(u8, u8),
    Address(u8, u8),
    /// overlay, member
    Member(u8, u8),
}
#[derive(Clone, Debug)]
struct Op8 {
    by: u8,
    put: Put,
    ttl: u16,
    wait: u16,
}
#[derive(Clone, Debug)]
struct D08Case {
    seed: u64,
    n: u8,
    knows: Vec<u8>,
    reliable: u8,
    loss: Vec<u16>,
    jitter: u32,
    ops: Vec<Op8>,
}
fn d08_case() -> impl Strategy<Value = D08Case> {
    let put = prop_oneof![
        3 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Put::Value(a, b)),
        2 => (0u8..2, any::<u8>()).prop_map(|(a, b)| Put::Address(a, b)),
        3 => (0u8..2, 0u8..4).prop_map(|(a, b)| Put::Member(a, b)),
    ];
    let op = (any::<u8>(), put, prop_oneof![1 => 20u16..40, 2 => 100u16..4000], prop_oneof![3 => Just(0u16), 1 => 0u16..5000]).prop_map(|(by, put, ttl, wait)| Op8 { by, put, ttl, wait });
    (
        1u64..1_000_000,
        2u8..8,
        prop::collection::vec(prop_oneof![2 => any::<u8>(), 2 => (0u8..7).prop_map(|b| 1 << b), 1 => Just(0xffu8)], 7),
        prop_oneof![2 => Just(0xffu8), 3 => any::<u8>()],
        prop::collection::vec(prop_oneof![2 => Just(1000u16), 1 => 100u16..900], 7),
        prop_oneof![2 => Just(0u32), 1 => 1u32..120],
        prop::collection::vec(op, 1..5),
    )
        .prop_map(|(seed, n, knows, reliable, loss, jitter, ops)| D08Case { seed: seed * 1000, n, knows, reliable, loss, jitter, ops })
}

/// Runs a task of some node in the world
async fn task<T: Send + 'static>(w: &mut World, ms: u64, f: impl std::future::Future<Output = T> + Send + 'static) -> Result<T, Fail> {
    let h = tokio::spawn(f);
    w.run(ms, 25, || h.is_finished()).await;
    if !h.is_finished() {
        h.abort();
        return Err(Fail::Viol("a store or lookup does not end".into()));
    }
    h.await.map_err(|e| Fail::Viol(format!("a task of the node ended by {e}")))
}

struct Net8 {
    nodes: Vec<Dht>,
    w: World,
}
/// An entry that was stored and who has it for sure
struct Entry8 {
    key: DKey,
    /// the newest contents (several if members of an overlay)
    value: Vec<Vec<u8>>,
    ttl: u32,
}

async fn d08(c: &D08Case) -> CaseResult {
    let n = c.n as usize;
    let mut nodes = vec![];
    for i in 0..n {
        let mut o = dopts();
        o.value_ttl_sec = 600;
        nodes.push(Dht::with(&Key::nth(c.seed + i as u64), ip(i), opts(), o, None)?);
    }
    let addrs: Vec<SocketAddrV4> = nodes.iter().map(|x| x.s.addr).collect();
    let rel = |i: usize| c.reliable >> i & 1 == 1;
    let loss = (0..n).map(|i| if rel(i) { 0 } else { c.loss[i] }).collect();
    let w = World::new(&addrs, NetCfg { seed: c.seed, loss, jitter: c.jitter, ..Default::default() })?;
    let mut net = Net8 { nodes, w };
    let index: BTreeMap<B32, usize> = (0..n).map(|i| (net.nodes[i].s.keys[0].id, i)).collect();
    for i in 0..n {
        for j in 0..n {
            if i != j && c.knows[i] >> j & 1 == 1 {
                let r = Rec::new(&Key::nth(c.seed + j as u64), addrs[j], 1);
                need!(matches!(net.nodes[i].d.add_dht_peer(r.owned()), Ok(Some(_))), "a DHT peer is refused");
            }
        }
    }
    let known = |net: &Net8, i: usize| -> BTreeSet<usize> { net.nodes[i].known().iter().map(|x| index[x]).collect() };
    // what each node must hold at least: key -> contents
    let mut holds: Vec<BTreeMap<B32, Entry8>> = (0..n).map(|_| BTreeMap::new()).collect();
    let mut tag = 0u64;
    let (mut nt, mut stored_any) = (false, false);
    let mut all: Vec<DKey> = vec![];
    // the expiry of what was stored under a key only grows, so that the last store is the newest one
    let mut newest: BTreeMap<B32, u32> = BTreeMap::new();
    for op in &c.ops {
        if op.wait > 0 {
            net.w.run(op.wait as u64, 250, || false).await;
        }
        let by = op.by as usize % n;
        tag += 1;
        let d = net.nodes[by].d.clone();
        let kn = known(&net, by);
        let now = clock::unix();
        let (key, contents, ttl, res): (DKey, Vec<u8>, u32, Result<bool, String>) = match op.put {
            Put::Value(o, _) => {
                let k = Key::nth(c.seed + 100 + o as u64);
                let ak = Arc::new(adnl::Key::from_bytes(k.seed));
                let key = DKey { id: k.id, name: b"val".to_vec(), idx: 1 };
                let ttl = (now + op.ttl as u32).max(newest.get(&key.hash()).map(|t| t + 1).unwrap_or(0));
                let t = tag;
                let r = task(&mut net.w, 60_000, async move {
                    let s = d.entry(ak.id(), "val").with_key_index(1).with_data(proto::dht::Pong { random_id: t }).expire_at(ttl).sign_and_store(&ak);
                    match s {
                        Ok(s) => s.then_check(move |_, v: proto::dht::Pong| Ok(v.random_id == t)).await.map_err(|e| e.to_string()),
                        Err(e) => Err(e.to_string()),
                    }
                })
                .await?;
                (key, W::new().u32(id::dht_pong()).u64(tag).done(), ttl, r)
            }
            Put::Address(o, a) => {
                let k = Key::nth(c.seed + 110 + o as u64);
                let ak = Arc::new(adnl::Key::from_bytes(k.seed));
                let key = DKey { id: k.id, name: b"address".to_vec(), idx: 0 };
                if newest.get(&key.hash()).map(|t| *t >= now + 600).unwrap_or(false) {
                    continue;
                }
                let addr = SocketAddrV4::new(std::net::Ipv4Addr::new(10, 9, a, tag as u8), 2000 + a as u16);
                let r = task(&mut net.w, 60_000, async move { d.store_address(&ak, addr).await.map_err(|e| e.to_string()) }).await?;
                (key, W::new().u32(u32::from(*addr.ip())).u32(addr.port() as u32).done(), now + 600, r)
            }
            Put::Member(o, m) => {
                let full = overlay::IdFull::for_workchain_overlay(o as i32, &sha256(&c.seed.to_le_bytes()));
                let ov = *full.compute_short_id().as_slice();
                let key = DKey { id: ov, name: b"nodes".to_vec(), idx: 0 };
                let node = ONode::new(&Key::nth(c.seed + 120 + m as u64), &ov, tag as u32);
                let b = node.tl();
                let r = task(&mut net.w, 60_000, async move {
                    let x: proto::overlay::NodeOwned = tl::deserialize(&b).unwrap();
                    let r = x.as_equivalent_ref();
                    d.store_overlay_node(&full, r).await.map_err(|e| e.to_string())
                })
                .await?;
                (key, node.tl(), now + 600, r)
            }
        };
        let res = match res {
            Ok(r) => r,
            Err(e) => viol!("a store fails: {e}"),
        };
        newest.insert(key.hash(), ttl);
        let sure: Vec<usize> = kn.iter().copied().filter(|i| rel(*i)).collect();
        let silent = kn.iter().all(|i| !rel(*i) && c.loss[*i] == 1000);
        if kn.is_empty() || silent || (!rel(by) && c.loss[by] == 1000) {
            check!(!res, "a store that no node can confirm reports success");
            nt = true;
        }
        if rel(by) && !sure.is_empty() && kn.len() <= 5 {
            check!(res, "a store that the nodes {sure:?} confirm reports failure");
        }
        stored_any |= res;
        for i in sure.into_iter().chain([by]) {
            let e = holds[i].entry(key.hash()).or_insert(Entry8 { key: key.clone(), value: vec![], ttl: 0 });
            if e.ttl <= now || key.name != b"nodes" {
                e.value.clear();
            }
            e.ttl = ttl;
            if key.name == b"nodes" {
                let id = &contents[..36];
                e.value.retain(|v| &v[..36] != id);
            }
            e.value.push(contents.clone());
        }
        if !all.contains(&key) {
            all.push(key);
        }
    }
    // lookups now, later and after the end of all lifetimes
    for phase in 0..3 {
        let now = clock::unix();
        for key in &all {
            let h = key.hash();
            let last = newest[&h];
            let wait = match phase {
                0 => 0,
                1 => (last.saturating_sub(clock::unix() + 3)) / 2,
                _ => (last + 1).saturating_sub(clock::unix()),
            };
            if wait > 0 {
                net.w.run(wait as u64 * 1000, 1000, || false).await;
            }
            for f in (0..n).filter(|f| rel(*f)).take(if phase == 0 { 7 } else { 2 }) {
                let now = clock::unix();
                // what reliable nodes name, until a holder is reached
                let live = |i: usize| holds[i].get(&h).filter(|e| e.ttl > now + 5);
                let mut seen = BTreeSet::new();
                let mut todo: Vec<usize> = known(&net, f).into_iter().collect();
                let direct = todo.clone();
                let mut must: Vec<usize> = vec![];
                while let Some(i) = todo.pop() {
                    if !rel(i) || i == f || !seen.insert(i) {
                        continue;
                    }
                    if live(i).is_some() {
                        must.push(i);
                    } else if holds[i].get(&h).is_none() {
                        todo.extend(known(&net, i));
                    }
                }
                let possible: BTreeSet<Vec<u8>> = holds.iter().filter_map(|m| m.get(&h)).flat_map(|e| e.value.clone()).collect();
                let d = net.nodes[f].d.clone();
                let k = key.clone();
                let got: Vec<Vec<u8>> = if key.name == b"val" {
                    let v: Vec<proto::dht::Pong> =
                        task(&mut net.w, 60_000, async move { d.entry(&k.id, "val").with_key_index(1).values::<proto::dht::Pong>().use_full_batch().use_new_peers(true).map(|x| x.1).collect().await }).await?;
                    v.into_iter().map(|v| W::new().u32(id::dht_pong()).u64(v.random_id).done()).collect()
                } else if key.name == b"address" {
                    let id = short(&k.id);
                    // without the nodes named in answers
                    must.retain(|i| direct.contains(i) && direct.len() <= 5);
                    match task(&mut net.w, 60_000, async move { d.find_address(&id).await }).await? {
                        Ok((a, k)) => {
                            check!(*k.compute_short_id().as_slice() == key.id, "an address of another key is found");
                            vec![W::new().u32(u32::from(*a.ip())).u32(a.port() as u32).done()]
                        }
                        Err(_) => vec![],
                    }
                } else {
                    type N = tl::BoxedWrapper<proto::overlay::NodesOwned>;
                    let v: Vec<N> = task(&mut net.w, 60_000, async move { d.entry(&k.id, "nodes").values::<N>().use_full_batch().use_new_peers(true).map(|x| x.1).collect().await }).await?;
                    v.into_iter().flat_map(|l| l.0.nodes.into_iter().map(|x| tl::serialize(x.as_equivalent_ref())).collect::<Vec<_>>()).collect()
                };
                for i in &must {
                    for v in &live(*i).unwrap().value {
                        check!(
                            key.name == b"address" || got.contains(v),
                            "node {f} does not find what node {i} holds of {} (phase {phase}, knows {direct:?}): {} found",
                            String::from_utf8_lossy(&key.name),
                            got.len()
                        );
                    }
                    check!(!got.is_empty(), "node {f} finds no address although node {i} holds it");
                    nt |= !direct.contains(i) || phase > 0;
                }
                // nothing else; what an unreliable node kept may be older but was stored once
                let ever = key.name != b"val" || got.iter().all(|g| possible.contains(g) || c.reliable != 0xff);
                check!(ever, "something else was found");
                check!(phase < 2 || now <= newest[&h] || got.is_empty(), "node {f} finds a value after its lifetime");
            }
        }
        let _ = now;
    }
    Ok(nt && stored_any)
}

/// What a reference peer has on a value
#[derive(Clone, Copy, Debug, PartialEq)]
enum Has {
    Silent,
    Junk(u8),
    Nothing,
    Value,
    /// names these peers
    Names(u32),
}
#[derive(Clone, Debug)]
struct WideCase {
    seed: u64,
    known: u32,
    has: Vec<Has>,
    news: bool,
    /// peers that count as bad before the lookup
    bad: u32,
}
fn wide_case() -> impl Strategy<Value = WideCase> {
    let has = |v: u32, s: u32| {
        prop_oneof![
            s => Just(Has::Silent),
            1 => any::<u8>().prop_map(Has::Junk),
            3 => Just(Has::Nothing),
            v => Just(Has::Value),
            3 => prop_oneof![any::<u32>(), (0u32..24).prop_map(|b| 1 << b)].prop_map(Has::Names),
        ]
    };
    (
        1u64..1_000_000,
        prop_oneof![2 => Just(u32::MAX), 3 => any::<u32>(), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)],
        prop_oneof![
            prop::collection::vec(has(1, 3), 2..24),
            prop::collection::vec(has(1, 0), 2..24),
            prop::collection::vec(has(4, 3), 2..24),
        ],
        any::<bool>(),
        prop_oneof![3 => Just(0u32), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)],
    )
        .prop_map(|(seed, known, has, news, bad)| WideCase { seed: seed * 1000, known, has, news, bad })
}

/// A full lookup over many peers gives what every peer that was to be asked holds
async fn wide(c: &WideCase) -> CaseResult {
    let mut o = dopts();
    o.bad_peer_threshold = 1;
    o.query_timeout_ms = 1000;
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let n = c.has.len();
    let mut servers: Vec<Server> = (0..n).map(|i| Server::new(Key::nth(c.seed + 10 + i as u64), &d, |_| vec![])).collect();
    let recs: Vec<Rec> = servers.iter().map(|s| s.rec(1)).collect();
    let vals: Vec<Val> = (0..n).map(|i| Val::signed(&Key::nth(c.seed + 5), b"w", 2, &W::new().u32(id::dht_pong()).u64(i as u64).done(), clock::unix() + 1000)).collect();
    let named = |m: u32| (0..n).filter(move |i| m >> i & 1 == 1);
    let known: BTreeSet<usize> = named(c.known).collect();
    let bad: BTreeSet<usize> = named(c.bad).filter(|i| known.contains(i)).collect();
    let mut good: Vec<usize> = known.iter().copied().collect();
    good.sort_by_key(|i| sha256(&(c.seed + *i as u64).to_le_bytes()));
    for i in good {
        need!(matches!(d.d.add_dht_peer(recs[i].owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    for i in &bad {
        // a query that times out: two points
        let (dd, p) = (d.d.clone(), servers[*i].p.id());
        let r = drive(&mut servers, 20_000, async move { dd.ping(&p).await.ok() }).await?;
        need!(matches!(r, Some(Some(false))), "a ping without an answer");
        check!(d.d.is_bad_peer(&servers[*i].p.id()), "a peer with two points and the threshold 1 is not bad");
    }
    for i in 0..n {
        let answer = match c.has[i] {
            Has::Silent => vec![],
            Has::Junk(b) => vec![vec![b; b as usize % 40]],
            Has::Nothing => vec![not_found(&[])],
            Has::Value => vec![vals[i].found()],
            Has::Names(m) => vec![not_found(&named(m).filter(|j| *j != i).map(|j| recs[j].clone()).take(6).collect::<Vec<_>>())],
        };
        servers[i].f = Box::new(move |q| if find_value_key(q).is_some() { answer.clone() } else { vec![] });
        servers[i].got.clear();
    }
    // who is to be asked; a bad peer that is named is added again and loses a point
    let mut asked: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = known.iter().copied().filter(|i| !bad.contains(i)).collect();
    let mut unsure: BTreeSet<usize> = BTreeSet::new();
    while let Some(i) = todo.pop() {
        if !asked.insert(i) {
            continue;
        }
        if let Has::Names(m) = c.has[i] {
            let l: Vec<usize> = named(m).filter(|j| *j != i).take(6).collect();
            unsure.extend(l.iter().filter(|j| bad.contains(j)));
            if c.news {
                todo.extend(l.into_iter().filter(|j| !bad.contains(j)));
            } else {
                unsure.extend(l);
            }
        }
    }
    if c.news {
        // what an unsure one names is unsure as well
        let mut t: Vec<usize> = unsure.iter().copied().collect();
        while let Some(i) = t.pop() {
            if let Has::Names(m) = c.has[i] {
                for j in named(m).filter(|j| *j != i).take(6) {
                    if unsure.insert(j) {
                        t.push(j);
                    }
                }
            }
        }
    }
    let (dd, news, kid) = (d.d.clone(), c.news, Key::nth(c.seed + 5).id);
    let f = async move { dd.entry(&kid, "w").with_key_index(2).values::<proto::dht::Pong>().use_full_batch().use_new_peers(news).map(|x| x.1.random_id as usize).collect::<Vec<_>>().await };
    let Some(got) = drive(&mut servers, 120_000, f).await? else { viol!("a lookup does not end") };
    for i in &asked {
        check!(!servers[*i].got.is_empty(), "the peer {i} is not asked by a full lookup");
        if c.has[*i] == Has::Value {
            check!(got.contains(i), "the value that peer {i} holds is missing, {got:?} found");
        }
    }
    for g in &got {
        check!(c.has.get(*g) == Some(&Has::Value) && (asked.contains(g) || unsure.contains(g)), "a value {g} is found that no asked peer holds");
        check!(got.iter().filter(|x| *x == g).count() == 1, "the value of peer {g} is given twice");
    }
    for i in 0..n {
        check!(asked.contains(&i) || unsure.contains(&i) || servers[i].got.is_empty(), "the peer {i} is asked although it is {}", if bad.contains(&i) { "bad" } else { "not known" });
        check!(servers[i].got.iter().filter(|q| find_value_key(q).is_some()).count() <= 1, "the peer {i} is asked twice");
    }
    Ok(asked.len() > 6 && asked.iter().any(|i| c.has[*i] == Has::Value))
}

/// Lookups of the convenience functions in a network small enough that all of it is asked
#[derive(Clone, Debug)]
struct SmallCase {
    seed: u64,
    known: u8,
    /// per peer: (answers at all, 0 names others / 1 holds / 2 names and keeps nothing, whom it names, members of its list, addresses it holds)
    peers: Vec<(bool, u8, u8, u8, u8)>,
    kind: u8,
    /// whether stores are kept by (bit per peer)
    keeps: u8,
}
fn small_case() -> impl Strategy<Value = SmallCase> {
    let peer = (prop::bool::weighted(0.85), prop_oneof![3 => Just(0u8), 2 => Just(1u8)], prop_oneof![2 => any::<u8>(), 3 => (0u8..5).prop_map(|b| 1 << b)], any::<u8>(), prop_oneof![1 => Just(0xffu8), 2 => any::<u8>(), 1 => Just(0u8)]);
    (
        1u64..1_000_000,
        prop_oneof![3 => (0u8..5).prop_map(|b| 1 << b), 2 => any::<u8>()],
        prop::collection::vec(peer, 1..6),
        0u8..3,
        prop_oneof![1 => Just(0u8), 3 => any::<u8>()],
    )
        .prop_map(|(seed, known, peers, kind, keeps)| SmallCase { seed: seed * 1000, known, peers, kind, keeps })
}
async fn small(c: &SmallCase) -> CaseResult {
    let mut o = dopts();
    o.query_timeout_ms = 1000;
    o.bad_peer_threshold = 100;
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let n = c.peers.len();
    let mut servers: Vec<Server> = (0..n).map(|i| Server::new(Key::nth(c.seed + 10 + i as u64), &d, |_| vec![])).collect();
    let recs: Vec<Rec> = servers.iter().map(|s| s.rec(1)).collect();
    let named = move |m: u8| (0..n).filter(move |i| m >> i & 1 == 1);
    let names = |i: usize| named(c.peers[i].2).filter(move |j| *j != i);
    for i in named(c.known) {
        need!(matches!(d.d.add_dht_peer(recs[i].owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    let now = clock::unix();
    let owner = Key::nth(c.seed + 5);
    let oname = sha256(&c.seed.to_le_bytes());
    let ofull = overlay::IdFull::for_workchain_overlay(1, &oname);
    let ov = *ofull.compute_short_id().as_slice();
    let mkey = |m: usize| Key::nth(c.seed + 100 + m as u64);
    let member = |m: usize| ONode::new(&mkey(m), &ov, 3);
    let address = |m: usize, by: usize| SocketAddrV4::new(std::net::Ipv4Addr::new(10, 1, by as u8, m as u8), 700 + m as u16);
    // the full id of a workchain overlay is known by its serialized form only
    let oraw = ofull.as_slice().to_vec();
    let lookup = match c.kind {
        0 => DKey { id: owner.id, name: b"s".to_vec(), idx: 3 }.hash(),
        1 => DKey { id: owner.id, name: b"s".to_vec(), idx: 3 }.hash(),
        _ => DKey { id: ov, name: b"nodes".to_vec(), idx: 0 }.hash(),
    };
    let stored = Arc::new(std::sync::Mutex::new(vec![0u32; n]));
    for i in 0..n {
        let (alive, has, ..) = c.peers[i];
        let holds: Option<Vec<u8>> = match c.kind {
            0 => (has == 1).then(|| Val::signed(&owner, b"s", 3, &W::new().u32(id::dht_pong()).u64(i as u64).done(), now + 1000).found()),
            1 => None,
            _ => (has == 1).then(|| Val::overlay(&oraw, &ONode::list(&(0..4).filter(|m| c.peers[i].3 >> m & 1 == 1).map(member).collect::<Vec<_>>()), now + 1000).found()),
        };
        let nf = not_found(&names(i).map(|j| recs[j].clone()).collect::<Vec<_>>());
        let books: BTreeMap<B32, Vec<u8>> = (0..4)
            .filter(|m| c.peers[i].4 >> m & 1 == 1)
            .map(|m| {
                let k = mkey(m);
                let l = AddrList::one(address(m, i), 1, now, 0).write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done();
                let v = Val::signed(&k, b"address", 0, &l, now + 1000);
                (v.key.hash(), v.found())
            })
            .collect();
        let (stored, keeps) = (stored.clone(), c.keeps >> i & 1 == 1);
        let mut kept: Option<Vec<u8>> = None;
        servers[i].f = Box::new(move |q| {
            if !alive {
                return vec![];
            }
            if let Some((k, _)) = find_value_key(q) {
                if k == lookup {
                    return vec![kept.clone().or(holds.clone()).unwrap_or_else(|| nf.clone())];
                }
                return vec![books.get(&k).cloned().unwrap_or_else(|| not_found(&[]))];
            }
            let mut r = R(q);
            if r.id(id::dht_store()).is_some() {
                stored.lock().unwrap()[i] += 1;
                if let (true, Some(v)) = (keeps, Val::read(&mut r)) {
                    kept = Some(v.found());
                }
                return vec![crate::dh::stored()];
            }
            vec![]
        });
    }
    // all that the names lead to; a peer that holds the value names nobody
    let names_of = |i: usize| -> Vec<usize> {
        let (alive, has, ..) = c.peers[i];
        let direct = c.known >> i & 1 == 1;
        let holds = match c.kind {
            1 => c.keeps >> i & 1 == 1 && direct,
            _ => has == 1,
        };
        if alive && !holds { names(i).collect() } else { vec![] }
    };
    let mut reach: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = named(c.known).collect();
    while let Some(i) = todo.pop() {
        if reach.insert(i) {
            todo.extend(names_of(i));
        }
    }
    let dd = d.d.clone();
    let far = reach.len() > named(c.known).count();
    match c.kind {
        0 => {
            let kid = owner.id;
            let news = c.keeps & 1 == 1;
            let f = async move { dd.entry(&kid, "s").with_key_index(3).values::<proto::dht::Pong>().use_new_peers(news).map(|x| x.1.random_id as usize).collect::<BTreeSet<_>>().await };
            let Some(got) = drive(&mut servers, 120_000, f).await? else { viol!("a lookup does not end") };
            let asked: BTreeSet<usize> = if news { reach.clone() } else { named(c.known).collect() };
            let want: BTreeSet<usize> = asked.iter().copied().filter(|i| c.peers[*i].0 && c.peers[*i].1 == 1).collect();
            check!(got == want, "the values of the peers {got:?} are found, to be asked were {asked:?} with values at {want:?}");
            Ok(far && news && !want.is_empty())
        }
        1 => {
            let ak = Arc::new(adnl::Key::from_bytes(owner.seed));
            let f = async move {
                let s = dd.entry(ak.id(), "s").with_key_index(3).with_data(proto::dht::Pong { random_id: 77 }).expire_at(now + 500).sign_and_store(&ak)?;
                s.then_check(|_, v: proto::dht::Pong| Ok(v.random_id == 77)).await
            };
            let Some(got) = drive(&mut servers, 120_000, f).await? else { viol!("a store does not end") };
            let Ok(got) = got else { viol!("a store fails: {got:?}") };
            for i in 0..n {
                let want = (c.known >> i & 1 == 1 && c.peers[i].0) as u32;
                check!(stored.lock().unwrap()[i] == want, "the value is stored {} times at peer {i}", stored.lock().unwrap()[i]);
            }
            let want = named(c.known).any(|i| c.peers[i].0 && c.keeps >> i & 1 == 1);
            check!(got == want, "the store ends with {got}, kept by a known peer: {want}");
            // the search goes on to the peers that are named
            if !got {
                for i in &reach {
                    check!(servers[*i].got.iter().any(|q| find_value_key(q).map(|x| x.0) == Some(lookup)), "the peer {i} is not asked by the check of a store");
                }
            }
            Ok(far || want)
        }
        _ => {
            let oid = overlay::IdShort::new(ov);
            let f = async move { dd.find_overlay_nodes(&oid).await };
            let Some(got) = drive(&mut servers, 120_000, f).await? else { viol!("a search for overlay nodes does not end") };
            let Ok(got) = got else { viol!("a search for overlay nodes fails") };
            let listed: BTreeSet<usize> = reach.iter().filter(|i| c.peers[**i].0 && c.peers[**i].1 == 1).flat_map(|i| (0..4).filter(|m| c.peers[*i].3 >> m & 1 == 1).collect::<Vec<_>>()).collect();
            let book = |m: usize| -> Vec<SocketAddrV4> { reach.iter().filter(|i| c.peers[**i].0 && c.peers[**i].4 >> m & 1 == 1).map(|i| address(m, *i)).collect() };
            let mut found = BTreeSet::new();
            for (a, x) in &got {
                let x = tl::serialize(x.as_equivalent_ref());
                let Some(m) = (0..4).find(|m| member(*m).tl() == x) else { viol!("an unknown overlay node is found") };
                check!(found.insert(m), "the member {m} is found twice");
                check!(book(m).contains(a), "the member {m} is given the address {a}");
            }
            let want: BTreeSet<usize> = listed.iter().copied().filter(|m| !book(*m).is_empty()).collect();
            check!(found == want, "the members {found:?} are found instead of {want:?}");
            Ok(far && !want.is_empty())
        }
    }
}

/// Searches for overlay members that have to go on because of what the address searches found:
/// the peers that are only named there hold the members that can be reached
#[derive(Clone, Debug)]
struct RoundsCase {
    seed: u64,
    known: u8,
    peers: Vec<RoundsPeer>,
}
#[derive(Clone, Debug)]
struct RoundsPeer {
    alive: bool,
    /// its list of members
    list: Option<u8>,
    /// whose addresses it has
    book: u8,
    /// whom it names in a search for members, for addresses
    names: [u8; 2],
}
fn rounds_case() -> impl Strategy<Value = RoundsCase> {
    let few = || prop_oneof![3 => (0u8..5).prop_map(|b| 1 << b), 1 => any::<u8>(), 1 => Just(0u8)];
    let peer = (prop::bool::weighted(0.9), prop::option::weighted(0.7, prop_oneof![4 => (0u8..5).prop_map(|b| 1 << b), 1 => any::<u8>()]), prop_oneof![3 => Just(0u8), 1 => (0u8..5).prop_map(|b| 1 << b), 1 => any::<u8>()], [few(), few()])
        .prop_map(|(alive, list, book, names)| RoundsPeer { alive, list, book, names });
    (1u64..1_000_000, prop_oneof![3 => Just(1u8), 1 => any::<u8>()], prop::collection::vec(peer, 2..6)).prop_map(|(seed, known, peers)| RoundsCase { seed: seed * 1000, known, peers })
}
async fn rounds(c: &RoundsCase) -> CaseResult {
    const MEMBERS: usize = 5;
    let mut o = dopts();
    o.bad_peer_threshold = 100;
    o.default_value_batch_len = 6;
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let n = c.peers.len();
    let now = clock::unix();
    let ofull = overlay::IdFull::for_workchain_overlay(1, &sha256(&c.seed.to_le_bytes()));
    let ov = *ofull.compute_short_id().as_slice();
    let mkey = |m: usize| Key::nth(c.seed + 100 + m as u64);
    let member = |m: usize| ONode::new(&mkey(m), &ov, 3);
    let address = |m: usize, by: usize| SocketAddrV4::new(std::net::Ipv4Addr::new(10, 1, by as u8, m as u8), 700 + m as u16);
    let lookup = DKey { id: ov, name: b"nodes".to_vec(), idx: 0 }.hash();
    let mut servers: Vec<Server> = (0..n).map(|i| Server::new(Key::nth(c.seed + 10 + i as u64), &d, |_| vec![])).collect();
    let recs: Vec<Rec> = servers.iter().map(|s| s.rec(1)).collect();
    let bits = |m: u8, n: usize| (0..n).filter(move |i| m >> i & 1 == 1).collect::<Vec<_>>();
    for (i, p) in c.peers.iter().enumerate() {
        let list = p.list.map(|l| Val::overlay(ofull.as_slice(), &ONode::list(&bits(l, MEMBERS).into_iter().map(member).collect::<Vec<_>>()), now + 1000).found());
        let nf: Vec<Vec<u8>> = p.names.iter().map(|m| not_found(&bits(*m, n).into_iter().filter(|j| *j != i).map(|j| recs[j].clone()).collect::<Vec<_>>())).collect();
        let book: BTreeMap<B32, Vec<u8>> = bits(p.book, MEMBERS)
            .into_iter()
            .map(|m| {
                let l = AddrList::one(address(m, i), 1, now, 0).write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done();
                let v = Val::signed(&mkey(m), b"address", 0, &l, now + 1000);
                (v.key.hash(), v.found())
            })
            .collect();
        let alive = p.alive;
        servers[i].f = Box::new(move |q| match find_value_key(q) {
            Some((k, _)) if alive && k == lookup => vec![list.clone().unwrap_or_else(|| nf[0].clone())],
            Some((k, _)) if alive => vec![book.get(&k).cloned().unwrap_or_else(|| nf[1].clone())],
            _ => vec![],
        });
    }
    let start = bits(c.known, n);
    for i in &start {
        need!(matches!(d.d.add_dht_peer(recs[*i].owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    // what has to be found
    let mut known: BTreeSet<usize> = start.into_iter().collect();
    let (mut cache, mut want, mut round) = (BTreeSet::new(), BTreeSet::new(), 0);
    loop {
        let mut todo: Vec<usize> = known.iter().copied().collect();
        while let Some(i) = todo.pop() {
            let p = &c.peers[i];
            if p.alive && p.list.is_none() {
                todo.extend(bits(p.names[0], n).into_iter().filter(|j| known.insert(*j)));
            }
        }
        let fresh: Vec<usize> = known.iter().filter(|i| c.peers[**i].alive).flat_map(|i| bits(c.peers[*i].list.unwrap_or(0), MEMBERS)).filter(|m| cache.insert(*m)).collect();
        if fresh.is_empty() {
            break;
        }
        round += 1;
        want = fresh.into_iter().filter(|m| known.iter().any(|i| c.peers[*i].alive && c.peers[*i].book >> m & 1 == 1)).collect::<BTreeSet<_>>();
        if !want.is_empty() {
            break;
        }
        let more: Vec<usize> = known.iter().filter(|i| c.peers[**i].alive).flat_map(|i| bits(c.peers[*i].names[1], n)).collect();
        known.extend(more);
    }
    let dd = d.d.clone();
    let oid = overlay::IdShort::new(ov);
    let Some(got) = drive(&mut servers, 200_000, async move { dd.find_overlay_nodes(&oid).await }).await? else { viol!("a search for overlay nodes does not end") };
    let Ok(got) = got else { viol!("a search for overlay nodes fails") };
    let mut found = BTreeSet::new();
    for (a, x) in &got {
        let x = tl::serialize(x.as_equivalent_ref());
        let Some(m) = (0..MEMBERS).find(|m| member(*m).tl() == x) else { viol!("an unknown overlay node is found") };
        check!(found.insert(m), "the member {m} is found twice");
        check!((0..n).any(|i| c.peers[i].alive && c.peers[i].book >> m & 1 == 1 && address(m, i) == *a), "the member {m} is given the address {a}");
    }
    check!(found.is_superset(&want), "the members {found:?} are found, but {want:?} are to be found in round {round}");
    check!(!want.is_empty() || found.is_empty(), "members are found that nobody leads to");
    Ok(round > 1 && !want.is_empty())
}

/// A lookup with a limited batch: (seed, batch or the default, peers, who is silent, bad ones)
#[derive(Clone, Debug)]
struct BatchCase {
    seed: u64,
    batch: Option<u8>,
    n: u8,
    silent: u32,
    bad: u32,
}
async fn batch(c: &BatchCase) -> CaseResult {
    let mut o = dopts();
    o.bad_peer_threshold = 1;
    o.query_timeout_ms = 1000;
    if let Some(b) = c.batch {
        o.default_value_batch_len = b as usize;
    }
    let len = c.batch.unwrap_or(5) as usize;
    let d = Dht::new(&Key::nth(c.seed), o)?;
    let n = c.n as usize;
    let mut servers: Vec<Server> = (0..n).map(|i| Server::new(Key::nth(c.seed + 10 + i as u64), &d, |_| vec![])).collect();
    for s in &servers {
        need!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    let bad = |i: usize| c.bad >> i & 1 == 1;
    for i in (0..n).filter(|i| bad(*i)) {
        let (dd, p) = (d.d.clone(), servers[i].p.id());
        let r = drive(&mut servers, 20_000, async move { dd.ping(&p).await.ok() }).await?;
        need!(matches!(r, Some(Some(false))), "a ping without an answer");
    }
    let owner = Key::nth(c.seed + 5);
    let key = DKey { id: owner.id, name: b"w".to_vec(), idx: 2 }.hash();
    let near: Vec<usize> = servers.iter().map(|s| prefix(&key, &s.p.key().id)).collect();
    let top = (0..n).filter(|i| !bad(*i)).map(|i| near[i]).max();
    for i in 0..n {
        let v = Val::signed(&owner, b"w", 2, &W::new().u32(id::dht_pong()).u64(i as u64).done(), clock::unix() + 1000).found();
        let (silent, closest) = (c.silent >> i & 1 == 1, Some(near[i]) == top);
        servers[i].f = Box::new(move |q| match find_value_key(q) {
            Some(_) if silent && !closest => vec![],
            Some(_) => vec![v.clone()],
            None => vec![],
        });
        servers[i].got.clear();
    }
    let kid = owner.id;
    let dd = d.d.clone();
    let f = async move { dd.entry(&kid, "w").with_key_index(2).values::<proto::dht::Pong>().map(|x| x.1.random_id as usize).collect::<Vec<_>>().await };
    let Some(got) = drive(&mut servers, 120_000, f).await? else { viol!("a lookup does not end") };
    let good = (0..n).filter(|i| !bad(*i)).count();
    let asked: Vec<usize> = (0..n).filter(|i| !servers[*i].got.is_empty()).collect();
    check!(asked.iter().all(|i| !bad(*i)), "a bad peer is asked");
    check!(asked.len() >= good.min(len), "only {} of {good} peers are asked with the batch length {len}", asked.len());
    for i in (0..n).filter(|i| !bad(*i) && Some(near[*i]) == top) {
        check!(asked.contains(&i) && got.contains(&i), "the closest peer {i} ({} common bits) is not asked with the batch length {len}: {asked:?} of {near:?}", near[i]);
    }
    for i in &asked {
        check!(servers[*i].got.len() == 1, "a peer is asked {} times", servers[*i].got.len());
        let answers = c.silent >> i & 1 == 0 || Some(near[*i]) == top;
        check!(got.iter().filter(|g| *g == i).count() == answers as usize, "the value of peer {i} is found {} times", got.iter().filter(|g| *g == i).count());
    }
    Ok(good > len)
}

pub fn d08_run(c: &mut Ctx) {
    c.scenario(
        "batch",
        "more peers are good than one batch has",
        500,
        || {
            let bits = || prop_oneof![1 => Just(0u32), 1 => any::<u32>(), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)];
            (1u64..1_000_000, prop::option::of(1u8..12), 1u8..24, bits(), prop_oneof![2 => Just(0u32), 1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| a & b)])
                .prop_map(|(seed, batch, n, silent, bad)| BatchCase { seed: seed * 1000, batch, n, silent, bad })
        },
        |v| run(batch(v)),
    );
    c.scenario("small", "a peer that only others name is to be asked, and something is to be found", 2500, small_case, |v| run(small(v)));
    c.scenario("rounds", "members are to be found after a first round in vain", 2500, rounds_case, |v| run(rounds(v)));
    c.scenario("wide", "more than six peers are to be asked and one of them holds a value", 500, wide_case, |v| run(wide(v)));
    c.scenario(
        "networks",
        "a store succeeds and a value is found through a named node or after time, or a store cannot be confirmed",
        300,
        d08_case,
        |v| run(d08(v)),
    );
}

// ------------------------------------------------------------------ D09

#[derive(Clone, Debug)]
enum Req {
    Raw(Vec<u8>),
    /// a known constructor and arbitrary bytes
    Typed(u8, Vec<u8>),
    Ping,
    FindNode(u64, u32),
    FindValue(u64, u32),
    Address,
    Store(SignedGen, Vec<Spoil>),
    StoreList(ListGen, Vec<Spoil>),
    /// a vector that announces more than there is
    Counted { store: bool, n: u32 },
    /// self-introducing, repeatedly: `valid` records
    Nested { depth: u16, valid: bool, inner: Box<Req> },
    Cut(Box<Req>, u16),
    Extended(Box<Req>, Vec<u8>),
    BitFlip(Box<Req>, u16),
    /// introduction without a query
    OnlyIntro(bool),
    Big(u32),
}
fn req() -> impl Strategy<Value = Req> {
    let bytes = || prop::collection::vec(any::<u8>(), 0..120);
    let leaf = prop_oneof![
        1 => bytes().prop_map(Req::Raw),
        2 => (0u8..8, bytes()).prop_map(|(a, b)| Req::Typed(a, b)),
        1 => Just(Req::Ping),
        2 => (any::<u64>(), prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>(), 0u32..30]).prop_map(|(a, b)| Req::FindNode(a, b)),
        2 => (any::<u64>(), prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>(), 0u32..30]).prop_map(|(a, b)| Req::FindValue(a, b)),
        1 => Just(Req::Address),
        3 => (signed_gen(), prop::collection::vec(spoil(), 0..3)).prop_map(|(a, b)| Req::Store(a, b)),
        3 => (list_gen(), prop::collection::vec(spoil(), 0..3)).prop_map(|(a, b)| Req::StoreList(a, b)),
        1 => (any::<bool>(), prop_oneof![Just(u32::MAX), Just(1u32 << 31), Just(1 << 24), 0u32..100_000]).prop_map(|(store, n)| Req::Counted { store, n }),
        1 => any::<bool>().prop_map(Req::OnlyIntro),
        1 => prop_oneof![1000u32..20_000, 100_000u32..300_000].prop_map(Req::Big),
    ];
    leaf.prop_recursive(3, 6, 1, move |inner| {
        let i = || inner.clone().prop_map(Box::new);
        prop_oneof![
            3 => (prop_oneof![4 => 1u16..4, 2 => 4u16..40, 1 => 100u16..2500, 1 => 3_000u16..12_000], any::<bool>(), i()).prop_map(|(depth, valid, inner)| Req::Nested { depth, valid, inner }),
            2 => (i(), any::<u16>()).prop_map(|(a, b)| Req::Cut(a, b)),
            1 => (i(), prop::collection::vec(any::<u8>(), 1..20)).prop_map(|(a, b)| Req::Extended(a, b)),
            2 => (i(), any::<u16>()).prop_map(|(a, b)| Req::BitFlip(a, b)),
        ]
    })
}
impl Req {
    fn build(&self, seed: u64, rec: &Rec) -> Vec<u8> {
        let mut bad = rec.clone();
        bad.sig[0] ^= 1;
        match self {
            Req::Raw(d) => d.clone(),
            Req::Typed(t, d) => {
                let t = [id::dht_ping(), id::dht_store(), id::find_node(), id::find_value(), id::get_signed_address_list(), id::dht_query(), id::value_found(), id::dht_nodes()][*t as usize % 8];
                W::new().u32(t).raw(d).done()
            }
            Req::Ping => W::new().u32(id::dht_ping()).u64(seed).done(),
            Req::FindNode(t, k) => find_node_query(&sha256(&t.to_le_bytes()), *k),
            Req::FindValue(t, k) => find_value_query(&sha256(&t.to_le_bytes()), *k),
            Req::Address => W::new().u32(id::get_signed_address_list()).done(),
            Req::Store(g, s) => {
                let (mut v, k) = g.build(seed);
                s.iter().for_each(|s| s.apply(&mut v, &k, &Key::nth(seed + 102)));
                v.store_query()
            }
            Req::StoreList(g, s) => {
                let mut v = g.build(seed);
                s.iter().for_each(|s| s.apply(&mut v, &Key::nth(seed + 100), &Key::nth(seed + 102)));
                v.store_query()
            }
            Req::Counted { store, n } => {
                if *store {
                    let l = W::new().u32(id::overlay_nodes()).u32(*n).raw(&ONode::new(&Key::nth(seed), &sha256(&overlay_pub(b"x")), 1).tl()).done();
                    Val::overlay(b"x", &l, clock::unix() + 100).store_query()
                } else {
                    // an address list that announces n addresses
                    W::new().u32(id::dht_query()).raw(&rec.id).u32(*n).u32(id::udp()).u32(1).u32(2).done()
                }
            }
            Req::Nested { depth, valid, inner } => {
                let one = W::new().u32(id::dht_query()).raw(&if *valid { rec.tl() } else { bad.tl() }).done();
                let mut d = one.repeat(*depth as usize);
                d.extend(inner.build(seed, rec));
                d
            }
            Req::Cut(i, n) => {
                let mut d = i.build(seed, rec);
                let n = *n as usize % (d.len() + 1);
                d.truncate(n);
                d
            }
            Req::Extended(i, x) => [i.build(seed, rec), x.clone()].concat(),
            Req::BitFlip(i, b) => {
                let mut d = i.build(seed, rec);
                if !d.is_empty() {
                    let b = *b as usize % (d.len() * 8);
                    d[b / 8] ^= 1 << (b % 8);
                }
                d
            }
            Req::OnlyIntro(v) => W::new().u32(id::dht_query()).raw(&if *v { rec.tl() } else { bad.tl() }).done(),
            Req::Big(n) => Val::signed(&Key::nth(seed + 100), b"big", 0, &payload(*n as u64, *n as usize), clock::unix() + 100).store_query(),
        }
    }
    /// Whether the data may contain a valid introduction
    fn intros(&self) -> bool {
        match self {
            Req::Nested { valid, inner, .. } => *valid || inner.intros(),
            Req::OnlyIntro(v) => *v,
            Req::Cut(i, _) | Req::Extended(i, _) | Req::BitFlip(i, _) => i.intros(),
            Req::Counted { .. } | Req::Typed(..) | Req::Raw(_) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
struct D09Case {
    seed: u64,
    reqs: Vec<Req>,
}

async fn d09_requests(c: &D09Case) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut good = RefPeer::new(Key::nth(c.seed + 10), &d.s);
    let mut evil = RefPeer::new(Key::nth(c.seed + 11), &d.s);
    good.connect().await?;
    evil.connect().await?;
    let v = Val::signed(&Key::nth(c.seed + 900), b"kept", 0, &payload(1, 50), clock::unix() + 1000);
    need!(d.store_local(&v), "a value is refused");
    let rec = Rec::new(evil.key(), evil.addr(), 1);
    let mut expect: BTreeSet<B32> = BTreeSet::new();
    let mut refused = 0;
    for r in &c.reqs {
        let data = r.build(c.seed, &rec);
        let m0 = d.d.metrics();
        let known0 = d.known();
        let mut data4 = data.clone();
        while data4.len() < 4 {
            data4.push(0);
        }
        let a = if data4.len() < 1_800_000 { try_query(&mut evil, &data4).await? } else { None };
        if r.intros() {
            expect.insert(evil.key().id);
        }
        let m1 = d.d.metrics();
        for k in d.known() {
            check!(known0.contains(&k) || expect.contains(&k), "a peer became known by {r:?}");
        }
        if a.is_none() {
            refused += 1;
            check!((m0.storage_len, m0.storage_total_size) == (m1.storage_len, m1.storage_total_size), "a refused request changed the stored values: {r:?}");
        }
    }
    // honest requests
    check!(ask_value(&mut good, &v.key.hash(), 3).await? == Found::Value(v.clone()), "a stored value is altered");
    let p = good.query(false, &W::new().u32(id::dht_ping()).u64(12345).done()).await;
    check!(p == Some(W::new().u32(id::dht_pong()).u64(12345).done()), "an honest ping is answered by {p:?}");
    let v2 = Val::signed(&Key::nth(c.seed + 900), b"new", 0, &payload(2, 50), clock::unix() + 1000);
    let s = good.query(false, &v2.store_query()).await;
    check!(s == Some(stored()), "an honest store is answered by {s:?}");
    check!(ask_value(&mut good, &v2.key.hash(), 3).await? == Found::Value(v2.clone()), "a newly stored value is not there");
    let Some(l) = good.query(false, &W::new().u32(id::get_signed_address_list()).done()).await else { viol!("the address list is not given") };
    let mut r = R(&l);
    r.id(id::dht_node());
    let own = Rec::read(&mut r);
    check!(own.as_ref().map(|r| r.signed() && r.short() == Some(d.s.keys[0].id)) == Some(true), "the own record is {own:?}");
    Ok(refused > 0)
}

/// What a hostile peer answers, whatever is asked
#[derive(Clone, Debug)]
enum Ans {
    Nothing,
    Raw(Vec<u8>),
    Typed(u8, Vec<u8>),
    Nodes { n: u16, valid: bool, boxed: bool },
    Counted(u32),
    Value(SignedGen, Vec<Spoil>),
    List(ListGen, Vec<Spoil>),
    Cut(Box<Ans>, u16),
    Request(Box<Req>),
    Many(Vec<Ans>),
}
fn ans() -> impl Strategy<Value = Ans> {
    let bytes = || prop::collection::vec(any::<u8>(), 0..80);
    let leaf = prop_oneof![
        1 => Just(Ans::Nothing),
        2 => bytes().prop_map(Ans::Raw),
        3 => (0u8..8, bytes()).prop_map(|(a, b)| Ans::Typed(a, b)),
        3 => (prop_oneof![4 => 0u16..5, 1 => 5u16..300], any::<bool>(), any::<bool>()).prop_map(|(n, valid, boxed)| Ans::Nodes { n, valid, boxed }),
        1 => prop_oneof![Just(u32::MAX), Just(1u32 << 31), 0u32..100_000].prop_map(Ans::Counted),
        3 => (signed_gen(), prop::collection::vec(spoil(), 0..2)).prop_map(|(a, b)| Ans::Value(a, b)),
        3 => (list_gen(), prop::collection::vec(spoil(), 0..2)).prop_map(|(a, b)| Ans::List(a, b)),
        1 => req().prop_map(|r| Ans::Request(Box::new(r))),
    ];
    leaf.prop_recursive(2, 4, 2, |i| {
        prop_oneof![
            (i.clone(), any::<u16>()).prop_map(|(a, b)| Ans::Cut(Box::new(a), b)),
            prop::collection::vec(i, 1..3).prop_map(Ans::Many),
        ]
    })
}
impl Ans {
    fn build(&self, seed: u64, rec: &Rec) -> Vec<Vec<u8>> {
        let recs = |n: u16, valid: bool| -> Vec<Rec> {
            (0..n)
                .map(|i| {
                    let mut r = if valid { Rec::new(&Key::nth(seed + 600 + (i % 20) as u64), SocketAddrV4::new(std::net::Ipv4Addr::new(127, 9, 9, 9), 9), 1 + i as u32) } else { rec.clone() };
                    if !valid {
                        r.version = i as u32 + 77;
                    }
                    r
                })
                .collect()
        };
        match self {
            Ans::Nothing => vec![],
            Ans::Raw(d) => vec![d.clone()],
            Ans::Typed(t, d) => {
                let t = [id::dht_pong(), id::dht_nodes(), id::value_found(), id::value_not_found(), id::stored(), id::dht_node(), id::dht_value(), id::overlay_nodes()][*t as usize % 8];
                vec![W::new().u32(t).raw(d).done()]
            }
            Ans::Nodes { n, valid, boxed } => vec![if *boxed { nodes_answer(&recs(*n, *valid)) } else { not_found(&recs(*n, *valid)) }],
            Ans::Counted(n) => vec![W::new().u32(id::value_not_found()).u32(*n).raw(&rec.tl()).done()],
            Ans::Value(g, s) => {
                let (mut v, k) = g.build(seed);
                s.iter().for_each(|s| s.apply(&mut v, &k, &Key::nth(seed + 102)));
                vec![v.found()]
            }
            Ans::List(g, s) => {
                let mut v = g.build(seed);
                s.iter().for_each(|s| s.apply(&mut v, &Key::nth(seed + 100), &Key::nth(seed + 102)));
                vec![v.found()]
            }
            Ans::Cut(a, n) => a
                .build(seed, rec)
                .into_iter()
                .map(|mut d| {
                    let n = *n as usize % (d.len() + 1);
                    d.truncate(n);
                    d
                })
                .collect(),
            Ans::Request(r) => vec![r.build(seed, rec)],
            Ans::Many(l) => l.iter().flat_map(|a| a.build(seed, rec)).collect(),
        }
    }
}
#[derive(Clone, Debug)]
struct D09Answers {
    seed: u64,
    peers: Vec<Vec<Ans>>,
    calls: Vec<u8>,
}

async fn d09_answers(c: &D09Answers) -> CaseResult {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let v = Val::signed(&Key::nth(c.seed + 900), b"kept", 0, &payload(1, 50), clock::unix() + 1_000_000);
    need!(d.store_local(&v), "a value is refused");
    let mut servers = vec![];
    for (i, p) in c.peers.iter().enumerate() {
        let key = Key::nth(c.seed + 300 + i as u64);
        let (plan, seed) = (p.clone(), c.seed);
        let mut at = 0;
        let r0 = Rec::new(&key, SocketAddrV4::new(LOCAL, 1), 1);
        let s = Server::new(key, &d, move |q| {
            // an ADNL ping keeps its answer
            if R(q).u32() == Some(id::ping()) {
                return vec![];
            }
            at += 1;
            plan[(at - 1) % plan.len()].build(seed, &r0)
        });
        need!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a DHT peer is refused");
        servers.push(s);
    }
    let mut asked = 0;
    for call in &c.calls {
        let dd = d.d.clone();
        let id0 = servers[*call as usize / 16 % servers.len()].p.id();
        let seed = c.seed;
        let f: futures_util::future::BoxFuture<'static, ()> = match call % 8 {
            0 => Box::pin(async move { drop(dd.ping(&id0).await) }),
            1 => Box::pin(async move { drop(dd.query_dht_nodes(&id0, 10, true).await) }),
            2 => Box::pin(async move { drop(dd.find_more_dht_nodes().await) }),
            3 => Box::pin(async move { drop(dd.find_address(&short(&Key::nth(seed + 100).id)).await) }),
            4 => Box::pin(async move {
                let ov = overlay::IdShort::new(sha256(&overlay_pub(&super::d1::ov_name(seed, 0))));
                drop(dd.find_overlay_nodes(&ov).await)
            }),
            5 => Box::pin(async move {
                let k = adnl::Key::from_bytes(Key::nth(seed + 100).seed);
                drop(dd.store_address(&k, SocketAddrV4::new(LOCAL, 5)).await)
            }),
            6 => Box::pin(async move {
                let k = Key::nth(seed + 100).id;
                let e: dht::Entry<'_> = dd.entry(&k, "n0");
                e.values::<proto::dht::Pong>().use_full_batch().use_new_peers(true).count().await;
            }),
            _ => Box::pin(async move { drop(dd.entry(&[1u8; 32], "n0").value_from::<tl::BoxedWrapper<proto::overlay::NodesOwned>>(&id0).await) }),
        };
        let ended = drive(&mut servers, 900_000, f).await?.is_some();
        check!(ended, "the call {} does not end", call % 8);
        asked += servers.iter().map(|s| s.got.len()).sum::<usize>();
    }
    let mut good = RefPeer::new(Key::nth(c.seed + 10), &d.s);
    good.connect().await?;
    check!(ask_value(&mut good, &v.key.hash(), 3).await? == Found::Value(v.clone()), "a stored value is altered");
    let p = good.query(false, &W::new().u32(id::dht_ping()).u64(12345).done()).await;
    check!(p == Some(W::new().u32(id::dht_pong()).u64(12345).done()), "an honest ping is answered by {p:?}");
    // peers become known only by valid records
    let ok: BTreeSet<B32> = (0..20u64).map(|i| c.seed + 600 + i).chain((0..c.peers.len() as u64).map(|i| c.seed + 300 + i)).map(|n| Key::nth(n).id).collect();
    for k in d.known() {
        check!(ok.contains(&k), "a peer became known by a hostile answer");
    }
    Ok(asked > 0)
}

pub fn d09_run(c: &mut Ctx) {
    c.scenario(
        "requests",
        "a request is refused",
        900,
        || (1u64..1_000_000, prop::collection::vec(req(), 1..8)).prop_map(|(seed, reqs)| D09Case { seed: seed * 1000, reqs }),
        |v| run(d09_requests(v)),
    );
    c.scenario(
        "answers",
        "a hostile peer is asked",
        500,
        || {
            (1u64..1_000_000, prop::collection::vec(prop::collection::vec(ans(), 1..4), 1..4), prop::collection::vec(any::<u8>(), 1..4))
                .prop_map(|(seed, peers, calls)| D09Answers { seed: seed * 1000, peers, calls })
        },
        |v| run(d09_answers(v)),
    );
}
