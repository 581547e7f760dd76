//! D10: what a DHT node asks others
use crate::dh::*;
use crate::fx::*;
use everscale_network::{adnl, dht, overlay, proto, tl};
use futures_util::StreamExt;
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

/// which entry: owner, name, index
#[derive(Clone, Copy, Debug)]
struct En(u8, u8, u8);
#[derive(Clone, Debug)]
enum Op {
    Ping(u8),
    Nodes { peer: u8, k: u32, with_self: bool },
    More,
    From(u8, En),
    Values { e: En, full: bool },
    /// 0: default time, 1: ttl, 2: expiry time
    Store { e: En, data: u64, how: u8, t: u16 },
    Sign { e: En, data: u64, how: u8, t: u16 },
    /// a peer gets a value of its own
    Place { peer: u8, e: En, data: u64 },
    Address(u8),
    StoreAddress(u8, u16),
    Members(u8),
    StoreMember(u8, u8),
    Wait(u16),
}
#[derive(Clone, Debug)]
struct Case {
    seed: u64,
    ttl: u16,
    batch: u8,
    known: u8,
    /// which peers the answers of a peer name
    named: Vec<u8>,
    ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
    let en = || (0u8..2, 0u8..4, 0u8..4).prop_map(|(a, b, c)| En(a, b, c));
    let op = prop_oneof![
        1 => any::<u8>().prop_map(Op::Ping),
        4 => (any::<u8>(), 0u32..12, any::<bool>()).prop_map(|(peer, k, with_self)| Op::Nodes { peer, k, with_self }),
        2 => Just(Op::More),
        3 => (any::<u8>(), en()).prop_map(|(p, e)| Op::From(p, e)),
        3 => (en(), any::<bool>()).prop_map(|(e, full)| Op::Values { e, full }),
        3 => (en(), any::<u64>(), 0u8..3, any::<u16>()).prop_map(|(e, data, how, t)| Op::Store { e, data, how, t }),
        1 => (en(), any::<u64>(), 0u8..3, any::<u16>()).prop_map(|(e, data, how, t)| Op::Sign { e, data, how, t }),
        2 => (any::<u8>(), en(), any::<u64>()).prop_map(|(peer, e, data)| Op::Place { peer, e, data }),
        1 => (0u8..2).prop_map(Op::Address),
        1 => (0u8..2, 1u16..60000).prop_map(|(a, b)| Op::StoreAddress(a, b)),
        1 => (0u8..2).prop_map(Op::Members),
        1 => (0u8..2, 0u8..3).prop_map(|(a, b)| Op::StoreMember(a, b)),
        2 => (0u16..3000).prop_map(Op::Wait),
    ];
    (1u64..1_000_000, 1u16..5000, 1u8..7, 1u8..4, prop::collection::vec(any::<u8>(), 5), prop::collection::vec(op, 2..14))
        .prop_map(|(seed, ttl, batch, known, named, ops)| Case { seed: seed * 1000, ttl, batch, known, named, ops })
}

const NAMES: [&str; 4] = ["n", "name", "address", "nodes"];
const PEERS: usize = 5;

struct Shared {
    holds: Vec<BTreeMap<B32, Val>>,
    named: Vec<Vec<Rec>>,
    /// named besides: the node itself, a forged record
    extra: Vec<Vec<Rec>>,
}

async fn requests(c: &Case) -> CaseResult {
    let me = Key::nth(c.seed);
    let mut o = dopts();
    o.value_ttl_sec = c.ttl as u32;
    o.default_value_batch_len = c.batch as usize;
    let made = clock::unix();
    let d = Dht::new(&me, o)?;
    let sh = Arc::new(Mutex::new(Shared { holds: vec![BTreeMap::new(); PEERS], named: vec![], extra: vec![] }));
    let mut servers: Vec<Server> = (0..PEERS)
        .map(|i| {
            let sh = sh.clone();
            Server::new(Key::nth(c.seed + 300 + i as u64), &d, move |q| {
                let mut s = sh.lock().unwrap();
                let mut r = R(q);
                let t = r.u32().unwrap_or(0);
                vec![if t == id::dht_ping() {
                    W::new().u32(id::dht_pong()).raw(r.0).done()
                } else if t == id::find_node() {
                    nodes_answer(&[&s.named[i][..], &s.extra[i]].concat())
                } else if let Some((k, _)) = find_value_key(q) {
                    s.holds[i].get(&k).map(|v| v.found()).unwrap_or_else(|| not_found(&[&s.extra[i][..], &s.named[i]].concat()))
                } else if t == id::dht_store() {
                    let Some(v) = Val::read(&mut r) else { return vec![] };
                    s.holds[i].insert(v.key.hash(), v);
                    stored()
                } else {
                    return vec![];
                }]
            })
        })
        .collect();
    let recs: Vec<Rec> = servers.iter().map(|s| s.rec(1)).collect();
    sh.lock().unwrap().named = c.named.iter().map(|m| (0..PEERS).filter(|i| m >> i & 1 == 1).map(|i| recs[i].clone()).collect()).collect();
    let named = sh.lock().unwrap().named.clone();
    let extra: Vec<Vec<Rec>> = c
        .named
        .iter()
        .map(|m| {
            let mut v = vec![];
            if m >> 5 & 1 == 1 {
                v.push(Rec::new(&me, d.s.addr, 5));
            }
            if m >> 6 == 3 {
                let mut r = Rec::new(&Key::nth(c.seed + 900), d.s.addr, 5);
                r.sig[7] ^= 1;
                v.push(r);
            }
            v
        })
        .collect();
    sh.lock().unwrap().extra = extra.clone();
    let index: BTreeMap<B32, usize> = (0..PEERS).map(|i| (servers[i].p.key().id, i)).collect();
    let mut known: BTreeSet<usize> = (0..c.known as usize).collect();
    for i in &known {
        need!(matches!(d.d.add_dht_peer(recs[*i].owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    let owner = |n: u8| Key::nth(c.seed + 50 + n as u64);
    let ov_full = |n: u8| overlay::IdFull::for_workchain_overlay(n as i32, &[n + 1; 32]);
    let learn = |known: &mut BTreeSet<usize>, p: usize| known.extend(named[p].iter().map(|r| index[&r.short().unwrap()]));
    let mut nt = 0;
    for op in &c.ops {
        servers.iter_mut().for_each(|s| {
            s.got.clear();
            s.intros.clear();
        });
        let dd = d.d.clone();
        let asked: Vec<usize> = known.iter().copied().collect();
        let pick = |p: u8| asked[p as usize % asked.len()];
        let key_of = |e: &En| DKey { id: owner(e.0).id, name: NAMES[e.1 as usize].as_bytes().to_vec(), idx: e.2 as u32 };
        macro_rules! run {
            ($f:expr) => {
                match drive(&mut servers, 60_000, $f).await? {
                    Some(x) => x,
                    None => viol!("{op:?} does not end"),
                }
            };
        }
        // what each peer has to be asked
        let got = |servers: &[Server]| -> Vec<Vec<Vec<u8>>> { servers.iter().map(|s| s.got.clone()).collect() };
        let only = |servers: &[Server], who: &[usize], what: &dyn Fn(&[u8]) -> bool| -> Result<(), Fail> {
            for (i, g) in got(servers).iter().enumerate() {
                let want = who.contains(&i) as usize;
                check!(g.len() == want, "peer {i} is asked {} times instead of {want} by {op:?}", g.len());
                for q in g {
                    check!(what(q), "peer {i} is asked {} by {op:?}", hex::encode(q));
                }
            }
            Ok(())
        };
        let mut intro_at = None;
        match op {
            Op::Wait(s) => {
                advance(*s as u64 * 1000, 1000 + *s as u64 * 100).await;
            }
            Op::Ping(p) => {
                let p = pick(*p);
                let pid = servers[p].p.id();
                let r = run!(async move { dd.ping(&pid).await });
                check!(matches!(r, Ok(true)), "a ping of an answering peer gives {r:?}");
                only(&servers, &[p], &|q| q.len() == 12 && R(q).u32() == Some(id::dht_ping()))?;
            }
            Op::Nodes { peer, k, with_self } => {
                let p = pick(*peer);
                let (pid, k, w) = (servers[p].p.id(), *k, *with_self);
                let r = run!(async move { dd.query_dht_nodes(&pid, k, w).await });
                only(&servers, &[p], &|q| q == find_node_query(&me.id, k))?;
                let Ok(r) = r else { viol!("a node search fails: {}", r.unwrap_err()) };
                let r: Vec<Vec<u8>> = r.iter().map(tl::serialize).collect();
                check!(r == named[p].iter().chain(&extra[p]).map(|x| x.tl()).collect::<Vec<_>>(), "a node search gives something else than the answer: {} and {} nodes", r.len(), named[p].len());
                intro_at = w.then_some(p);
                nt += 1;
            }
            Op::More => {
                let r = run!(async move { dd.find_more_dht_nodes().await });
                only(&servers, &asked, &|q| R(q).u32() == Some(id::find_node()) && q[4..36] == me.id && q != find_node_query(&me.id, 0))?;
                check!(r.is_ok(), "a search for more nodes fails");
                let before = known.len();
                let n: usize = asked.iter().map(|p| named[*p].len()).sum();
                asked.iter().for_each(|p| learn(&mut known, *p));
                let r = r.unwrap();
                check!(r >= known.len() - before && r <= n, "{r} nodes are reported, {n} were named and {} are new", known.len() - before);
            }
            Op::From(p, e) => {
                let p = pick(*p);
                let pid = servers[p].p.id();
                let key = key_of(e);
                let want = sh.lock().unwrap().holds[p].get(&key.hash()).cloned();
                let e = *e;
                let r = run!(async move { dd.entry(&key.id, NAMES[e.1 as usize]).with_key_index(e.2 as u32).value_from::<proto::dht::Pong>(&pid).await });
                let key = key_of(&e);
                only(&servers, &[p], &|q| find_value_key(q).is_some_and(|x| x.0 == key.hash() && x.1 > 0))?;
                if want.is_none() {
                    learn(&mut known, p);
                }
                // addresses and lists are values of another type
                let as_pong = want.as_ref().and_then(|v| (v.value.len() == 12).then(|| u64::from_le_bytes(v.value[4..].try_into().unwrap())));
                match (&r, &want) {
                    (Ok(None), None) => {}
                    (Ok(Some((k, v))), Some(w)) => {
                        check!(Some(v.random_id) == as_pong, "another value is found");
                        check!(
                            k.key.id[..] == w.key.id && k.key.name[..] == w.key.name && k.key.idx == w.key.idx,
                            "another key is found"
                        );
                        nt += 1;
                    }
                    (Err(_), Some(_)) if as_pong.is_none() => {}
                    _ => viol!("a search at one peer gives {:?}, it holds {want:?}", r.map(|x| x.map(|x| x.1.random_id))),
                }
            }
            Op::Values { e, full } => {
                let key = key_of(e);
                let h = key.hash();
                let mut want: Vec<u64> = vec![];
                {
                    let s = sh.lock().unwrap();
                    for p in &asked {
                        if let Some(v) = s.holds[*p].get(&h) {
                            if v.value.len() == 12 {
                                want.push(u64::from_le_bytes(v.value[4..].try_into().unwrap()));
                            }
                        }
                    }
                }
                let lacks: Vec<usize> = asked.iter().copied().filter(|p| !sh.lock().unwrap().holds[*p].contains_key(&h)).collect();
                let (e, f) = (*e, *full);
                let mut r: Vec<u64> = run!(async move {
                    let s = dd.entry(&key.id, NAMES[e.1 as usize]).with_key_index(e.2 as u32).values::<proto::dht::Pong>();
                    let s = if f { s.use_full_batch() } else { s };
                    s.map(|x| x.1.random_id).collect().await
                });
                let g = got(&servers);
                for (i, g) in g.iter().enumerate() {
                    check!(g.len() <= 1 && (g.is_empty() || known.contains(&i)), "peer {i} is asked {} times", g.len());
                    check!(g.iter().all(|q| find_value_key(q).is_some_and(|x| x.0 == h && x.1 > 0)), "another key is searched");
                }
                let n = g.iter().filter(|g| !g.is_empty()).count();
                let least = if f { asked.len() } else { asked.len().min(c.batch as usize) };
                check!(n >= least, "{n} peers are asked instead of {least} at least");
                for p in &lacks {
                    if !g[*p].is_empty() {
                        learn(&mut known, *p);
                    }
                }
                if n == asked.len() {
                    r.sort();
                    want.sort();
                    check!(r == want, "a search gives {r:?}, the peers hold {want:?}");
                    nt += !want.is_empty() as usize;
                }
            }
            Op::Store { e, data, how, t } | Op::Sign { e, data, how, t } => {
                let k = owner(e.0);
                let ttl = match how {
                    0 => clock::unix() + c.ttl as u32,
                    1 => clock::unix() + *t as u32,
                    _ => clock::unix() + 1 + *t as u32 * 7,
                };
                let value = W::new().u32(id::dht_pong()).u64(*data).done();
                let want = Val::signed(&k, NAMES[e.1 as usize].as_bytes(), e.2 as u32, &value, ttl);
                let sk = adnl::Key::from_bytes(k.seed);
                let (e, how, t, data) = (*e, *how, *t, *data);
                let go = move |dd: &Arc<dht::Node>, store: bool| {
                    let x = dd.entry(sk.id(), NAMES[e.1 as usize]).with_key_index(e.2 as u32);
                    let x = if data % 2 == 0 { x.with_data(proto::dht::Pong { random_id: data }) } else { x.with_data_raw(&value) };
                    let x = match how {
                        0 => x,
                        1 => x.with_ttl(t as u32),
                        _ => x.expire_at(ttl),
                    };
                    if store {
                        Err(x.sign_and_store(&sk))
                    } else {
                        Ok(x.sign(&sk))
                    }
                };
                if matches!(op, Op::Sign { .. }) {
                    let Ok(v) = go(&dd, false) else { unreachable!() };
                    check!(tl::serialize(v.as_equivalent_ref()) == want.tl(), "another value is signed than {want:?}");
                    only(&servers, &[], &|_| true)?;
                } else {
                    // a later value stays: then nothing is sent
                    let Err(f) = go(&dd, true) else { unreachable!() };
                    match f {
                        Ok(f) => {
                            run!(async move { f.await });
                            only(&servers, &asked, &|q| q == want.store_query())?;
                            nt += 1;
                        }
                        Err(_) => check!(ttl <= clock::unix(), "a correct value is refused: {want:?}"),
                    }
                }
            }
            Op::Place { peer, e, data } => {
                let v = Val::signed(&owner(e.0), NAMES[e.1 as usize].as_bytes(), e.2 as u32, &W::new().u32(id::dht_pong()).u64(*data).done(), clock::unix() + 1_000_000);
                sh.lock().unwrap().holds[*peer as usize % PEERS].insert(v.key.hash(), v);
            }
            Op::Address(n) | Op::StoreAddress(n, _) => {
                let k = owner(*n);
                let key = DKey { id: k.id, name: b"address".to_vec(), idx: 0 };
                let now = clock::unix();
                if let Op::StoreAddress(_, port) = op {
                    let a = SocketAddrV4::new(ip(*n as usize + 1), *port);
                    let sk = adnl::Key::from_bytes(k.seed);
                    run!(async move { drop(dd.store_address(&sk, a).await) });
                    let mut stores = 0;
                    for (i, g) in got(&servers).iter().enumerate() {
                        for q in g {
                            let mut r = R(q);
                            if r.id(id::dht_store()).is_some() {
                                stores += 1;
                                let v = Val::read(&mut r);
                                let Some(v) = v else { viol!("an unreadable value is stored") };
                                check!(v.authentic_signed() && v.key == key, "an address is stored as {v:?}");
                                check!(v.ttl == now + c.ttl as u32, "an address is stored for {} s instead of {}", v.ttl as i64 - now as i64, c.ttl);
                                let al = AddrList::one(a, now, d.s.node.start_time(), 0);
                                check!(v.value == al.write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done(), "the address {a} is stored as {}", hex::encode(&v.value));
                            } else {
                                check!(find_value_key(q).is_some_and(|x| x.0 == key.hash()), "peer {i} is asked {} by {op:?}", hex::encode(q));
                            }
                        }
                    }
                    check!(stores == asked.len(), "an address is stored at {stores} of {} peers", asked.len());
                    nt += 1;
                } else {
                    let pid = short(&k.id);
                    run!(async move { drop(dd.find_address(&pid).await) });
                    check!(got(&servers).iter().flatten().all(|q| find_value_key(q).is_some_and(|x| x.0 == key.hash())), "an address search asks for something else");
                }
                known = d.known().iter().filter_map(|k| index.get(k).copied()).collect();
            }
            Op::Members(n) | Op::StoreMember(n, _) => {
                let full = ov_full(*n);
                let ov = full.compute_short_id();
                let key = DKey { id: *ov.as_slice(), name: b"nodes".to_vec(), idx: 0 };
                let now = clock::unix();
                if let Op::StoreMember(_, m) = op {
                    let node = ONode::new(&Key::nth(c.seed + 70 + *m as u64), ov.as_slice(), now);
                    let (own, f2) = (node.owned(), full);
                    run!(async move { drop(dd.store_overlay_node(&f2, own.as_equivalent_ref()).await) });
                    let mut stores = 0;
                    let want = Val::overlay(full.as_slice(), &ONode::list(std::slice::from_ref(&node)), now + c.ttl as u32);
                    for q in got(&servers).iter().flatten() {
                        if R(q).u32() == Some(id::dht_store()) {
                            stores += 1;
                            check!(*q == want.store_query(), "an overlay member is stored as {}", hex::encode(q));
                        } else {
                            check!(find_value_key(q).is_some_and(|x| x.0 == key.hash()), "storing a member asks for something else");
                        }
                    }
                    check!(stores == asked.len(), "an overlay member is stored at {stores} of {} peers", asked.len());
                    nt += 1;
                } else {
                    let addr: BTreeSet<B32> = (0..3).map(|m| DKey { id: Key::nth(c.seed + 70 + m).id, name: b"address".to_vec(), idx: 0 }.hash()).collect();
                    run!(async move { drop(dd.find_overlay_nodes(&ov).await) });
                    check!(got(&servers).iter().flatten().all(|q| find_value_key(q).is_some_and(|x| x.0 == key.hash() || addr.contains(&x.0))), "a search for members asks for something else");
                }
                known = d.known().iter().filter_map(|k| index.get(k).copied()).collect();
            }
        }
        for (i, s) in servers.iter().enumerate() {
            check!(s.intros.len() == (intro_at == Some(i)) as usize, "the node introduces itself {} times to peer {i} by {op:?}", s.intros.len());
            for r in &s.intros {
                check!(r.short() == Some(me.id) && r.signed(), "the node introduces itself with {r:?}");
                let al = AddrList::one(d.s.node.socket_addr(), made, d.s.node.start_time(), 0);
                let mut r = r.addrs.clone();
                check!(r.version >= made && r.version <= clock::unix(), "the record of the node has the version {}", r.version);
                r.version = made;
                check!(r == al, "the node introduces itself with {r:?} instead of {al:?}");
            }
        }
        let want: BTreeSet<B32> = known.iter().map(|i| servers[*i].p.key().id).collect();
        let got: BTreeSet<B32> = d.known().into_iter().collect();
        check!(got == want, "{} peers are known instead of {} after {op:?}", got.len(), want.len());
    }
    Ok(nt > 0)
}

// ------------------------------------------------------------------ whether a store succeeded

#[derive(Clone, Copy, Debug, PartialEq)]
enum Peer {
    /// keeps what it is given
    Takes,
    /// says so and forgets it
    Forgets,
    Silent,
    /// says so, and has another value
    Has(u8),
}
#[derive(Clone, Debug)]
struct StoreCase {
    seed: u64,
    peers: Vec<Peer>,
    address: bool,
    /// query timeout of the node
    timeout: u16,
    /// the member's signature does not verify
    forged: bool,
    /// overlay or owner
    n: u8,
}
fn store_case() -> impl Strategy<Value = StoreCase> {
    let peer = prop_oneof![2 => Just(Peer::Takes), 2 => Just(Peer::Forgets), 1 => Just(Peer::Silent), 5 => (0u8..10).prop_map(Peer::Has)];
    (1u64..1_000_000, prop::collection::vec(peer, 1..6), any::<bool>(), 300u16..4000, prop::bool::weighted(0.1), any::<u8>())
        .prop_map(|(seed, peers, address, timeout, forged, n)| StoreCase { seed: seed * 1000, peers, address, timeout, forged, n })
}

fn list_value(l: &AddrList) -> Vec<u8> {
    l.write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done()
}

async fn stores(c: &StoreCase) -> CaseResult {
    let me = Key::nth(c.seed);
    let mut o = dopts();
    o.default_value_batch_len = 6;
    o.query_timeout_ms = c.timeout as u64;
    let d = Dht::with(&me, LOCAL, adnl::NodeOptions { query_min_timeout_ms: 100, query_default_timeout_ms: 20_000, ..opts() }, o, None)?;
    let now = clock::unix();
    let owner = Key::nth(c.seed + 50);
    let addr = SocketAddrV4::new(ip(c.n as usize + 1), 1000 + c.n as u16);
    let full = overlay::IdFull::for_workchain_overlay(c.n as i32, &[c.n; 32]);
    let ov = full.compute_short_id();
    let mut node = ONode::new(&owner, ov.as_slice(), now);
    if c.forged {
        node.sig[c.n as usize % 64] ^= 1;
    }
    // a value that a peer has instead, and whether it contains what is stored
    let has = |h: u8| -> (Val, bool) {
        if c.address {
            let l = |a: SocketAddrV4, v: u32, r: u32, e: u32| AddrList::one(a, v, r, e);
            let other = SocketAddrV4::new(*addr.ip(), addr.port() + 1);
            let (v, same) = match h {
                0 => (list_value(&l(other, now, now, 0)), false),
                1 => (list_value(&l(addr, now - 50, now - 100, 0)), true),
                2 => (list_value(&l(addr, now, now, now + 300)), true),
                // over, or from the future
                3 => (list_value(&l(addr, now - 50, now - 100, now - 10)), false),
                4 => (list_value(&l(other, now, now + 5000, 0)), false),
                5 => (list_value(&AddrList { addrs: vec![], ..l(addr, now, now, 0) }), false),
                6 => (W::new().u32(id::dht_pong()).u64(7).done(), false),
                7 => (vec![], false),
                8 => (list_value(&l(SocketAddrV4::new(ip(77), addr.port()), now, now, 0)), false),
                _ => (list_value(&l(other, now + 10, now, 0)), false),
            };
            (Val::signed(&owner, b"address", 0, &v, now + 500), same)
        } else {
            let other = |k: u64, v: u32| ONode::new(&Key::nth(c.seed + 60 + k), ov.as_slice(), v);
            let own = |v: u32| ONode::new(&owner, ov.as_slice(), v);
            let (l, same) = match h {
                0 => (vec![own(now - 1)], false),
                1 => (vec![own(now + 1)], false),
                2 => (vec![other(0, now)], false),
                3 => (vec![other(0, now), own(now)], true),
                4 => (vec![own(now), other(1, now + 3)], true),
                5 => (vec![other(0, now), other(1, now), own(now - 100)], false),
                6 => (vec![other(2, now), other(1, now)], false),
                7 => (vec![own(1)], false),
                8 => (vec![own(now)], true),
                _ => (vec![other(3, now - 9), own(now + 50)], false),
            };
            (Val::overlay(full.as_slice(), &ONode::list(&l), now + 500), same)
        }
    };
    let key = if c.address { DKey { id: owner.id, name: b"address".to_vec(), idx: 0 } } else { DKey { id: *ov.as_slice(), name: b"nodes".to_vec(), idx: 0 } }.hash();
    let stored_at = Arc::new(Mutex::new(vec![0u32; c.peers.len()]));
    let mut servers: Vec<Server> = c
        .peers
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let mut have = if let Peer::Has(h) = p { Some(has(*h).0) } else { None };
            let (p, stored_at) = (*p, stored_at.clone());
            Server::new(Key::nth(c.seed + 300 + i as u64), &d, move |q| {
                let mut r = R(q);
                let t = r.u32().unwrap_or(0);
                if t == id::dht_store() {
                    stored_at.lock().unwrap()[i] += 1;
                }
                if p == Peer::Silent {
                    return vec![];
                }
                vec![if t == id::dht_store() {
                    if p == Peer::Takes {
                        have = Val::read(&mut r);
                    }
                    stored()
                } else if find_value_key(q).is_some_and(|x| x.0 == key) {
                    have.as_ref().map(|v| v.found()).unwrap_or_else(|| not_found(&[]))
                } else {
                    return vec![];
                }]
            })
        })
        .collect();
    for s in &servers {
        need!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a DHT peer is refused");
    }
    let t0 = clock::ms();
    let dd = d.d.clone();
    let r = if c.address {
        let sk = adnl::Key::from_bytes(owner.seed);
        drive(&mut servers, 60_000, async move { dd.store_address(&sk, addr).await }).await?
    } else {
        let (own, f2) = (node.owned(), full);
        drive(&mut servers, 60_000, async move { dd.store_overlay_node(&f2, own.as_equivalent_ref()).await }).await?
    };
    let Some(r) = r else { viol!("storing does not end") };
    let stored_at = stored_at.lock().unwrap().clone();
    if c.forged && !c.address {
        check!(r.is_err() && stored_at.iter().all(|n| *n == 0), "a member whose signature does not verify is stored ({stored_at:?}): {r:?}");
        return Ok(true);
    }
    check!(stored_at.iter().all(|n| *n == 1), "the peers were asked to store {stored_at:?} times");
    let want = c.peers.iter().any(|p| match p {
        Peer::Takes => true,
        Peer::Has(h) => has(*h).1,
        _ => false,
    });
    match r {
        Ok(r) => check!(r == want, "storing gives {r}, but {} of the asked peers has it afterwards: {:?}", if want { "one" } else { "none" }, c.peers),
        Err(e) => viol!("storing a valid value fails ({e}) because of what another peer has"),
    }
    // one round of stores, one of searches
    let took = clock::ms() - t0;
    let limit = if c.peers.contains(&Peer::Silent) { 2 * c.timeout as u64 + 500 } else { 500 };
    check!(took <= limit, "storing took {took} ms with a query timeout of {} ms", c.timeout);
    Ok(c.peers.iter().any(|p| matches!(p, Peer::Has(_))))
}

pub fn d10_run(c: &mut Ctx) {
    c.scenario("requests", "a request of the node with a checked content or result was made", 700, case, |v| run(requests(v)));
    c.scenario("stores", "an asked peer had a value of its own, or the member was forged", 1000, store_case, |v| run(stores(v)));
}
