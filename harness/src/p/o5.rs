//! O06, O07: overlay membership and peer exchange
use crate::dh::ONode;
use crate::fx::*;
use crate::ov::*;
use everscale_network::adnl::{Key as AKey, NewPeerContext, NodeIdShort, PeerFilter, PeersSet};
use everscale_network::overlay::{BroadcastTarget, IdShort, OverlayOptions};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::net::SocketAddrV4;
use std::sync::Arc;

/// A record of the n-th peer, possibly an invalid one
#[derive(Clone, Debug)]
struct NodeGen {
    who: u8,
    version: u32,
    bad: Option<Bad>,
}
#[derive(Clone, Debug)]
enum Bad {
    SigBit(u16),
    SigLen(u8),
    Version(u32),
    Overlay(u8),
    /// signed for this overlay, names another one, and the other way round
    Relabel(bool),
    Key(u8),
    Resign(u8),
    Kind(u8),
}
fn node_gen(n: u8, valid: u32) -> impl Strategy<Value = NodeGen> {
    let bad = prop_oneof![
        3 => any::<u16>().prop_map(Bad::SigBit),
        1 => any::<u8>().prop_map(Bad::SigLen),
        2 => any::<u32>().prop_map(Bad::Version),
        2 => any::<u8>().prop_map(Bad::Overlay),
        2 => any::<bool>().prop_map(Bad::Relabel),
        1 => any::<u8>().prop_map(Bad::Key),
        2 => any::<u8>().prop_map(Bad::Resign),
        1 => any::<u8>().prop_map(Bad::Kind),
    ];
    let bad = prop_oneof![valid => Just(None), 3 => bad.prop_map(Some)];
    (0..n, prop_oneof![3 => 0u32..4, 1 => any::<u32>()], bad).prop_map(|(who, version, bad)| NodeGen { who, version, bad })
}
/// `who` 0 is the node itself
fn key_of(seed: u64, who: u8) -> Key {
    Key::nth(seed + who as u64)
}
impl NodeGen {
    fn build(&self, seed: u64, ov: &B32) -> ONode {
        let k = key_of(seed, self.who);
        let mut n = ONode::new(&k, ov, self.version);
        match &self.bad {
            None => {}
            Some(Bad::SigBit(b)) => n.sig[*b as usize / 8 % 64] ^= 1 << (b % 8),
            Some(Bad::SigLen(l)) => n.sig.resize(*l as usize, 7),
            Some(Bad::Version(v)) => n.version = *v,
            Some(Bad::Overlay(x)) => n = ONode::new(&k, &ov_id(seed, 1 + *x as u64 % 3), self.version),
            Some(Bad::Relabel(here)) => {
                let o = ov_id(seed, 1);
                if *here {
                    n = ONode::new(&k, &o, self.version);
                    n.overlay = *ov;
                } else {
                    n.overlay = o;
                }
            }
            Some(Bad::Key(x)) => n.id = pubkey_tl(&key_of(seed, (self.who + 1 + x % 5) % 12).public),
            Some(Bad::Resign(x)) => {
                let m = n.to_sign().unwrap();
                n.sig = key_of(seed, (self.who + 1 + x % 5) % 12).sign(&m).to_vec();
            }
            Some(Bad::Kind(x)) => {
                n.id = match x % 3 {
                    0 => W::new().u32(id::pub_overlay()).bytes(&k.public).done(),
                    1 => W::new().u32(id::pub_unenc()).bytes(&k.public).done(),
                    _ => W::new().u32(id::pub_aes()).raw(&k.public).done(),
                }
            }
        }
        n
    }
}

// ------------------------------------------------------------------ O06

#[derive(Clone, Debug)]
enum Op6 {
    Add(NodeGen, u8),
    AddMany(Vec<(NodeGen, u8)>),
    Remove(u8),
    Broadcast(u8),
    /// somebody's broadcast, which is passed on
    Pass(u8),
    Cached(u32),
    Wait(u16),
    Other(NodeGen),
}
#[derive(Clone, Debug)]
struct C6 {
    seed: u64,
    /// given at creation
    initial: Option<Vec<u8>>,
    max: u32,
    refused: Vec<u8>,
    ops: Vec<Op6>,
}
const N6: u8 = 10;
fn c6() -> impl Strategy<Value = C6> {
    // an address: 0 is the peer's own, 1 the node's
    let addr = || prop_oneof![9 => Just(0u8), 1 => Just(1u8)];
    let op = prop_oneof![
        5 => (node_gen(N6, 7), addr()).prop_map(|(a, b)| Op6::Add(a, b)),
        3 => prop::collection::vec((node_gen(N6, 7), addr()), 0..8).prop_map(Op6::AddMany),
        4 => (0..N6 + 2).prop_map(Op6::Remove),
        3 => any::<u8>().prop_map(Op6::Broadcast),
        1 => any::<u8>().prop_map(Op6::Pass),
        2 => prop_oneof![4 => 0u32..14, 1 => Just(u32::MAX / 2)].prop_map(Op6::Cached),
        2 => (0u16..5000).prop_map(Op6::Wait),
        1 => node_gen(N6, 10).prop_map(Op6::Other),
    ];
    (
        1u64..1_000_000,
        prop::option::weighted(0.3, prop::collection::vec(1..N6, 0..6)),
        prop_oneof![2 => Just(200u32), 3 => 1u32..8],
        prop::collection::vec(1..N6, 0..3),
        prop::collection::vec(op, 1..20),
    )
        .prop_map(|(seed, initial, max, refused, ops)| C6 { seed: seed * 1000, initial, max, refused, ops })
}
struct Refuse(Vec<NodeIdShort>);
impl PeerFilter for Refuse {
    fn check(&self, ctx: NewPeerContext, _: SocketAddrV4, id: &NodeIdShort) -> bool {
        ctx != NewPeerContext::PublicOverlay || !self.0.contains(id)
    }
}
async fn membership(c: &C6) -> CaseResult {
    let o = OverlayOptions {
        max_neighbours: c.max,
        overlay_peers_timeout_ms: 1500,
        broadcast_gc_interval_ms: 500,
        broadcast_target_count: u32::MAX,
        secondary_broadcast_target_count: u32::MAX,
        ..oopts()
    };
    let idv = ov_id(c.seed, 0);
    let me = key_of(c.seed, 0);
    let refused: Vec<NodeIdShort> = c.refused.iter().map(|i| short(&key_of(c.seed, *i).id)).collect();
    let overlays = if c.initial.is_some() { vec![(ov_id(c.seed, 1), o)] } else { vec![(idv, o), (ov_id(c.seed, 1), o)] };
    let mut ov = Ov::with(&me, LOCAL, opts(), Some(Arc::new(Refuse(refused))), None, &overlays, default_reply)?;
    let mut peers: BTreeMap<u8, RefPeer> = Default::default();
    for i in 1..N6 {
        let mut p = RefPeer::new(key_of(c.seed, i), &ov.s);
        p.connect().await?;
        peers.insert(i, p);
    }
    let mut known: BTreeSet<u8> = Default::default();
    let mut ignored: BTreeSet<u8> = Default::default();
    let mut records: BTreeSet<u8> = Default::default();
    if let Some(v) = &c.initial {
        let list: Vec<NodeIdShort> = v.iter().map(|i| short(&key_of(c.seed, *i).id)).collect();
        let key = ov.s.node.key_by_tag(0).unwrap().clone();
        let (x, new) = ov.on.add_private_overlay(&IdShort::new(idv), key, &list, o);
        need!(new, "the overlay exists");
        ov.o.insert(0, x);
        known.extend(v);
    }
    let p = &ov.o[0];
    let who: BTreeMap<B32, u8> = (0..N6 + 2).map(|i| (key_of(c.seed, i).id, i)).collect();
    let addr_of = |peers: &BTreeMap<u8, RefPeer>, n: &NodeGen, a: u8| if a == 1 { ov.s.node.socket_addr() } else { peers.get(&n.who).map(|p| p.addr()).unwrap_or(SocketAddrV4::new(ip(3), 5000)) };
    let mut marker = RefPeer::new(Key::nth(c.seed + 90), &ov.s);
    marker.connect().await?;
    let (mut removed, mut sent) = (false, 0u64);
    for op in &c.ops {
        let mut adds: Vec<(ONode, SocketAddrV4, u8)> = vec![];
        match op {
            Op6::Add(n, a) => adds.push((n.build(c.seed, &idv), addr_of(&peers, n, *a), *a)),
            Op6::AddMany(v) => adds.extend(v.iter().map(|(n, a)| (n.build(c.seed, &idv), addr_of(&peers, n, *a), *a))),
            Op6::Remove(i) => {
                p.remove_public_peer(&short(&key_of(c.seed, *i).id));
                ignored.insert(*i);
                removed |= known.contains(i);
            }
            Op6::Broadcast(_) | Op6::Pass(_) => {
                sent += 1;
                let from = if let Op6::Pass(i) = op { Some(1 + i % (N6 - 1)) } else { None };
                for q in peers.values_mut() {
                    customs(q);
                }
                let d = payload(c.seed + sent, 20);
                let n = match from {
                    None => Some(p.broadcast(&ov.s.node, d, None, BroadcastTarget::RandomNeighbours).recipient_count),
                    Some(i) => {
                        let b = Bc::new(&Key::nth(c.seed + 91), 1, &d, clock::unix());
                        send_custom(peers.get_mut(&i).unwrap(), &wrap(&idv, &b.tl())).await?;
                        p.wait_for_broadcast().await;
                        None
                    }
                };
                settle().await;
                let mut to: BTreeSet<u8> = Default::default();
                for (i, q) in peers.iter_mut() {
                    if !customs(q).is_empty() {
                        to.insert(*i);
                    }
                }
                for i in &to {
                    check!(known.contains(i) && !ignored.contains(i), "a broadcast goes to peer {i} which is no active member");
                }
                let active = known.iter().filter(|i| !ignored.contains(i) && Some(**i) != from).count();
                check!(n.is_none() || n == Some(to.len()), "{n:?} recipients are reported instead of {}", to.len());
                let most = active.min(c.max as usize);
                let least = if from.is_some() { (active + 1).min(c.max as usize) - 1 } else { most };
                let least = least.min(most);
                check!((least..=most).contains(&to.len()), "a broadcast goes to {} peers, {active} are active, at most {} neighbours are allowed", to.len(), c.max);
            }
            Op6::Cached(amount) => {
                let dst = PeersSet::with_capacity(50);
                p.write_cached_peers(*amount, &dst);
                let v: Vec<u8> = dst.iter().map(|x| who.get(x.as_slice()).copied().unwrap_or(99)).collect();
                for i in &v {
                    check!(known.contains(i) && !ignored.contains(i), "peer {i} is offered which is no active member");
                }
                let active = known.iter().filter(|i| !ignored.contains(i)).count();
                check!(v.len() == active.min(*amount as usize), "{} of {active} active members are offered, {amount} requested", v.len());
            }
            Op6::Wait(ms) => advance(*ms as u64, 250).await,
            // in another overlay
            Op6::Other(n) => {
                let x = NodeGen { who: n.who, version: n.version, bad: None }.build(c.seed, &ov_id(c.seed, 1));
                if n.who > 0 {
                    let _ = ov.add(1, &x, peers[&n.who].addr());
                }
            }
        }
        if !adds.is_empty() {
            let owned: Vec<_> = adds.iter().map(|x| x.0.owned()).collect();
            let good: Vec<Option<u8>> = adds
                .iter()
                .map(|(n, _, a)| {
                    let i = n.short().and_then(|s| who.get(&s).copied())?;
                    (n.valid_for(&idv) && i != 0 && *a == 0 && !c.refused.contains(&i)).then_some(i)
                })
                .collect();
            let got: Option<Vec<u8>> = match op {
                Op6::Add(..) => p.add_public_peer(&ov.s.node, adds[0].1, owned[0].as_equivalent_ref()).ok().map(|x| x.into_iter().map(|x| who[x.as_slice()]).collect()),
                _ => p
                    .add_public_peers(&ov.s.node, adds.iter().zip(&owned).map(|(a, o)| (a.1, o.as_equivalent_ref())))
                    .ok()
                    .map(|v| v.iter().map(|x| who[x.as_slice()]).collect()),
            };
            match got {
                Some(got) => {
                    for i in &got {
                        check!(good.contains(&Some(*i)), "peer {i} is reported as added by {op:?}");
                    }
                    for i in good.iter().flatten() {
                        check!(known.contains(i) || got.contains(i), "peer {i} is not reported as added by {op:?}");
                    }
                }
                None => check!(good.iter().flatten().count() == 0, "adding fails: {op:?}"),
            }
            for i in good.into_iter().flatten() {
                known.insert(i);
                records.insert(i);
                ignored.remove(&i);
            }
        }
        for i in 0..N6 + 2 {
            let s = short(&key_of(c.seed, i).id);
            check!(p.is_known_peer(&s) == known.contains(&i), "peer {i} is known: {} after {op:?}", p.is_known_peer(&s));
            let act = known.contains(&i) && !ignored.contains(&i);
            check!(p.is_active_public_peer(&s) == act, "peer {i} is active: {} after {op:?}", !act);
        }
        let m = p.metrics();
        check!(m.known_peers == known.len(), "{} members are counted instead of {}", m.known_peers, known.len());
        check!(m.node_count == records.len(), "{} records are counted instead of {}", m.node_count, records.len());
        check!(m.neighbours <= c.max as usize, "{} neighbours, at most {} are allowed", m.neighbours, c.max);
        let active = known.iter().filter(|i| !ignored.contains(i)).count();
        check!(m.neighbours == active.min(c.max as usize), "{} neighbours, {active} are active, limit {}, after {op:?}", m.neighbours, c.max);
    }
    mark(&mut marker).await?;
    Ok(removed && sent > 0)
}
/// More members than neighbours are allowed: the neighbours change, slowly, and every member gets its turn
#[derive(Clone, Debug)]
struct Turns {
    seed: u64,
    max: u32,
    members: u8,
    removed: u8,
    gc_ms: u64,
    interval_ms: u64,
}
fn turns_gen() -> impl Strategy<Value = Turns> {
    (any::<u32>(), 1u32..=4, 1u8..7, 0u8..3, prop_oneof![3 => 200u64..1500, 1 => Just(1000u64)], 100u64..4000)
        .prop_map(|(seed, max, members, removed, gc_ms, interval_ms)| Turns { seed: seed as u64, max, members, removed, gc_ms, interval_ms })
}
async fn turns(c: &Turns) -> CaseResult {
    let idv = ov_id(c.seed, 1);
    let o = OverlayOptions { max_neighbours: c.max, broadcast_gc_interval_ms: c.gc_ms, overlay_peers_timeout_ms: c.interval_ms, ..oopts() };
    let a = Ov::new(&Key::nth(c.seed), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(c.seed + 100), &a.s);
    p.connect().await?;
    let n = c.members + c.removed;
    let mut active = BTreeSet::new();
    for i in 0..n {
        let k = Key::nth(c.seed + 1 + i as u64);
        need!(a.add(0, &ONode::new(&k, &idv, 1), SocketAddrV4::new(ip(40 + i as usize), 30000)).is_some(), "a member is refused");
        active.insert(k.id);
    }
    for i in 0..c.removed {
        // not always the latest ones
        let k = Key::nth(c.seed + 1 + ((i as u64 * 2 + c.seed) % n as u64));
        if active.remove(&k.id) {
            a.o[0].remove_public_peer(&short(&k.id));
        }
    }
    let want = active.len().min(c.max as usize);
    let q = wrap_query(&idv, &W::new().u32(id::get_random_peers()).raw(&ONode::list(&[])[4..]).done());
    let mut before: Option<BTreeSet<B32>> = None;
    let mut seen: BTreeSet<B32> = BTreeSet::new();
    let mut changes = 0;
    // one refresh takes at most an interval and a tick of the collection; each is in vain for a member with
    // probability 1 - 1 / members
    let total = 60 * active.len() as u64 * (c.interval_ms + c.gc_ms + 5);
    let t0 = clock::ms();
    while clock::ms() - t0 < total {
        let Some(ans) = p.query(false, &q).await else { viol!("a request for peers is not answered") };
        let Some(l) = ONode::read_boxed(&ans) else { viol!("the answer is no list of records") };
        let now: BTreeSet<B32> = l.iter().skip(1).filter_map(|x| x.short()).collect();
        check!(now.is_subset(&active), "a removed member is still a neighbour");
        check!(now.len() == want, "{} neighbours are offered, {} members are active and {} neighbours are allowed", now.len(), active.len(), c.max);
        if let Some(b) = &before {
            let new = now.difference(b).count();
            check!(new <= 1, "{new} of {want} neighbours changed within {} ms, the refresh interval", c.interval_ms);
            changes += new;
        }
        seen.extend(&now);
        before = Some(now);
        // so often that not more than one refresh is due in between
        advance(c.interval_ms, c.gc_ms.min(c.interval_ms)).await;
        if seen.len() == active.len() && changes > 5 || active.len() <= c.max as usize && changes == 0 && clock::ms() - t0 > 20 * (c.interval_ms + c.gc_ms) {
            break;
        }
    }
    check!(seen.len() == active.len(), "in {} refresh intervals only {} of {} active members became neighbours ({want} at a time)", total / (c.interval_ms + c.gc_ms + 5), seen.len(), active.len());
    check!(want == active.len() || changes > 1, "the neighbours do not change");
    Ok(want < active.len())
}

pub fn o06_run(c: &mut Ctx) {
    c.scenario("turns", "more active members than neighbours", 150, turns_gen, |v| run(turns(v)));
    c.scenario("members", "a member is removed and a broadcast is sent", 1500, c6, |v| run(membership(v)));
    c.scenario("threads", "more than two threads", 60, crate::p::t1::members_gen, |v| run_mt(crate::p::t1::members(v)));
    c.scenario("at_once", "more than three threads", 40, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::overlays_at_once(v)));
}

// ------------------------------------------------------------------ O07

#[derive(Clone, Debug)]
enum Op7 {
    Add(NodeGen),
    Remove(u8),
    /// asked by a peer: with these records; over which peer; how the query is spoiled
    Asked(u8, Vec<NodeGen>, Option<(u8, u16)>),
    Take,
    /// asks a peer, which returns these records
    Ask { whom: u8, back: Vec<NodeGen>, filter: u8, spoil: Option<(u8, u16)>, own: bool },
    Wait(u16),
}
#[derive(Clone, Debug)]
struct C7 {
    seed: u64,
    max: u32,
    ops: Vec<Op7>,
}
fn c7() -> impl Strategy<Value = C7> {
    let list = || prop::collection::vec(node_gen(N6, 6), 0..9);
    let spoil = || prop::option::weighted(0.15, (0u8..5, any::<u16>()));
    let op = prop_oneof![
        4 => node_gen(N6, 9).prop_map(Op7::Add),
        2 => (0..N6).prop_map(Op7::Remove),
        5 => (any::<u8>(), list(), spoil()).prop_map(|(a, b, c)| Op7::Asked(a, b, c)),
        2 => Just(Op7::Take),
        4 => (any::<u8>(), list(), 0u8..4, spoil(), any::<bool>()).prop_map(|(whom, back, filter, spoil, own)| Op7::Ask { whom, back, filter, spoil, own }),
        1 => (0u16..3000).prop_map(Op7::Wait),
    ];
    (1u64..1_000_000, prop_oneof![2 => Just(200u32), 2 => 1u32..7], prop::collection::vec(op, 2..16)).prop_map(|(seed, max, ops)| C7 { seed: seed * 1000, max, ops })
}
fn spoil_bytes(d: &mut Vec<u8>, from: usize, s: &Option<(u8, u16)>) {
    let Some((k, n)) = s else { return };
    let len = d.len() - from;
    match k {
        0 => d.truncate(from + *n as usize % len),
        1 => d.extend(vec![*n as u8; 1 + *n as usize % 9]),
        2 => d[from..from + 4].copy_from_slice(&(*n as u32 * 65537).to_le_bytes()),
        // the number of records
        3 => {
            let at = len.min(8) - 4 + from;
            d[at..at + 4].copy_from_slice(&(if n % 2 == 0 { u32::MAX - *n as u32 } else { *n as u32 + 100 }).to_le_bytes());
        }
        _ => d.truncate(from + 4),
    }
}
async fn exchange(c: &C7) -> CaseResult {
    let idv = ov_id(c.seed, 0);
    let o = OverlayOptions { max_neighbours: c.max, overlay_peers_timeout_ms: 1500, ..oopts() };
    let ov = Ov::new(&key_of(c.seed, 0), &[(idv, o), (ov_id(c.seed, 1), o)])?;
    let p = ov.o[0].clone();
    let mut peers: Vec<RefPeer> = vec![];
    for i in 1..N6 {
        let mut q = RefPeer::new(key_of(c.seed, i), &ov.s);
        q.connect().await?;
        peers.push(q);
    }
    let who: BTreeMap<B32, u8> = (0..N6 + 2).map(|i| (key_of(c.seed, i).id, i)).collect();
    let mut known: BTreeSet<u8> = Default::default();
    let mut active: BTreeSet<u8> = Default::default();
    // what may be offered: the highest version that was added
    let mut records: BTreeMap<u8, Vec<ONode>> = Default::default();
    let mut received: BTreeMap<u8, Vec<ONode>> = Default::default();
    let (mut asked, mut told) = (0, 0);
    let newest = |m: &mut BTreeMap<u8, Vec<ONode>>, i: u8, n: ONode| {
        let v = m.entry(i).or_default();
        match v.first().map(|x| x.version.cmp(&n.version)) {
            Some(std::cmp::Ordering::Greater) => {}
            Some(std::cmp::Ordering::Equal) => v.push(n),
            _ => *v = vec![n],
        }
    };
    // an offered list: the own record and up to four members
    let offered = |l: Vec<ONode>, active: &BTreeSet<u8>, records: &BTreeMap<u8, Vec<ONode>>| -> Result<(), Fail> {
        let mut seen = BTreeSet::new();
        for n in &l {
            check!(n.valid_for(&idv), "an invalid record is offered: {n:?}");
            let i = n.short().and_then(|s| who.get(&s).copied()).unwrap_or(99);
            check!(seen.insert(i), "two records of peer {i} are offered");
            if i == 0 {
                check!(n.version.abs_diff(clock::unix()) <= 1, "the own record is of {} at {}", n.version, clock::unix());
            } else {
                check!(active.contains(&i), "a record of peer {i} is offered which is no active member");
                check!(records[&i].contains(n), "another version of peer {i} is offered: {} instead of {}", n.version, records[&i][0].version);
            }
        }
        check!(seen.contains(&0), "the own record is not offered");
        check!(l.len() <= 5, "{} records are offered", l.len());
        let nb = active.len().min(c.max as usize);
        check!(l.len() == 1 + nb.min(4), "{} records are offered, there are {nb} neighbours", l.len());
        Ok(())
    };
    for op in &c.ops {
        match op {
            Op7::Wait(ms) => advance(*ms as u64, 500).await,
            Op7::Add(g) => {
                let n = g.build(c.seed, &idv);
                let i = n.short().and_then(|s| who.get(&s).copied());
                let addr = i.filter(|i| (1..N6).contains(i)).map(|i| peers[i as usize - 1].addr()).unwrap_or(SocketAddrV4::new(ip(4), 4000));
                let _ = ov.add(0, &n, addr);
                if let (Some(i), true) = (i, n.valid_for(&idv)) {
                    if i != 0 {
                        known.insert(i);
                        active.insert(i);
                        newest(&mut records, i, n);
                    }
                }
            }
            Op7::Remove(i) => {
                p.remove_public_peer(&short(&key_of(c.seed, *i).id));
                active.remove(i);
            }
            Op7::Asked(from, list, spoil) => {
                let l: Vec<ONode> = list.iter().map(|g| g.build(c.seed, &idv)).collect();
                let mut q = wrap_query(&idv, &W::new().u32(id::get_random_peers()).raw(&ONode::list(&l)[4..]).done());
                spoil_bytes(&mut q, 40, spoil);
                if q.len() % 4 != 0 {
                    q.truncate(q.len() / 4 * 4);
                }
                let from = *from as usize % peers.len();
                // what it means then
                let mut r = R(&q[40..]);
                let list = ONode::read_list(&mut r);
                let whole = r.empty();
                let a = if list.is_some() {
                    peers[from].query(false, &q).await
                } else {
                    // refused, or passed to nobody
                    let qid = sha256(&[&q[..], &peers[from].link.sent[0].to_le_bytes()[..]].concat());
                    peers[from].send_msg(false, Msg::Query { id: qid, data: q.clone() });
                    mark(&mut peers[from]).await?;
                    continue;
                };
                let Some(l) = list else { continue };
                if !whole && a.is_none() {
                    continue;
                }
                let Some(a) = a else { viol!("a request for peers is not answered: {op:?}") };
                let Some(ans) = ONode::read_boxed(&a) else { viol!("the answer is no list of records") };
                offered(ans, &active, &records)?;
                asked += 1;
                for n in l {
                    let i = n.short().and_then(|s| who.get(&s).copied());
                    if let (Some(i), true) = (i, n.valid_for(&idv)) {
                        if i != 0 {
                            newest(&mut received, i, n);
                        }
                    }
                }
            }
            Op7::Take => {
                let got = p.take_new_peers();
                check!(got.len() == received.len(), "{} records were received, {} are handed out", received.len(), got.len());
                for (k, n) in got {
                    let n = ONode { id: everscale_network::tl::serialize(&n.id), overlay: n.overlay, version: n.version, sig: n.signature.to_vec() };
                    let _ = k;
                    let i = n.short().and_then(|s| who.get(&s).copied()).unwrap_or(99);
                    let Some(v) = received.get(&i) else { viol!("a record of peer {i} is handed out which was not received") };
                    check!(v.contains(&n), "version {} of peer {i} is handed out instead of {}", n.version, v[0].version);
                }
                received.clear();
                check!(p.take_new_peers().is_empty(), "records are handed out twice");
            }
            Op7::Ask { whom, back, filter, spoil, own } => {
                let w = *whom as usize % peers.len();
                let l: Vec<ONode> = back.iter().map(|g| g.build(c.seed, &idv)).collect();
                let to = peers[w].id();
                let set: HashSet<NodeIdShort> = (1..N6).filter(|i| i % 2 == 0).map(|i| short(&key_of(c.seed, i).id)).collect();
                let slot = Arc::new(std::sync::Mutex::new(None));
                let (s2, p2, n2, f, set2, own2) = (slot.clone(), p.clone(), ov.s.node.clone(), *filter, set.clone(), *own);
                let task = tokio::spawn(async move {
                    let r = match (own2, f) {
                        (true, _) => p2.exchange_random_peers(&n2, &to, Some(700)).await,
                        (_, 0) => p2.exchange_random_peers_ext(&n2, &to, Some(700), &()).await,
                        (_, 1) => p2.exchange_random_peers_ext(&n2, &to, Some(700), &true).await,
                        (_, 2) => p2.exchange_random_peers_ext(&n2, &to, Some(700), &set2).await,
                        _ => p2.exchange_random_peers_ext(&n2, &to, Some(700), &set2.iter().copied().collect::<dashmap::DashSet<_>>()).await,
                    };
                    *s2.lock().unwrap() = Some(r.map_err(|e| e.to_string()));
                });
                let mut query = None;
                until(|| {
                    for m in peers[w].msgs() {
                        if let Msg::Query { id, data } = m {
                            query = Some((id, data));
                        }
                    }
                    query.is_some() || slot.lock().unwrap().is_some()
                })
                .await;
                if query.is_none() {
                    // a peer that is not known to the node
                    check!(matches!(&*slot.lock().unwrap(), Some(Err(_))), "no query arrives");
                    continue;
                }
                let (qid, q) = query.unwrap();
                check!(q.starts_with(&wrap_query(&idv, &W::new().u32(id::get_random_peers()).done())), "another query is sent");
                let mut r = R(&q[40..]);
                let Some(l0) = ONode::read_list(&mut r) else { viol!("the query holds no list of records") };
                check!(r.empty(), "the query has trailing bytes");
                offered(l0, &active, &records)?;
                let mut a = ONode::list(&l);
                spoil_bytes(&mut a, 0, spoil);
                a.truncate(a.len() / 4 * 4);
                let parsed = {
                    let mut r = R(&a);
                    r.id(id::overlay_nodes()).and_then(|_| ONode::read_list(&mut r)).map(|l| (l, r.empty()))
                };
                peers[w].send_msg(false, Msg::Answer { id: qid, data: a.clone() });
                until(|| slot.lock().unwrap().is_some()).await;
                let mut n = 0;
                while slot.lock().unwrap().is_none() && n < 10 {
                    advance(200, 50).await;
                    n += 1;
                }
                task.abort();
                let r = slot.lock().unwrap().take();
                let want = parsed.as_ref().map(|(l, _)| {
                    let mut v: BTreeSet<u8> = Default::default();
                    for n in l {
                        let i = n.short().and_then(|s| who.get(&s).copied());
                        if let (Some(i), true) = (i, n.valid_for(&idv)) {
                            let skip = match (own, filter) {
                                (true, _) => known.contains(&i),
                                (_, 0) => false,
                                (_, 1) => true,
                                _ => set.contains(&short(&key_of(c.seed, i).id)),
                            };
                            if i != 0 && !skip {
                                v.insert(i);
                            }
                        }
                    }
                    v
                });
                match (r, want) {
                    (Some(Ok(Some(got))), Some(want)) => {
                        let got: BTreeSet<u8> = got.iter().map(|x| who.get(x.as_slice()).copied().unwrap_or(99)).collect();
                        told += want.len();
                        check!(got == want, "told about peers {got:?} instead of {want:?} after {op:?}");
                    }
                    (Some(Ok(Some(got))), None) => check!(got.is_empty(), "peers out of a malformed answer"),
                    (Some(Ok(None)), want) => check!(want.is_none() || a.len() < 4, "an answer is missed: {op:?}"),
                    (Some(Err(e)), _) => check!(!matches!(parsed, Some((_, true))), "the exchange fails: {e} after {op:?}"),
                    (None, _) => viol!("the exchange does not end"),
                }
            }
        }
    }
    Ok(asked > 0 && told > 0)
}
pub fn o07_run(c: &mut Ctx) {
    c.scenario("at_once", "more than three threads", 30, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::overlays_at_once(v)));
    c.scenario("requests_at_once", "more than three threads", 60, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::requests_at_once(v)));
    c.scenario("exchange", "requests are answered and an exchange tells new peers", 1200, c7, |v| run(exchange(v)));
}
