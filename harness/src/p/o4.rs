//! O04, O11: sending broadcasts
use crate::dh::ONode;
use crate::fx::*;
use crate::ov::*;
use crate::rl::*;
use everscale_network::adnl::Key as AKey;
use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
use proptest::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Send4 {
    len: u32,
    /// noise, zeroes or noise in compressed form
    kind: u8,
    key: bool,
    /// explicit targets, by bits
    explicit: Option<u16>,
    /// which parts are lost
    loss: u64,
}
#[derive(Clone, Debug)]
struct C4 {
    seed: u64,
    members: u8,
    extra: u8,
    /// members which ADNL has forgotten, by bits
    gone: u16,
    compress: bool,
    targets: u32,
    max_len: u32,
    wave: u8,
    interval: u8,
    sends: Vec<Send4>,
}
fn c4() -> impl Strategy<Value = C4> {
    let len = prop_oneof![1 => Just(0u32), 3 => 0u32..900, 3 => 700u32..9000, 2 => (1u32..20, -1i32..2).prop_map(|(a, b)| (a * 768).saturating_add_signed(b)), 1 => 20_000u32..120_000];
    let send = (len, prop_oneof![4 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)], any::<bool>(), prop::option::of(any::<u16>()), any::<u64>())
        .prop_map(|(len, kind, key, explicit, loss)| Send4 { len, kind, key, explicit, loss });
    (
        1u64..1_000_000,
        0u8..8,
        (0u8..3, prop_oneof![3 => Just(0u16), 1 => (0u8..8).prop_map(|x| 1 << x), 1 => any::<u16>()]),
        any::<bool>(),
        prop_oneof![2 => Just(5u32), 3 => 0u32..9, 1 => Just(u32::MAX)],
        prop_oneof![3 => Just(768u32), 2 => 0u32..4000, 1 => Just(0u32)],
        prop_oneof![2 => Just(20u8), 2 => 1u8..60],
        prop_oneof![2 => Just(10u8), 2 => 0u8..60],
        prop::collection::vec(send, 1..4),
    )
        .prop_map(|(seed, members, (extra, gone), compress, targets, max_len, wave, interval, sends)| C4 { seed: seed * 1000, members, extra, gone, compress, targets, max_len, wave, interval, sends })
}

async fn targets(c: &C4) -> CaseResult {
    let o = OverlayOptions {
        broadcast_target_count: c.targets,
        max_ordinary_broadcast_len: c.max_len as usize,
        fec_broadcast_wave_len: c.wave as usize,
        fec_broadcast_wave_interval_ms: c.interval as u64,
        force_compression: c.compress,
        ..oopts()
    };
    let id = ov_id(c.seed, 0);
    let ov = Ov::new(&Key::nth(c.seed), &[(id, o), (ov_id(c.seed, 1), o)])?;
    let keys: Vec<Key> = (0..c.members as u64).map(|i| Key::nth(c.seed + 10 + i)).collect();
    let mut peers = ov.members(0, &keys).await?;
    // known to ADNL, members of another overlay
    for i in 0..c.extra as u64 {
        let mut p = RefPeer::new(Key::nth(c.seed + 30 + i), &ov.s);
        p.connect().await?;
        need!(ov.add(1, &ONode::new(p.key(), &ov_id(c.seed, 1), 1), p.addr()).is_some(), "a member is refused");
        peers.push(p);
    }
    let gone: BTreeSet<usize> = (0..c.members as usize).filter(|i| c.gone >> i & 1 == 1).collect();
    for i in &gone {
        need!(matches!(ov.s.node.remove_peer(&ov.s.id(), &peers[*i].id()), Ok(true)), "a peer is not removed");
    }
    let other = Arc::new(AKey::from_bytes(Key::nth(c.seed + 40).seed));
    let mut earlier: BTreeSet<Vec<u8>> = Default::default();
    let (mut some, mut large) = (false, false);
    for (n, s) in c.sends.iter().enumerate() {
        let data = payload(c.seed + n as u64, s.len as usize);
        let data = match s.kind {
            0 => data,
            1 => vec![n as u8; s.len as usize],
            _ => compress(&data),
        };
        if !earlier.insert(data.clone()) {
            continue;
        }
        let key = if s.key { &other } else { ov.o[0].overlay_key() };
        let explicit: Option<Vec<usize>> = s.explicit.map(|m| (0..peers.len()).filter(|i| m >> i & 1 == 1).collect());
        let target = match &explicit {
            Some(v) => BroadcastTarget::Explicit(Arc::new(v.iter().map(|i| peers[*i].id()).collect())),
            None => BroadcastTarget::RandomNeighbours,
        };
        let date = clock::unix();
        let info = ov.o[0].broadcast(&ov.s.node, data.clone(), Some(key), target);
        let mut got: Vec<Vec<Vec<u8>>> = vec![vec![]; peers.len()];
        let parts = data.len() / 768 * 3 / 2 + 10;
        let mut quiet = 0;
        for _ in 0..parts / c.wave as usize + 6 {
            for _ in 0..2 {
                settle().await;
            }
            let mut any = false;
            for (i, p) in peers.iter_mut().enumerate() {
                let m = customs(p);
                any |= !m.is_empty();
                got[i].extend(m);
            }
            quiet = if any { 0 } else { quiet + 1 };
            if quiet > 3 {
                break;
            }
            clock::advance_ms(c.interval as u64 + 1);
        }
        let to: BTreeSet<usize> = (0..peers.len()).filter(|i| !got[*i].is_empty()).collect();
        match &explicit {
            Some(v) => check!(to.iter().eq(v.iter().filter(|i| !gone.contains(i))), "a broadcast of {} bytes to {v:?} goes to {to:?}, ADNL does not know {gone:?}", data.len()),
            None => {
                check!(to.iter().all(|i| *i < c.members as usize), "a broadcast goes to a peer that is no member");
                let want = (c.targets as usize).min(c.members as usize);
                check!(to.is_disjoint(&gone), "a broadcast goes to a peer which was removed");
                // those which ADNL does not know may have been chosen
                let least = want.saturating_sub(gone.len());
                let most = want.min(c.members as usize - gone.len());
                check!((least..=most).contains(&to.len()), "a broadcast of {} bytes goes to {} peers instead of {least}..={most}", data.len(), to.len());
            }
        }
        if gone.is_empty() {
            check!(info.recipient_count == to.len(), "{} recipients are reported instead of {}", info.recipient_count, to.len());
        }
        check!(ov.drain(0).await.is_empty() && ov.drain(1).await.is_empty(), "an own broadcast is delivered");
        some |= to.len() > 1;
        let author = *key.id().as_slice();
        let mut first: Option<BTreeSet<&Vec<u8>>> = None;
        for i in &to {
            let g = &got[*i];
            if data.len() <= c.max_len as usize {
                check!(g.len() == 1, "{} packets are sent for an ordinary broadcast", g.len());
                let Some((b, true)) = unwrap(&g[0]).and_then(|(o, b)| Some((Bc::read(&b)?, o == id))) else {
                    viol!("an ordinary broadcast of {} bytes is sent as something else", data.len())
                };
                check!(b.authentic().map(|x| (x.0, x.1)) == Some((data.clone(), author)), "an ordinary broadcast of {} bytes is sent altered", data.len());
                check!(b.date.wrapping_sub(date) < 2, "date {} at {date}", b.date);
                continue;
            }
            large = true;
            let mut parts = vec![];
            for m in g {
                let Some((f, true)) = unwrap(m).and_then(|(o, b)| Some((Fec::read(&b)?, o == id))) else {
                    viol!("a large broadcast of {} bytes is sent as something else", data.len())
                };
                check!(f.signed() && f.public().map(|p| key_id(&p)) == Some(author), "a part is not signed by the sender");
                check!(f.hash == sha256(&data), "a part names another hash");
                check!(f.size == f.fec[0] && f.data.len() == f.fec[1] as usize, "a part contradicts itself");
                check!(f.date.wrapping_sub(date) < 200 && f.date <= clock::unix(), "date {} at {date}", f.date);
                parts.push(f);
            }
            let fec = parts[0].fec;
            let seqnos: BTreeSet<u32> = parts.iter().map(|f| f.seqno).collect();
            check!(parts.iter().all(|f| f.fec == fec), "parts have different parameters");
            check!(seqnos.len() == parts.len(), "a part is sent twice");
            let set: BTreeSet<&Vec<u8>> = g.iter().collect();
            check!(first.get_or_insert_with(|| set.clone()) == &set, "recipients get different parts");
            // some are lost and the others arrive in another order
            let k = fec[0].div_ceil(fec[1]) as usize;
            let mut order: Vec<usize> = (0..parts.len()).collect();
            order.sort_by_key(|x| sha256(&(s.loss.wrapping_add(*i as u64) ^ (*x as u64) << 32).to_le_bytes()));
            order.truncate(if s.loss % 4 == 0 { parts.len() } else { k + 4 });
            let mut dec = Decoder::new(ObjectTransmissionInformation::with_defaults(fec[0] as u64, fec[1] as u16));
            let mut out = None;
            for x in order {
                out = dec.decode(EncodingPacket::new(PayloadId::new(0, parts[x].seqno), parts[x].data.clone()));
                if out.is_some() {
                    break;
                }
            }
            let Some(d) = out else { viol!("a broadcast of {} bytes ({k} symbols, {} were sent) cannot be decoded", data.len(), parts.len()) };
            let ok = decompress(&d).into_iter().chain([d]).any(|x| x == data);
            check!(ok, "a large broadcast of {} bytes arrives altered", data.len());
        }
    }
    Ok(some && large)
}

// ------------------------------------------------------------------ nodes among themselves

#[derive(Clone, Debug)]
pub struct Nodes {
    pub seed: u64,
    pub net: NetCfg,
    pub n: u8,
    /// which nodes know each other
    pub links: Vec<(u8, u8)>,
    pub compress: bool,
    /// from, length
    pub sends: Vec<(u8, u32, bool, u16)>,
    pub flood: bool,
}
pub fn nodes_gen(flood: bool) -> impl Strategy<Value = Nodes> {
    let n = if flood { 3u8..7 } else { 2u8..5 };
    let len = if flood {
        prop_oneof![2 => 0u32..769, 2 => 769u32..6000].boxed()
    } else {
        prop_oneof![2 => 0u32..769, 2 => 769u32..9000, 2 => 45_000u32..150_000].boxed()
    };
    (
        (1u64..1_000_000, any::<u64>(), n, any::<bool>()),
        prop_oneof![1 => Just(0u16), 1 => 0u16..500],
        prop_oneof![1 => Just(0u32), 1 => 0u32..200],
        prop_oneof![1 => Just(0u32), 2 => 0u32..60],
        prop::collection::vec((any::<u8>(), any::<u8>()), 1..9),
        prop::collection::vec((any::<u8>(), len, any::<bool>(), prop_oneof![1 => Just(0u16), 1 => 0u16..120]), 1..4),
    )
        .prop_map(move |((seed, nseed, n, compress), dup, delay, jitter, links, sends)| Nodes {
            seed: seed * 1000,
            net: NetCfg { seed: nseed, dup, delay, jitter, ..Default::default() },
            n,
            links,
            compress,
            sends,
            flood,
        })
}
/// Returns the longest datagram
pub async fn nodes(c: &Nodes) -> Result<(bool, usize), Fail> {
    let id = ov_id(c.seed, 0);
    let n = c.n as usize;
    let many = if c.flood { u32::MAX } else { 0 };
    let o = OverlayOptions { secondary_broadcast_target_count: many, secondary_fec_broadcast_target_count: many, broadcast_target_count: u32::MAX, force_compression: c.compress, ..oopts() };
    let mut ovs = vec![];
    for i in 0..n {
        ovs.push(Ov::with(&Key::nth(c.seed + i as u64), ip(i), opts(), None, None, &[(id, o)], default_reply)?);
    }
    let mut adj = vec![BTreeSet::new(); n];
    for (a, b) in &c.links {
        let (a, b) = (*a as usize % n, *b as usize % n);
        if a != b {
            adj[a].insert(b);
            adj[b].insert(a);
        }
    }
    for a in 0..n {
        for b in &adj[a] {
            let k = ONode::new(ovs[*b].s.key(), &id, 1);
            need!(ovs[a].add(0, &k, ovs[*b].s.addr).is_some(), "a member is refused");
        }
    }
    let addrs: Vec<_> = ovs.iter().map(|o| o.s.addr).collect();
    let mut w = World::new(&addrs, c.net.clone())?;
    let mut far = false;
    for (i, (from, len, key, loss)) in c.sends.iter().enumerate() {
        let from = *from as usize % n;
        let data = payload(c.seed + 500 + i as u64, *len as usize + 8);
        let other = Arc::new(AKey::from_bytes(Key::nth(c.seed + 40).seed));
        let key = if *key { &other } else { ovs[from].o[0].overlay_key() };
        // large ones have to get over some losses
        w.cfg.loss = if !c.flood && *len >= 45_000 { vec![*loss] } else { vec![] };
        // who should get it
        let mut dist: BTreeMap<usize, usize> = BTreeMap::from([(from, 0)]);
        let mut at = vec![from];
        while let Some(a) = at.pop() {
            if dist[&a] > 0 && !c.flood {
                continue;
            }
            for b in &adj[a] {
                let d = dist[&a] + 1;
                if dist.get(b).map(|x| *x > d).unwrap_or(true) {
                    dist.insert(*b, d);
                    at.push(*b);
                }
            }
        }
        far |= dist.values().any(|d| *d > c.flood as usize);
        let info = ovs[from].o[0].broadcast(&ovs[from].s.node, data.clone(), Some(key), BroadcastTarget::RandomNeighbours);
        check!(info.recipient_count == adj[from].len(), "{} recipients are reported instead of {}", info.recipient_count, adj[from].len());
        let parts = *len as u64 / 768 * 3 / 2 + 20;
        w.run(parts / 20 * 10 + 2000, 10, || false).await;
        for (k, o) in ovs.iter().enumerate() {
            let d = o.drain(0).await;
            let want = if k != from && dist.contains_key(&k) { vec![(data.clone(), *key.id().as_slice())] } else { vec![] };
            let got: Vec<_> = d.into_iter().map(|x| (x.0, x.1)).collect();
            check!(
                got == want,
                "broadcast {i} ({} bytes, from node {from}) is delivered {} times at node {k} ({:?} links away) instead of {}",
                data.len(),
                got.len(),
                dist.get(&k),
                want.len()
            );
        }
    }
    Ok((far, w.longest))
}
/// Direct messages and requests to members, from an overlay under the node's key or one of its own
#[derive(Clone, Debug)]
struct Direct {
    seed: u64,
    /// (overlay, peer, kind, length)
    sends: Vec<(u8, u8, u8, u32)>,
    gone: u8,
}
async fn direct(c: &Direct) -> CaseResult {
    let keys = [Key::nth(c.seed), Key::nth(c.seed + 1)];
    let (node, addr) = new_node(&keys, LOCAL, opts(), None)?;
    let on = everscale_network::overlay::Node::new(node.clone(), 0).map_err(|e| Fail::Harness(format!("overlay: {e}")))?;
    let events = Arc::new(std::sync::Mutex::new(vec![]));
    let r = Recorder::new(&events, 0, default_reply);
    node.add_query_subscriber(r.clone()).unwrap();
    node.add_message_subscriber(r).unwrap();
    node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
    let s = Sut { node: node.clone(), keys: keys.to_vec(), addr, events };
    let ids: Vec<B32> = (0..3).map(|i| ov_id(c.seed, i)).collect();
    // [local key][peer]
    let mut peers: Vec<Vec<RefPeer>> = vec![vec![], vec![]];
    for (k, key) in keys.iter().enumerate() {
        for i in 0..3u64 {
            let mut p = RefPeer::to_key(Key::nth(c.seed + 10 + i), key, addr);
            p.connect().await?;
            need!(node.add_peer(everscale_network::adnl::NewPeerContext::AdnlPacket, &short(&key.id), &p.id(), p.addr(), full(&p.key().public)).is_ok(), "add_peer");
            if k == 1 && c.gone >> i & 1 == 1 {
                need!(matches!(node.remove_peer(&short(&key.id), &p.id()), Ok(true)), "a peer is not removed");
            }
            peers[k].push(p);
        }
    }
    let list: Vec<_> = peers[1].iter().map(|p| p.id()).collect();
    let own = node.key_by_tag(1).map_err(|_| Fail::Harness("key".into()))?.clone();
    let (a, _) = on.add_public_overlay(&everscale_network::overlay::IdShort::new(ids[0]), oopts());
    let (b, _) = on.add_private_overlay(&everscale_network::overlay::IdShort::new(ids[1]), own, &list, oopts());
    let (d, _) = on.add_public_overlay(&everscale_network::overlay::IdShort::new(ids[2]), oopts());
    let o = [a, b, d];
    let mut counted: Vec<B32> = on.metrics().map(|x| *x.0.as_slice()).collect();
    counted.sort();
    let mut all = ids.clone();
    all.sort();
    check!(counted == all, "{} overlays are counted instead of {}", counted.len(), all.len());
    let mut sent = 0;
    for (n, (which, to, kind, len)) in c.sends.iter().enumerate() {
        let (i, p) = (*which as usize % 3, *to as usize % 3);
        let k = (i == 1) as usize;
        let data = payload(c.seed + n as u64, *len as usize / 4 * 4 + 4);
        let lost = k == 1 && c.gone >> p & 1 == 1;
        let pid = peers[k][p].id();
        let mut answer = None;
        if *kind == 0 {
            check!(o[i].message_prefix() == wrap(&ids[i], &[]) && o[i].query_prefix() == crate::ov::wrap_query(&ids[i], &[]), "the prefixes are other ones");
            let r = o[i].send_message(&node, &pid, &data);
            check!(r.is_ok() != lost, "a message to a {} peer gives {:?}", if lost { "forgotten" } else { "known" }, r.err().map(|e| e.to_string()));
        } else {
            let (x, nn, dd) = (o[i].clone(), node.clone(), data.clone());
            answer = Some(tokio::spawn(async move { x.adnl_query(&nn, &pid, everscale_network::tl::RawBytes::<everscale_network::tl::Boxed>::new(&dd), Some(500)).await }));
        }
        settle().await;
        let want = if *kind == 0 { wrap(&ids[i], &data) } else { crate::ov::wrap_query(&ids[i], &data) };
        let mut found = 0;
        for (kk, row) in peers.iter_mut().enumerate() {
            for (pp, peer) in row.iter_mut().enumerate() {
                for m in peer.msgs() {
                    match m {
                        Msg::Custom(d) if *kind == 0 => {
                            check!((kk, pp) == (k, p), "peer {pp} gets a message for peer {p} (local keys {kk} and {k})");
                            check!(d == want, "{} bytes arrive instead of {}", d.len(), want.len());
                            found += 1;
                        }
                        Msg::Query { id, data: d } if *kind != 0 => {
                            check!((kk, pp) == (k, p), "peer {pp} gets a query for peer {p} (local keys {kk} and {k})");
                            check!(d == want, "a query of {} bytes arrives instead of {}", d.len(), want.len());
                            found += 1;
                            peer.send_msg(false, Msg::Answer { id, data: payload(c.seed + 50 + n as u64, 40) });
                        }
                        Msg::Custom(_) | Msg::Query { .. } => viol!("an unexpected message"),
                        _ => {}
                    }
                }
            }
        }
        check!(found == !lost as usize, "{found} messages arrive at a {} peer", if lost { "forgotten" } else { "known" });
        if let Some(h) = answer {
            check!(until(|| h.is_finished()).await, "an answered query does not end");
            let r = h.await.map_err(|e| Fail::Viol(format!("a query ended by {e}")))?;
            match r {
                Ok(r) => check!(!lost && r == Some(payload(c.seed + 50 + n as u64, 40)), "another answer arrives"),
                Err(e) => check!(lost, "a query fails: {e}"),
            }
        }
        sent += found;
    }
    Ok(sent > 1)
}

pub fn direct_run(c: &mut Ctx) {
    c.scenario("direct", "two messages arrive", 800, || {
        let len = prop_oneof![3 => 0u32..900, 1 => 0u32..60_000];
        (1u64..1_000_000, prop::collection::vec((0u8..3, 0u8..3, 0u8..2, len), 1..6), prop_oneof![2 => Just(0u8), 1 => 0u8..8]).prop_map(|(seed, sends, gone)| Direct { seed: seed * 1000, sends, gone })
    }, |v| run(direct(v)));
}
pub fn o04_run(c: &mut Ctx) {
    c.scenario("targets", "a large broadcast has several recipients", 600, c4, |v| run(targets(v)));
    c.scenario("nodes", "a node has neighbours", 150, || nodes_gen(false), |v| run(async { Ok(nodes(v).await?.0) }));
}
pub fn o11_run(c: &mut Ctx) {
    c.scenario("flood", "a broadcast goes over several links", 500, || nodes_gen(true), |v| run(async { Ok(nodes(v).await?.0) }));
}
