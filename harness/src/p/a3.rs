//! A07, A08
use crate::fx::*;
use everscale_network::adnl;
use proptest::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ A07

#[derive(Clone, Debug)]
enum PeerOp {
    Add { l: u8, p: u8, a: u8, ctx: u8 },
    /// a peer that is one of the node's own identities
    AddOwn { l: u8, other: u8, a: u8 },
    AddForUnknownLocal { p: u8 },
    Remove { l: u8, p: u8 },
    RemoveForUnknownLocal { p: u8 },
    /// a handshake of the peer; `list`: 0 none, 1 its socket, 2 the node's own address, 3 expired,
    /// 4 from the future, 5 empty, 6 without an expiry
    Packet { l: u8, p: u8, list: u8, short: bool },
    Connect { l: u8, p: u8 },
    /// the peer speaks over its channel (`old`: over the one it had before it was removed)
    Speak { l: u8, p: u8, prio: bool, old: bool },
    /// the node sends to the peer
    Send { l: u8, p: u8 },
    Match,
}

const PEERS: usize = 3;
const ADDRS: usize = 4;

fn peer_op() -> impl Strategy<Value = PeerOp> {
    let l = || 0u8..3;
    let p = || 0u8..PEERS as u8;
    prop_oneof![
        4 => (l(), p(), 0u8..ADDRS as u8 + 3, 0u8..3).prop_map(|(l, p, a, ctx)| PeerOp::Add { l, p, a, ctx }),
        1 => (l(), l(), 0u8..ADDRS as u8).prop_map(|(l, other, a)| PeerOp::AddOwn { l, other, a }),
        1 => p().prop_map(|p| PeerOp::AddForUnknownLocal { p }),
        3 => (l(), p()).prop_map(|(l, p)| PeerOp::Remove { l, p }),
        1 => p().prop_map(|p| PeerOp::RemoveForUnknownLocal { p }),
        3 => (l(), p(), 0u8..7, prop::bool::weighted(0.2)).prop_map(|(l, p, list, short)| PeerOp::Packet { l, p, list, short }),
        4 => (l(), p()).prop_map(|(l, p)| PeerOp::Connect { l, p }),
        4 => (l(), p(), any::<bool>(), prop::bool::weighted(0.4)).prop_map(|(l, p, prio, old)| PeerOp::Speak { l, p, prio, old }),
        4 => (l(), p()).prop_map(|(l, p)| PeerOp::Send { l, p }),
        1 => Just(PeerOp::Match),
    ]
}

#[derive(Clone, Debug)]
struct A07Case {
    seed: u64,
    locals: u8,
    /// None: no filter; otherwise it refuses about a third
    filter: Option<u64>,
    ops: Vec<PeerOp>,
}

#[derive(Clone, Copy)]
struct Refuse(u64);
impl Refuse {
    fn ok(&self, ctx: adnl::NewPeerContext, addr: SocketAddrV4, id: &B32) -> bool {
        let h = sha256(format!("{}/{ctx:?}/{:?}/{}", self.0, id, addr.port() % 3).as_bytes());
        h[0] % 3 != 0
    }
}
impl adnl::PeerFilter for Refuse {
    fn check(&self, ctx: adnl::NewPeerContext, addr: SocketAddrV4, peer_id: &adnl::NodeIdShort) -> bool {
        self.ok(ctx, addr, peer_id.as_slice())
    }
}

async fn a07(c: &A07Case) -> CaseResult {
    let nl = c.locals as usize;
    let keys: Vec<Key> = (0..nl).map(|i| Key::nth(c.seed * 100 + i as u64)).collect();
    let filter = c.filter.map(Refuse);
    let (node, addr) = new_node(&keys, LOCAL, opts(), filter.map(|f| Arc::new(f) as Arc<dyn adnl::PeerFilter>))?;
    let events = Arc::new(Mutex::new(vec![]));
    let r = Recorder::new(&events, 0, default_reply);
    node.add_query_subscriber(r.clone()).unwrap();
    node.add_message_subscriber(r).unwrap();
    node.start().map_err(|e| Fail::Harness(e.to_string()))?;
    let s = Sut { node, keys: keys.clone(), addr, events };
    let pk: Vec<Key> = (0..PEERS).map(|i| Key::nth(c.seed * 100 + 50 + i as u64)).collect();
    let mut spare: Vec<Sock> = (0..ADDRS).map(|_| Sock::any()).collect();
    let own = s.direct();
    let mut refs: Vec<Vec<RefPeer>> = (0..nl).map(|l| pk.iter().map(|k| RefPeer::to_key(k.clone(), &keys[l], own)).collect()).collect();
    // the channel a peer had before it was removed
    let mut dead: HashMap<(usize, usize), Link> = HashMap::new();
    let mut model: BTreeMap<(usize, usize), SocketAddrV4> = BTreeMap::new();
    let mut own_peers: BTreeMap<(usize, usize), SocketAddrV4> = BTreeMap::new();
    let pass = |ctx, a: SocketAddrV4, id: &B32| filter.map(|f| f.ok(ctx, a, id)).unwrap_or(true);
    let ctxs = [adnl::NewPeerContext::AdnlPacket, adnl::NewPeerContext::Dht, adnl::NewPeerContext::PublicOverlay];
    let mut tag = 0u64;
    let mut nt = false;
    let stranger = Key::nth(c.seed * 100 + 99);
    for op in &c.ops {
        tag += 1;
        let data = payload(tag, 24);
        match *op {
            PeerOp::Add { l, p, a, ctx } => {
                let (l, p) = (l as usize % nl, p as usize);
                let a = match a as usize {
                    i if i < ADDRS => spare[i].addr,
                    i if i == ADDRS => refs[l][p].addr(),
                    i if i == ADDRS + 1 => s.addr,
                    // the node's own port on another host
                    _ => SocketAddrV4::new(std::net::Ipv4Addr::new(192, 0, 2, 9), s.addr.port()),
                };
                let r = s.node.add_peer(ctxs[ctx as usize], &short(&keys[l].id), &short(&pk[p].id), a, full(&pk[p].public));
                let want = a != s.addr && pass(ctxs[ctx as usize], a, &pk[p].id);
                check!(matches!(r, Ok(x) if x == want), "add_peer returned {r:?}, expected {want}");
                if want {
                    model.insert((l, p), a);
                }
            }
            PeerOp::AddOwn { l, other, a } => {
                let (l, o) = (l as usize % nl, other as usize % nl);
                let a = spare[a as usize].addr;
                let r = s.node.add_peer(adnl::NewPeerContext::Dht, &short(&keys[l].id), &short(&keys[o].id), a, full(&keys[o].public));
                let want = l != o && pass(adnl::NewPeerContext::Dht, a, &keys[o].id);
                check!(matches!(r, Ok(x) if x == want), "adding identity {o} as a peer of identity {l} returned {r:?}, expected {want}");
                if want {
                    own_peers.insert((l, o), a);
                }
            }
            PeerOp::AddForUnknownLocal { p } => {
                let p = p as usize;
                let r = s.node.add_peer(adnl::NewPeerContext::Dht, &short(&stranger.id), &short(&pk[p].id), spare[0].addr, full(&pk[p].public));
                check!(!matches!(r, Ok(true)), "a peer was added for an identity the node does not have");
            }
            PeerOp::Remove { l, p } => {
                let (l, p) = (l as usize % nl, p as usize);
                let r = s.node.remove_peer(&short(&keys[l].id), &short(&pk[p].id));
                let want = model.remove(&(l, p)).is_some();
                check!(matches!(r, Ok(x) if x == want), "remove_peer returned {r:?}, expected {want}");
                let k = &mut refs[l][p];
                if k.link.chan.is_some() {
                    dead.insert((l, p), k.link.clone());
                    nt = true;
                }
                k.link.chan = None;
                k.link.peer_chan = None;
                k.link.ready = false;
                // the peer starts over as well
                k.link.sent = [0; 2];
                k.link.recv = [0; 2];
                k.link.chan_key = Key::nth(c.seed * 1000 + tag);
            }
            PeerOp::RemoveForUnknownLocal { p } => {
                let r = s.node.remove_peer(&short(&stranger.id), &short(&pk[p as usize].id));
                check!(r.is_err(), "removing for an unknown identity: {r:?}");
            }
            PeerOp::Packet { l, p, list, short: by_short } => {
                let (l, p) = (l as usize % nl, p as usize);
                let now = clock::unix();
                let k = &mut refs[l][p];
                let me = k.link.me.clone();
                let mut x = k.link.base(false, vec![Msg::Custom(data.clone())]);
                if by_short {
                    x.from_short = Some(me.id);
                } else {
                    x.from = Some(me.public);
                }
                let at = k.addr();
                let mut new = Some(at);
                let mut bad = false;
                x.address = match list {
                    0 => {
                        new = None;
                        None
                    }
                    2 => {
                        new = None;
                        Some(AddrList::one(s.addr, now, 0, now + 100))
                    }
                    3 => {
                        bad = true;
                        Some(AddrList::one(at, now, 0, now - 10))
                    }
                    4 => {
                        bad = true;
                        Some(AddrList::one(at, now, now + 1000, now + 5000))
                    }
                    5 => {
                        bad = true;
                        Some(AddrList { version: now, ..Default::default() })
                    }
                    6 => Some(AddrList::one(at, now, 0, 0)),
                    _ => Some(AddrList::one(at, now, 0, now + 100)),
                };
                if by_short {
                    new = None;
                    bad = false;
                }
                x.sign(&me);
                let d = k.link.wrap_handshake(&x);
                k.raw(&d);
                if let Some(a) = new {
                    if !bad && pass(adnl::NewPeerContext::AdnlPacket, a, &pk[p].id) {
                        model.insert((l, p), a);
                    }
                }
                let want = !bad && model.contains_key(&(l, p));
                if want {
                    check!(until(|| s.count() > 0).await, "a packet of a known peer was not processed (address list kind {list})");
                } else {
                    settle().await;
                }
                let e = s.take();
                check!(e.len() == want as usize, "{} events for a packet of a peer that {} (address list kind {list})", e.len(), if want { "is known" } else { "must not become known" });
                if want {
                    check!(e[0].local == keys[l].id && e[0].peer == pk[p].id && e[0].data == data, "wrong attribution");
                }
            }
            PeerOp::Connect { l, p } => {
                let (l, p) = (l as usize % nl, p as usize);
                let a = refs[l][p].addr();
                let known = model.contains_key(&(l, p));
                let accepted = pass(adnl::NewPeerContext::AdnlPacket, a, &pk[p].id);
                let by_channel = refs[l][p].link.ready;
                if (by_channel || !accepted) && (!known || model[&(l, p)] != a) {
                    continue; // the peer would not be answered at this address
                }
                if accepted && !by_channel {
                    model.insert((l, p), a);
                }
                // channel keys of equal date do not replace each other
                advance(1000, 1000).await;
                let q = payload(tag, 40);
                let r = refs[l][p].query(false, &q).await;
                check!(r == Some(answer_for(&q)), "a query of peer {p} to identity {l} was not answered");
                let e = s.take();
                check!(e.len() == 1 && e[0].local == keys[l].id && e[0].peer == pk[p].id, "query of peer {p} to identity {l}: {} events or a wrong attribution", e.len());
            }
            PeerOp::Speak { l, p, prio, old } => {
                let (l, p) = (l as usize % nl, p as usize);
                if old {
                    let Some(link) = dead.get_mut(&(l, p)) else { continue };
                    let d = link.channel(prio, vec![Msg::Custom(data)]);
                    refs[l][p].raw(&d);
                    settle().await;
                    check!(s.take().is_empty(), "a removed peer's channel still works (peer {p}, identity {l})");
                    nt = true;
                } else {
                    let k = &mut refs[l][p];
                    if !k.link.ready || !model.contains_key(&(l, p)) {
                        continue;
                    }
                    let d = k.link.channel(prio, vec![Msg::Custom(data.clone())]);
                    k.raw(&d);
                    check!(until(|| s.count() > 0).await, "the channel of peer {p} with identity {l} does not work");
                    let e = s.take();
                    check!(e.len() == 1 && e[0].local == keys[l].id && e[0].peer == pk[p].id && e[0].data == data, "wrong attribution over a channel");
                }
            }
            PeerOp::Send { l, p } => {
                let (l, p) = (l as usize % nl, p as usize);
                let r = s.node.send_custom_message(&short(&keys[l].id), &short(&pk[p].id), &data);
                let Some(at) = model.get(&(l, p)).copied() else {
                    check!(r.is_err(), "sending to a peer that is not known succeeded");
                    continue;
                };
                check!(r.is_ok(), "sending to a known peer: {r:?}");
                if at.ip() != s.addr.ip() {
                    continue; // (nobody is there)
                }
                let mut got = None;
                until(|| {
                    if let Some(i) = spare.iter().position(|x| x.addr == at) {
                        if let Some((d, _)) = spare[i].recv() {
                            got = Some(d);
                        }
                    } else if let Some((d, _)) = refs[l][p].sock.recv() {
                        got = Some(d);
                    }
                    got.is_some()
                })
                .await;
                let Some(d) = got else { viol!("nothing arrived at the address given last ({at})") };
                let Some(g) = refs[l][p].link.open(&d) else {
                    viol!("what identity {l} sends to peer {p} cannot be opened by that peer in its relation with that identity")
                };
                check!(g.packet.messages.iter().any(|m| *m == Msg::Custom(data.clone())), "wrong contents");
                nt |= nl > 1;
            }
            PeerOp::Match => {
                for l in 0..nl {
                    // addresses of peers, of nobody, the node's own and ones that differ only in the host
                    let elsewhere = std::net::Ipv4Addr::new(192, 0, 2, 9);
                    let asked: Vec<SocketAddrV4> = spare
                        .iter()
                        .flat_map(|x| [x.addr, SocketAddrV4::new(elsewhere, x.addr.port())])
                        .chain([s.addr, SocketAddrV4::new(elsewhere, s.addr.port())])
                        .chain(refs[l].iter().map(|x| x.addr()))
                        .collect();
                    let r = s.node.match_peer_addresses(&short(&keys[l].id), asked.iter().enumerate().map(|(i, x)| (*x, i)).collect());
                    let Some(r) = r else { viol!("no result for a known identity") };
                    for (i, x) in asked.iter().enumerate() {
                        let who: Vec<B32> = model.iter().filter(|(k, a)| k.0 == l && **a == *x).map(|(k, _)| pk[k.1].id)
                            .chain(own_peers.iter().filter(|(k, a)| k.0 == l && **a == *x).map(|(k, _)| keys[k.1].id)).collect();
                        match r.get(&i) {
                            None => check!(who.is_empty(), "an address of a known peer was not matched"),
                            Some(id) => check!(who.contains(id.as_slice()), "an address was matched with a peer that is not there"),
                        }
                    }
                }
            }
        }
        for l in 0..nl {
            for (p, k) in pk.iter().enumerate() {
                let got = s.node.get_peer_address(&short(&keys[l].id), &short(&k.id));
                let want = model.get(&(l, p)).copied();
                check!(got == want, "after {op:?}: identity {l} has peer {p} at {got:?}, expected {want:?}");
            }
            for (o, k) in keys.iter().enumerate() {
                let got = s.node.get_peer_address(&short(&keys[l].id), &short(&k.id));
                check!(got == own_peers.get(&(l, o)).copied(), "identity {o} as peer of identity {l}: {got:?}");
            }
        }
        check!(s.node.metrics().peer_count == model.len() + own_peers.len(), "peer count {} expected {}", s.node.metrics().peer_count, model.len() + own_peers.len());
        for x in refs.iter_mut().flatten() {
            x.poll();
        }
    }
    spare.clear();
    Ok(nt)
}

pub fn a07_run(c: &mut Ctx) {
    c.scenario(
        "histories",
        "a channel of a removed peer was tried, or several identities sent",
        2500,
        || {
            (0u64..100_000, 1u8..4, prop::option::weighted(0.4, any::<u64>()), prop::collection::vec(peer_op(), 1..30))
                .prop_map(|(seed, locals, filter, ops)| A07Case { seed, locals, filter, ops })
        },
        |c| run(a07(c)),
    );
    c.scenario("threads", "more than two threads", 60, crate::p::t1::table_gen, |v| run_mt(crate::p::t1::table(v)));
    c.scenario("at_once", "more than three threads", 50, crate::p::t1::at_once_gen, |v| run_mt(crate::p::t1::peers_at_once(v)));
}

// ------------------------------------------------------------------ A08

#[derive(Clone, Debug)]
enum Trouble {
    /// the remote node is replaced by a new one (same key, other port)
    Restart,
    /// the remote forgets the peer and adds it again
    Forget,
    /// both sides forget
    ForgetLocal,
}

#[derive(Clone, Debug)]
struct A08Case {
    seed: u64,
    reset: u32,
    timeout: u64,
    gap: u64,
    history: [bool; 2],
    prio: bool,
    trouble: Vec<(u64, Trouble)>,
    b_asks: bool,
    /// the clocks agree, so that any tolerance is enough
    tolerance: u32,
}

async fn a08(c: &A08Case) -> CaseResult {
    let mut o = opts();
    o.channel_reset_timeout_sec = c.reset;
    o.query_min_timeout_ms = 0;
    o.query_default_timeout_ms = c.timeout;
    o.force_use_priority_channels = c.prio;
    o.packet_history_enabled = c.history[0];
    o.clock_tolerance_sec = c.tolerance;
    let mut ob = o;
    ob.packet_history_enabled = c.history[1];
    let (ka, kb) = (Key::nth(c.seed * 2), Key::nth(c.seed * 2 + 1));
    let a = Sut::new(&ka, o)?;
    let mut b = Sut::new(&kb, ob)?;
    need!(a.add_peer(&kb, b.addr) && b.add_peer(&ka, a.addr), "add_peer");
    let mut tag = 0u64;
    // one query; answered at once in virtual time or not at all
    async fn ask(x: &Sut, to: &Key, tag: &mut u64, timeout: u64) -> Result<bool, Fail> {
        *tag += 1;
        let q = payload(*tag, 20);
        let (n, l, r, d) = (x.node.clone(), x.id(), short(&to.id), q.clone());
        let h = tokio::spawn(async move { n.query_raw(&l, &r, d.into(), None).await });
        // (whatever can arrive does within this time: loopback)
        for _ in 0..8 {
            settle().await;
            if h.is_finished() {
                break;
            }
        }
        if !h.is_finished() {
            let t0 = clock::real_ms();
            while !h.is_finished() && clock::real_ms() - t0 < 1 {
                settle().await;
            }
        }
        if !h.is_finished() {
            clock::advance_ms(timeout + 2);
            if !until(|| h.is_finished()).await {
                viol!("a query did not resolve");
            }
        }
        match h.await.map_err(|e| Fail::Harness(e.to_string()))? {
            Ok(Some(x)) => {
                check!(x == answer_for(&q), "wrong answer");
                Ok(true)
            }
            Ok(None) => Ok(false),
            Err(e) => viol!("a query failed: {e}"),
        }
    }
    for i in 0..3 {
        let r = ask(&a, &kb, &mut tag, c.timeout).await?;
        check!(r, "query {i} on a healthy network was not answered");
        let r = ask(&b, &ka, &mut tag, c.timeout).await?;
        check!(r, "query {i} back on a healthy network was not answered");
    }
    let mut failed = 0;
    for (after, t) in &c.trouble {
        // the new channel's date has to be newer than the old one's
        advance(2000 + after * 1000, 1000).await;
        match t {
            Trouble::Restart => {
                drop(b);
                yields(20).await;
                b = Sut::new(&kb, ob)?;
                need!(a.add_peer(&kb, b.addr) && b.add_peer(&ka, a.addr), "add_peer");
            }
            Trouble::Forget => {
                check!(matches!(b.node.remove_peer(&b.id(), &a.id()), Ok(true)), "remove_peer");
                need!(b.add_peer(&ka, a.addr), "add_peer");
            }
            Trouble::ForgetLocal => {
                for (x, y) in [(&a, &b), (&b, &a)] {
                    check!(matches!(x.node.remove_peer(&x.id(), &y.id()), Ok(true)), "remove_peer");
                    need!(x.add_peer(y.key(), y.addr), "add_peer");
                }
            }
        }
        if c.b_asks {
            // its question may already repair everything
            ask(&b, &ka, &mut tag, c.timeout).await?;
        }
        let t0 = clock::ms();
        let mut n = 0;
        loop {
            let late = clock::ms() - t0;
            if ask(&a, &kb, &mut tag, c.timeout).await? {
                break;
            }
            n += 1;
            failed += 1;
            check!(
                late <= (c.reset as u64 + 3) * 1000 + 2 * (c.timeout + c.gap),
                "after {t:?} queries still fail {late} ms after the trouble although they kept failing for longer than the reset time of {} s ({n} failed)",
                c.reset
            );
            advance(c.gap, 1000).await;
        }
        for i in 0..4 {
            check!(ask(&a, &kb, &mut tag, c.timeout).await?, "query {i} after the recovery from {t:?} was not answered");
        }
        for i in 0..3 {
            check!(ask(&b, &ka, &mut tag, c.timeout).await?, "query {i} of the other side after the recovery from {t:?} was not answered");
        }
        for (x, name) in [(&a, "the asking"), (&b, "the other")] {
            let m = x.node.metrics();
            check!(
                m.channels_by_peers_len == 1 && m.channels_by_id_len == 2,
                "after the recovery from {t:?} {name} node keeps {} channel ids for {} channels of one peer",
                m.channels_by_id_len,
                m.channels_by_peers_len
            );
        }
    }
    Ok(failed > 0)
}

#[derive(Clone, Debug)]
enum KeepOp {
    /// the node asks and is never answered
    Ask { timeout: u64 },
    /// the peer sends a packet over the channel
    Packet { prio: bool },
    Advance(u64),
    /// the peer opens a new channel with a newer key
    Renew,
}

#[derive(Clone, Debug)]
struct KeepCase {
    seed: u64,
    reset: u32,
    ops: Vec<KeepOp>,
}

/// Packets keep arriving (never a silence as long as the reset time): the channel must stay
async fn a08_keep(c: &KeepCase) -> CaseResult {
    let mut o = opts();
    o.channel_reset_timeout_sec = c.reset;
    o.query_min_timeout_ms = 0;
    let s = Sut::new(&Key::nth(c.seed), o)?;
    let mut p = RefPeer::new(Key::nth(c.seed + 31), &s);
    p.connect().await?;
    let mut last = clock::ms();
    let mut hs = vec![];
    let mut asked = 0;
    let mut tag = 0;
    macro_rules! packet {
        ($prio:expr) => {{
            tag += 1;
            s.take();
            let d = p.link.channel($prio, vec![Msg::Custom(payload(tag, 16))]);
            p.raw(&d);
            check!(until(|| s.count() > 0).await, "the node dropped a channel over which packets kept arriving");
            last = clock::ms();
        }};
    }
    for op in &c.ops {
        match *op {
            KeepOp::Ask { timeout } => {
                let (n, l, r, t) = (s.node.clone(), s.id(), p.id(), timeout);
                hs.push(tokio::spawn(async move { n.query_raw(&l, &r, vec![1, 2, 3, 4].into(), Some(t)).await }));
                asked += 1;
                settle().await;
            }
            KeepOp::Packet { prio } => packet!(prio),
            KeepOp::Advance(ms) => {
                let mut left = ms;
                while left > 0 {
                    let room = (c.reset as u64 * 1000).saturating_sub(clock::ms() - last + 1);
                    if room < 50 {
                        packet!(false);
                        continue;
                    }
                    let st = left.min(room).min(700);
                    clock::advance_ms(st);
                    settle().await;
                    left -= st;
                }
            }
            KeepOp::Renew => {
                tag += 1;
                advance(1100, 550).await;
                p.link.chan_key = Key::nth(c.seed * 7 + tag + 5);
                p.link.ready = false;
                p.link.chan = Chan::new(&p.link.me.id, &p.link.remote_id, &p.link.chan_key, &p.link.peer_chan.unwrap().0);
                let m = p.link.create_msg();
                // the node answers with the channel key it has
                let d = p.link.handshake(vec![m, Msg::Query { id: sha256(&[tag as u8; 3]), data: payload(tag, 30) }]);
                p.raw(&d);
                check!(p.wait_answer(sha256(&[tag as u8; 3])).await.is_some(), "no answer while renewing the channel");
                packet!(false);
            }
        }
        p.poll();
    }
    packet!(true);
    // and the node itself still uses it
    p.poll();
    check!(s.node.send_custom_message(&s.id(), &p.id(), &payload(1, 8)).is_ok(), "send");
    let mut got = vec![];
    until(|| {
        got.extend(p.poll());
        !got.is_empty()
    })
    .await;
    check!(!got.is_empty(), "what the node sends cannot be opened: it reset the channel");
    check!(matches!(got[0].how, How::Channel { .. }), "the node no longer uses a channel over which packets kept arriving");
    for h in hs {
        h.abort();
    }
    Ok(asked > 0 && clock::ms() > c.reset as u64 * 1000)
}

pub fn a08_run(c: &mut Ctx) {
    c.scenario(
        "recovery",
        "some query failed before the recovery",
        1200,
        || {
            (
                0u64..1_000_000,
                prop_oneof![Just(30u32), 0u32..60],
                100u64..6000,
                0u64..3000,
                any::<[bool; 2]>(),
                any::<bool>(),
                prop::collection::vec((0u64..40, prop_oneof![2 => Just(Trouble::Restart), 2 => Just(Trouble::Forget), 1 => Just(Trouble::ForgetLocal)]), 1..4),
                prop::bool::weighted(0.3),
                prop_oneof![Just(60u32), 0u32..10],
            )
                .prop_map(|(seed, reset, timeout, gap, history, prio, trouble, b_asks, tolerance)| A08Case { seed, reset, timeout, gap, history, prio, trouble, b_asks, tolerance })
        },
        |c| run(a08(c)),
    );
    c.scenario(
        "kept_alive",
        "queries stayed unanswered for longer than the reset time",
        1200,
        || {
            let op = prop_oneof![
                3 => prop_oneof![50u64..3000, 3000u64..60_000].prop_map(|timeout| KeepOp::Ask { timeout }),
                2 => any::<bool>().prop_map(|prio| KeepOp::Packet { prio }),
                4 => prop_oneof![100u64..3000, 3000u64..50_000].prop_map(KeepOp::Advance),
                1 => Just(KeepOp::Renew),
            ];
            (0u64..1_000_000, prop_oneof![Just(30u32), 3u32..40], prop::collection::vec(op, 1..16)).prop_map(|(seed, reset, ops)| KeepCase { seed, reset, ops })
        },
        |c| run(a08_keep(c)),
    );
}
