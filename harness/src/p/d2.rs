//! D04: lookups against hostile peers
use super::d1::{at, spoil, MemberGen, Spoil};
use crate::dh::*;
use crate::fx::*;
use everscale_network::proto;
use everscale_network::tl::BoxedWrapper;
use futures_util::StreamExt;
use proptest::prelude::*;
use std::sync::{Arc, Mutex};

/// What a peer replies to a value search
#[derive(Clone, Debug)]
enum Reply4 {
    Silent,
    Genuine(u8),
    /// an authorised value, spoiled
    Spoiled(u8, Vec<Spoil>),
    /// a value its owner signed for another key
    Foreign(u8),
    Malformed(Vec<u8>),
    /// a genuine reply cut short
    Cut(u8, u16),
    NotFound { valid: u8, bad: u8 },
    /// first junk, then the genuine value (only the first counts)
    Answers(Vec<u8>),
    /// what a peer would say to another question
    Other(u8),
}
fn reply4() -> impl Strategy<Value = Reply4> {
    use Reply4::*;
    prop_oneof![
        2 => Just(Silent),
        4 => any::<u8>().prop_map(Genuine),
        6 => (any::<u8>(), prop::collection::vec(spoil(), 1..3)).prop_map(|(a, s)| Spoiled(a, s)),
        4 => any::<u8>().prop_map(Foreign),
        1 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Malformed),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Cut(a, b)),
        2 => (0u8..3, 0u8..3).prop_map(|(valid, bad)| NotFound { valid, bad }),
        1 => prop::collection::vec(any::<u8>(), 0..8).prop_map(Answers),
        1 => any::<u8>().prop_map(Other),
    ]
}

/// Contents of a value of the type that is looked up (`kind` 0: a pong, 1: an address, 2: members)
fn contents(kind: u8, tag: u8, seed: u64, ov: &B32) -> Vec<u8> {
    match kind {
        0 => W::new().u32(id::dht_pong()).u64(tag as u64).done(),
        1 => {
            let now = clock::unix();
            // some address lists that are not valid (any more)
            let (reinit, expire) = match tag % 8 {
                6 => (now + 4000, 0),
                7 => (0, now - 5),
                5 => (now, now + 100),
                4 => (now + 50, 0),
                _ => (0, 0),
            };
            AddrList::one(address(tag), 1, reinit, expire).write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done()
        }
        _ => ONode::list(
            &(0..1 + tag % 3).map(|i| MemberGen { who: (tag / 3 + i) % 6, version: tag % 4, bad: None }.build(seed, ov)).collect::<Vec<_>>(),
        ),
    }
}
fn address(tag: u8) -> std::net::SocketAddrV4 {
    std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(10, 0, 0, tag), 1000 + tag as u16)
}

#[derive(Clone, Debug)]
struct D04Case {
    seed: u64,
    kind: u8,
    idx: u8,
    api: u8,
    peers: Vec<Reply4>,
}
fn d04_case(kinds: std::ops::Range<u8>) -> impl Strategy<Value = D04Case> {
    (1u64..1_000_000, kinds, prop_oneof![3 => Just(0u8), 1 => 0u8..4], any::<u8>(), prop::collection::vec(reply4(), 1..6))
        .prop_map(|(seed, kind, idx, api, peers)| D04Case { seed: seed * 1000, kind, idx, api, peers })
}

type Given = (Vec<u8>, Vec<u8>);

/// The owner of the looked up value and the names used
fn genuine(c: &D04Case, tag: u8) -> Val {
    let ovn = super::d1::ov_name(c.seed, 0);
    let ov = sha256(&overlay_pub(&ovn));
    let v = contents(c.kind, tag, c.seed, &ov);
    match c.kind {
        0 => Val::signed(&Key::nth(c.seed + 100), b"pong", c.idx as u32, &v, at(100 + tag as i64)),
        1 => Val::signed(&Key::nth(c.seed + 100), b"address", 0, &v, at(100)),
        _ => Val::overlay(&ovn, &v, at(100)),
    }
}
fn foreign(c: &D04Case, tag: u8) -> Val {
    let ovn = super::d1::ov_name(c.seed, 1);
    let ov = sha256(&overlay_pub(&ovn));
    match (c.kind, tag % 3) {
        // no members at all
        (2, _) if tag % 4 == 3 => Val::overlay(&super::d1::ov_name(c.seed, 0), &ONode::list(&[]), at(100)),
        (2, 0) => Val::overlay(&ovn, &contents(2, tag, c.seed, &ov), at(100)),
        // members of the other overlay in the frame of this one, and the reverse
        (2, 1) => Val::overlay(&super::d1::ov_name(c.seed, 0), &contents(2, tag, c.seed, &ov), at(100)),
        (2, _) => Val::signed(&Key::nth(c.seed + 100), b"nodes", 0, &contents(2, tag, c.seed, &genuine(c, 0).key.id), at(100)),
        (k, 0) => Val::signed(&Key::nth(c.seed + 101), &genuine(c, 0).key.name, genuine(c, 0).key.idx, &contents(k, tag, c.seed, &ov), at(100)),
        (k, 1) => Val::signed(&Key::nth(c.seed + 100), b"other", genuine(c, 0).key.idx, &contents(k, tag, c.seed, &ov), at(100)),
        (k, _) => Val::signed(&Key::nth(c.seed + 100), &genuine(c, 0).key.name, genuine(c, 0).key.idx + 1, &contents(k, tag, c.seed, &ov), at(100)),
    }
}

fn reply_bytes(c: &D04Case, r: &Reply4, n: usize) -> Vec<Vec<u8>> {
    let (owner, other) = (Key::nth(c.seed + 100), Key::nth(c.seed + 101));
    match r {
        Reply4::Silent => vec![],
        Reply4::Genuine(t) => vec![genuine(c, *t).found()],
        Reply4::Spoiled(t, s) => {
            let mut v = genuine(c, *t);
            for s in s {
                s.apply(&mut v, &owner, &other);
            }
            vec![v.found()]
        }
        Reply4::Foreign(t) => vec![foreign(c, *t).found()],
        Reply4::Malformed(d) => vec![d.clone()],
        Reply4::Cut(t, l) => {
            let mut d = genuine(c, *t).found();
            let l = *l as usize % d.len();
            d.truncate(l);
            vec![d]
        }
        Reply4::NotFound { valid, bad } => {
            let mut l = vec![];
            for i in 0..*bad {
                let mut r = Rec::new(&Key::nth(c.seed + 700 + n as u64 * 10 + i as u64), address(i), 1);
                match i {
                    0 => r.sig[3] ^= 4,
                    1 => r.addrs.addrs.clear(),
                    _ => r.version += 1,
                }
                l.push(r);
            }
            for i in 0..*valid {
                l.push(Rec::new(&Key::nth(c.seed + 750 + n as u64 * 10 + i as u64), address(i), 1));
            }
            vec![not_found(&l)]
        }
        Reply4::Answers(t) => t.iter().map(|t| genuine(c, *t).found()).collect(),
        Reply4::Other(t) => vec![match t % 4 {
            0 => stored(),
            1 => nodes_answer(&[]),
            2 => W::new().u32(id::dht_pong()).u64(5).done(),
            _ => genuine(c, *t).tl(),
        }],
    }
}
/// Whether a reply gives an authentic value for the key that is looked up
fn authentic(c: &D04Case, d: &[u8]) -> Option<Val> {
    let mut r = R(d);
    r.id(id::value_found())?;
    r.id(id::dht_value())?;
    // anything after the value is not part of it
    let v = Val::read(&mut r)?;
    let key = genuine(c, 0).key;
    if v.key != key {
        return None;
    }
    let ok = if v.rule == id::rule_signature() {
        v.authentic_signed()
    } else {
        v.overlay_frame() && v.members().map(|l| !l.is_empty() && l.iter().all(|m| m.valid_for(&key.id))).unwrap_or(false)
    };
    ok.then_some(v)
}

fn desc_of(k: &proto::dht::KeyDescriptionOwned) -> Vec<u8> {
    everscale_network::tl::serialize(k.as_equivalent_ref())
}
fn desc_of_val(v: &Val) -> Vec<u8> {
    W::new().raw(&v.key.tl()).raw(&v.owner).u32(v.rule).bytes(&v.key_sig).done()
}

/// Collects a stream of values of the looked up kind as (key description, canonical contents)
async fn collect(d: Arc<everscale_network::dht::Node>, c: D04Case, full: bool, news: bool) -> Vec<Given> {
    let key = genuine(&c, 0).key;
    let name = String::from_utf8(key.name.clone()).unwrap();
    macro_rules! go {
        ($t:ty, $f:expr) => {{
            let e = d.entry(&key.id, &name).with_key_index(key.idx).values::<$t>();
            let e = if full { e.use_full_batch() } else { e };
            e.use_new_peers(news).map(|(k, v)| (desc_of(&k), $f(v))).collect::<Vec<Given>>().await
        }};
    }
    match c.kind {
        0 => go!(proto::dht::Pong, |v: proto::dht::Pong| everscale_network::tl::serialize(v)),
        1 => go!(BoxedWrapper<proto::adnl::AddressList>, |v: BoxedWrapper<proto::adnl::AddressList>| everscale_network::tl::serialize(v)),
        _ => go!(BoxedWrapper<proto::overlay::NodesOwned>, |v: BoxedWrapper<proto::overlay::NodesOwned>| everscale_network::tl::serialize(v)),
    }
}

async fn lab4(c: &D04Case) -> Result<(Dht, Vec<Server>, Vec<Vec<Vec<u8>>>), Fail> {
    let d = Dht::new(&Key::nth(c.seed), dopts())?;
    let mut servers = vec![];
    let mut replies = vec![];
    let key = genuine(c, 0).key.hash();
    for (i, r) in c.peers.iter().enumerate() {
        let b = reply_bytes(c, r, i);
        replies.push(b.clone());
        let s = Server::new(Key::nth(c.seed + 300 + i as u64), &d, move |q| match find_value_key(q) {
            Some((k, _)) if k == key => b.clone(),
            Some(_) => vec![not_found(&[])],
            None => vec![],
        });
        need!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a DHT peer is refused");
        servers.push(s);
    }
    Ok((d, servers, replies))
}

async fn d04(c: &D04Case) -> CaseResult {
    let (d, mut servers, replies) = lab4(c).await?;
    // the first answer of each peer is the one that counts
    let good: Vec<Option<Val>> = replies.iter().map(|r| r.first().and_then(|d| authentic(c, d))).collect();
    // readable as the type that is looked up
    let readable = |v: &Val| -> Option<Given> {
        let x = match c.kind {
            0 => {
                let mut r = R(&v.value);
                r.id(id::dht_pong())?;
                W::new().u32(id::dht_pong()).u64(r.u64()?).done()
            }
            1 => {
                let mut r = R(&v.value);
                let t = r.u32()?;
                (t.to_le_bytes()[..] == contents(1, 0, 0, &[0; 32])[..4]).then_some(())?;
                let a = AddrList::read(&mut r)?;
                if a.addrs.len() != 1 || a.priority != 0 {
                    return None; // not re-encodable, see the domain notes
                }
                a.write(W::new().u32(t)).done()
            }
            _ => ONode::list(&v.members()?),
        };
        Some((desc_of_val(v), x))
    };
    let want: Vec<Option<Given>> = good.iter().map(|g| g.as_ref().and_then(readable)).collect();
    let nt = replies.iter().zip(&want).any(|(r, w)| !r.is_empty() && w.is_none());
    let hidden = |g: &[Given]| want.iter().flatten().find(|w| g.iter().filter(|x| x == w).count() < want.iter().flatten().filter(|x| x == w).count()).cloned();
    match c.api % 3 {
        // a stream of values
        0 => {
            let (full, news) = (c.api & 8 > 0, c.api & 16 > 0);
            let Some(got) = drive(&mut servers, 60_000, collect(d.d.clone(), c.clone(), full, news)).await? else { viol!("a lookup does not end") };
            for g in &got {
                check!(want.iter().flatten().any(|w| w == g), "a lookup returned {g:?}, not an authentic value for the key; replies {:?}", c.peers);
            }
            if let Some(w) = hidden(&got) {
                viol!("a genuine value {w:?} held by a queried peer is missing; replies {:?}", c.peers);
            }
        }
        // one peer
        1 => {
            for (i, w) in want.iter().enumerate() {
                let (dd, cc, id) = (d.d.clone(), c.clone(), servers[i].p.id());
                let f = async move {
                    let key = genuine(&cc, 0).key;
                    let name = String::from_utf8(key.name.clone()).unwrap();
                    let e = dd.entry(&key.id, &name).with_key_index(key.idx);
                    match cc.kind {
                        0 => e.value_from::<proto::dht::Pong>(&id).await.map(|o| o.map(|(k, v)| (desc_of(&k), everscale_network::tl::serialize(v)))),
                        1 => e.value_from::<BoxedWrapper<proto::adnl::AddressList>>(&id).await.map(|o| o.map(|(k, v)| (desc_of(&k), everscale_network::tl::serialize(v)))),
                        _ => e.value_from::<BoxedWrapper<proto::overlay::NodesOwned>>(&id).await.map(|o| o.map(|(k, v)| (desc_of(&k), everscale_network::tl::serialize(v)))),
                    }
                };
                let Some(got) = drive(&mut servers, 20_000, f).await? else { viol!("a query does not end") };
                let got = got.ok().flatten();
                check!(got == *w, "asked for the value a peer gave {got:?} where {w:?} is authentic; its reply is {:?}", c.peers[i]);
            }
        }
        // the address or the members with their addresses
        _ => {
            if c.kind == 1 {
                let (dd, id) = (d.d.clone(), short(&Key::nth(c.seed + 100).id));
                let Some(got) = drive(&mut servers, 60_000, async move { dd.find_address(&id).await }).await? else { viol!("an address lookup does not end") };
                let now = clock::unix();
                let ok: Vec<std::net::SocketAddrV4> = good
                    .iter()
                    .flatten()
                    .filter_map(|v| {
                        readable(v)?;
                        let a = AddrList::read(&mut R(&v.value[4..]))?;
                        let x = a.addrs.first()?;
                        (a.reinit_date <= now + 60 && (a.expire_at == 0 || a.expire_at >= now)).then(|| std::net::SocketAddrV4::new(x.0.into(), x.1 as u16))
                    })
                    .collect();
                match got {
                    Ok((a, k)) => {
                        check!(ok.contains(&a), "the address {a} was found, authentic are {ok:?}");
                        check!(k == full(&Key::nth(c.seed + 100).public), "an address of another key was found");
                    }
                    Err(e) => check!(ok.is_empty(), "no address is found ({e}) although {ok:?} is authentic"),
                }
            } else if c.kind == 2 {
                // the addresses of some members are known to all peers
                let books: Arc<Mutex<Vec<Val>>> = Default::default();
                for who in 0..6u64 {
                    if c.api as u64 >> 2 & who > 0 {
                        let k = Key::nth(c.seed + 200 + who);
                        books.lock().unwrap().push(Val::signed(&k, b"address", 0, &contents(1, (who * 8) as u8, c.seed, &[0; 32]), at(100)));
                    }
                }
                for (i, s) in servers.iter_mut().enumerate() {
                    let (b, key, mine) = (books.clone(), genuine(c, 0).key.hash(), replies[i].clone());
                    s.f = Box::new(move |q| match find_value_key(q) {
                        Some((k, _)) if k == key => mine.clone(),
                        Some((k, _)) => vec![b.lock().unwrap().iter().find(|v| v.key.hash() == k).map(|v| v.found()).unwrap_or(not_found(&[]))],
                        None => vec![],
                    });
                }
                let (dd, ov) = (d.d.clone(), everscale_network::overlay::IdShort::new(genuine(c, 0).key.id));
                let Some(got) = drive(&mut servers, 120_000, async move { dd.find_overlay_nodes(&ov).await }).await? else { viol!("a search for overlay nodes does not end") };
                let got = match got {
                    Ok(g) => g,
                    Err(e) => viol!("a search for overlay nodes failed: {e}"),
                };
                let members: Vec<ONode> = good.iter().flatten().flat_map(|v| v.members().unwrap_or_default()).collect();
                for (a, n) in &got {
                    let n = ONode::read(&mut R(&everscale_network::tl::serialize(n.as_equivalent_ref()))).unwrap();
                    check!(members.contains(&n), "a search for overlay nodes gives a member {n:?} that no authentic list holds");
                    let who = (0..6u8).find(|w| Key::nth(c.seed + 200 + *w as u64).id == n.short().unwrap());
                    let ok = who.map(|w| address(w * 8) == *a && c.api >> 2 & w > 0).unwrap_or(false);
                    check!(ok, "the member {who:?} is given the address {a}");
                }
                let reach = members.iter().any(|m| books.lock().unwrap().iter().any(|b| b.owner == m.id));
                check!(!got.is_empty() || !reach, "no overlay node is found although an authentic list and an address of its member are");
            }
        }
    }
    Ok(nt && want.iter().any(|w| w.is_some()))
}

pub fn d04_run(c: &mut Ctx) {
    let rule = "a peer gives an authentic value and another one something else";
    c.scenario("values", rule, 900, || d04_case(0..1), |v| run(d04(v)));
    c.scenario("addresses", rule, 700, || d04_case(1..2), |v| run(d04(v)));
    c.scenario("overlay_nodes", rule, 900, || d04_case(2..3), |v| run(d04(v)));
}
