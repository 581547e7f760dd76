//! U04: the wire form of every protocol type
use crate::fx::*;
use everscale_network::crypto::tl::PublicKey;
use everscale_network::proto::{adnl, dht, overlay, rldp, rpc};
use everscale_network::tl::{self, BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
use proptest::prelude::*;
use vcore::adnl::{AddrList, Msg, Packet};
use vcore::tl::{id, W};
use vcore::{check, viol, CaseResult, Ctx, Fail};

type B = Vec<u8>;
#[derive(Clone, Debug)]
enum Pk {
    Ed(B32),
    Overlay(B),
    Aes(B32),
    Plain(B),
}
impl Pk {
    fn tl(&self) -> B {
        match self {
            Pk::Ed(k) => W::new().u32(id::pub_ed25519()).raw(k),
            Pk::Overlay(d) => W::new().u32(id::pub_overlay()).bytes(d),
            Pk::Aes(k) => W::new().u32(id::pub_aes()).raw(k),
            Pk::Plain(d) => W::new().u32(id::pub_unenc()).bytes(d),
        }
        .done()
    }
    fn real(&self) -> PublicKey<'_> {
        match self {
            Pk::Ed(key) => PublicKey::Ed25519 { key },
            Pk::Overlay(name) => PublicKey::Overlay { name },
            Pk::Aes(key) => PublicKey::Aes { key },
            Pk::Plain(data) => PublicKey::Unencoded { data },
        }
    }
}
#[derive(Clone, Debug)]
struct C {
    /// which type
    what: u8,
    h: [B32; 3],
    pk: [Pk; 3],
    b: [B; 3],
    n: [u32; 6],
    l: [u64; 2],
    /// an address or none
    addr: Option<(u32, u32)>,
    /// bits for what is present
    bits: u16,
    count: u8,
    cut: u16,
    flips: Vec<(u16, u8)>,
}
fn cases() -> impl Strategy<Value = C> {
    let bytes = || prop_oneof![4 => prop::collection::vec(any::<u8>(), 0..80), 2 => prop::collection::vec(any::<u8>(), 250..262), 1 => (1u64..100, prop_oneof![3 => 500usize..5000, 1 => 65_530usize..66_000]).prop_map(|(a, b)| payload(a, b))];
    let few = || prop::collection::vec(any::<u8>(), 0..70);
    let h = || any::<[u8; 32]>();
    let pk = move || prop_oneof![5 => h().prop_map(Pk::Ed), 1 => few().prop_map(Pk::Overlay), 1 => h().prop_map(Pk::Aes), 1 => few().prop_map(Pk::Plain)];
    let n = || prop_oneof![2 => any::<u32>(), 1 => 0u32..4, 1 => Just(u32::MAX)];
    (
        (0u8..KINDS, [h(), h(), h()], [pk(), pk(), pk()], (bytes(), bytes(), few())),
        ([n(), n(), n(), n(), n(), n()], any::<[u64; 2]>(), prop::option::weighted(0.8, (any::<u32>(), any::<u32>()))),
        (any::<u16>(), 0u8..8, any::<u16>(), prop::collection::vec((any::<u16>(), 0u8..8), 1..4)),
    )
        .prop_map(|((what, h, pk, (x, y, z)), (n, l, addr), (bits, count, cut, flips))| C { what, h, pk, b: [x, y, z], n, l, addr, bits, count, cut, flips })
}
const KINDS: u8 = 50;

/// What was written is the published form; the published form reads back to the same thing
fn same<'a, T: TlRead<'a> + TlWrite>(c: &C, what: &str, made: B, want: &'a B) -> Result<(), Fail> {
    check!(made == *want, "{what} is written as {} bytes that differ from the published form ({} bytes)", made.len(), want.len());
    reads::<T>(c, what, want)
}
fn reads<'a, T: TlRead<'a> + TlWrite>(c: &C, what: &str, want: &'a B) -> Result<(), Fail> {
    let mut at = 0;
    match T::read_from(want, &mut at) {
        Ok(x) => {
            check!(at == want.len(), "{what}: {at} of {} bytes are read", want.len());
            let again = tl::serialize(x);
            check!(again == *want, "{what} changes when it is read and written again");
        }
        Err(e) => viol!("{what} in its published form is not read: {e}"),
    }
    if want.len() >= 4 {
        // everything is at least in part in the last word
        let n = c.cut as usize % (want.len() - 3);
        check!(T::read_from(&want[..n], &mut 0).is_err(), "{what}: {n} of {} bytes are read as if they were complete", want.len());
    }
    Ok(())
}
/// The first word tells which type it is
fn boxed<'a, T: TlRead<'a>>(c: &C, what: &str, bad: &'a B) -> Result<(), Fail> {
    if c.flips.iter().all(|x| x.0 as usize % 64 >= 4) {
        return Ok(());
    }
    let _ = T::read_from(bad, &mut 0);
    check!(T::read_from(bad, &mut 0).is_err(), "{what} is read under another constructor");
    Ok(())
}
/// Whatever it is, it ends and takes no more memory than it should
fn spoiled<'a, T: TlRead<'a>>(what: &str, d: &'a B) -> Result<(), Fail> {
    vcore::alloc::mark();
    let base = vcore::alloc::live();
    let r = T::read_from(d, &mut 0);
    let most = vcore::alloc::peak() - base;
    drop(r);
    check!(most <= 4096 + 64 * d.len() as i64, "{what}: {} bytes make the reader take {most} bytes", d.len());
    Ok(())
}
macro_rules! all {
    ($c:expr, $t:ty, $what:expr, $made:expr, $want:expr) => {{
        let want: B = $want;
        same::<$t>($c, $what, $made, &want)?;
        let bad = spoil($c, &want);
        spoiled::<$t>($what, &bad)?;
    }};
}
/// with a constructor of its own
macro_rules! own {
    ($c:expr, $t:ty, $what:expr, $made:expr, $want:expr) => {{
        let want: B = $want;
        let mut bad = want.clone();
        for (at, bit) in &$c.flips {
            let at = *at as usize % 64;
            if at < 4 {
                bad[at] ^= 1 << bit;
            }
        }
        if bad != want {
            boxed::<$t>($c, $what, &bad)?;
        }
        all!($c, $t, $what, $made, want);
    }};
}
fn spoil(c: &C, d: &B) -> B {
    let mut d = d.clone();
    let n = d.len();
    if n > 0 {
        for (at, bit) in &c.flips {
            d[*at as usize % n] ^= 1 << bit;
        }
    }
    d
}

fn codec(c: &C) -> CaseResult {
    let [h0, h1, h2] = &c.h;
    let [b0, b1, b2] = &c.b;
    let [n0, n1, n2, n3, n4, n5] = c.n;
    let w = W::new;
    let list = AddrList { addrs: c.addr.into_iter().collect(), version: n0, reinit_date: n1, priority: 0, expire_at: n2 };
    let real_list = adnl::AddressList { address: c.addr.map(|(ip, port)| adnl::Address { ip, port }), version: n0, reinit_date: n1, expire_at: n2 };
    let fec = rldp::RaptorQFecType { total_len: n3, packet_len: n4, packet_count: n5 };
    let fec_tl = w().u32(id::raptorq()).u32(n3).u32(n4).u32(n5).done();
    let cert = if c.bits & 1 == 1 {
        overlay::Certificate::Certificate { issued_by: c.pk[1].real(), expire_at: n3, max_size: n4, signature: b2 }
    } else {
        overlay::Certificate::EmptyCertificate
    };
    let cert_tl = if c.bits & 1 == 1 {
        w().u32(id::certificate()).raw(&c.pk[1].tl()).u32(n3).u32(n4).bytes(b2).done()
    } else {
        w().u32(id::empty_certificate()).done()
    };
    // DHT and overlay records
    let dnode = dht::Node { id: c.pk[0].real(), addr_list: real_list, version: n3, signature: b0 };
    let dnode_tl = list.write(w().raw(&c.pk[0].tl())).u32(n3).bytes(b0).done();
    let dkey = dht::Key { id: h0, name: b0, idx: n0 };
    let dkey_tl = w().raw(h0).bytes(b0).u32(n0).done();
    let rule = [dht::UpdateRule::Anybody, dht::UpdateRule::OverlayNodes, dht::UpdateRule::Signature][c.bits as usize % 3];
    let rule_tl = [id::rule_anybody(), id::rule_overlay_nodes(), id::rule_signature()][c.bits as usize % 3];
    let desc = dht::KeyDescription { key: dkey, id: c.pk[0].real(), update_rule: rule, signature: b1 };
    let desc_tl = w().raw(&dkey_tl).raw(&c.pk[0].tl()).u32(rule_tl).bytes(b1).done();
    let value = dht::Value { key: desc, value: b2, ttl: n1, signature: b0 };
    let value_tl = w().raw(&desc_tl).bytes(b2).u32(n1).bytes(b0).done();
    let onode = overlay::Node { id: c.pk[2].real(), overlay: h1, version: n4, signature: b1 };
    let onode_tl = w().raw(&c.pk[2].tl()).raw(h1).u32(n4).bytes(b1).done();
    let k = c.count as usize;
    let many = |one: &B| {
        let mut x = w().u32(k as u32);
        for _ in 0..k {
            x = x.raw(one);
        }
        x.done()
    };
    match c.what {
        0..=7 => {
            let q = |a: Msg| a.encode();
            let (m, t) = match c.what {
                0 => (adnl::Message::Answer { query_id: h0, answer: b0 }, q(Msg::Answer { id: *h0, data: b0.clone() })),
                1 => (adnl::Message::Custom { data: b0 }, q(Msg::Custom(b0.clone()))),
                2 => (adnl::Message::ConfirmChannel { key: h0, peer_key: h1, date: n0 }, w().u32(id::confirm_channel()).raw(h0).raw(h1).u32(n0).done()),
                3 => (adnl::Message::Part { hash: h0, total_size: n0, offset: n1, data: b0 }, w().u32(id::part()).raw(h0).u32(n0).u32(n1).bytes(b0).done()),
                4 => (adnl::Message::CreateChannel { key: h0, date: n0 }, w().u32(id::create_channel()).raw(h0).u32(n0).done()),
                5 => (adnl::Message::Query { query_id: h0, query: b0 }, q(Msg::Query { id: *h0, data: b0.clone() })),
                6 => (adnl::Message::Nop, w().u32(id::nop()).done()),
                _ => (adnl::Message::Reinit { date: n0 }, w().u32(id::reinit()).u32(n0).done()),
            };
            all!(c, adnl::Message, "an ADNL message", tl::serialize(m), t);
        }
        8 => all!(c, adnl::AddressList, "an address list", tl::serialize(real_list), list.write(w()).done()),
        9 => own!(c, adnl::Address, "an address", tl::serialize(adnl::Address { ip: n0, port: n1 }), w().u32(id::udp()).u32(n0).u32(n1).done()),
        10 => own!(c, adnl::Pong, "a pong", tl::serialize(adnl::Pong { value: c.l[0] }), w().u32(id::pong()).u64(c.l[0]).done()),
        11 => all!(c, adnl::ReinitDates, "reinit dates", tl::serialize(adnl::ReinitDates { local: n0, target: n1 }), w().u32(n0).u32(n1).done()),
        12 | 13 => packet(c, &list, &real_list)?,
        14 => {
            // several addresses: the first one counts
            let mut more = list.clone();
            more.addrs.extend((0..k as u32).map(|i| (i, n3)));
            more.priority = n4;
            let t = more.write(w()).done();
            let mut at = 0;
            match adnl::AddressList::read_from(&t, &mut at) {
                Ok(x) => {
                    check!(at == t.len() && x.address.map(|a| (a.ip, a.port)) == more.addrs.first().copied(), "a list of {} addresses is read as {x:?}", more.addrs.len());
                    check!((x.version, x.reinit_date, x.expire_at) == (n0, n1, n2), "a list of {} addresses is read as {x:?}", more.addrs.len());
                }
                Err(e) => viol!("a list of {} addresses is not read: {e}", more.addrs.len()),
            }
        }
        15 => all!(c, dht::Node, "a DHT record", tl::serialize(dnode), dnode_tl),
        16 => all!(c, dht::NodeOwned, "an owned DHT record", tl::serialize(dnode.as_equivalent_owned()), dnode_tl),
        17 => own!(c, BoxedWrapper<dht::Node>, "a boxed DHT record", tl::serialize(dnode.as_equivalent_owned().as_equivalent_ref().into_boxed()), w().u32(id::dht_node()).raw(&dnode_tl).done()),
        18 => all!(c, dht::Nodes, "DHT records", tl::serialize(dht::Nodes { nodes: vec![dnode; k].into() }), many(&dnode_tl)),
        19 => own!(
            c,
            BoxedWrapper<dht::NodesOwned>,
            "boxed DHT records",
            tl::serialize(dht::NodesOwned { nodes: vec![dnode.as_equivalent_owned(); k] }.into_boxed()),
            w().u32(id::dht_nodes()).raw(&many(&dnode_tl)).done()
        ),
        20 => all!(c, dht::Key, "a DHT key", tl::serialize(dkey), dkey_tl),
        21 => own!(c, BoxedWrapper<dht::KeyOwned>, "an owned DHT key", tl::serialize(dkey.as_equivalent_owned().into_boxed()), w().u32(id::dht_key()).raw(&dkey_tl).done()),
        22 => own!(
            c,
            BoxedWrapper<dht::KeyDescription>,
            "a key description",
            tl::serialize(desc.as_equivalent_owned().as_equivalent_ref().into_boxed()),
            w().u32(id::dht_key_description()).raw(&desc_tl).done()
        ),
        23 => all!(c, dht::KeyDescriptionOwned, "an owned key description", tl::serialize(desc.as_equivalent_owned()), desc_tl),
        24 => all!(c, dht::Value, "a DHT value", tl::serialize(value), value_tl),
        25 => own!(c, BoxedWrapper<dht::ValueOwned>, "an owned DHT value", tl::serialize(value.as_equivalent_owned().into_boxed()), w().u32(id::dht_value()).raw(&value_tl).done()),
        26 => all!(c, dht::UpdateRule, "an update rule", tl::serialize(rule), w().u32(rule_tl).done()),
        27 => own!(c, dht::Pong, "a DHT pong", tl::serialize(dht::Pong { random_id: c.l[0] }), w().u32(id::dht_pong()).u64(c.l[0]).done()),
        28 => own!(c, dht::Stored, "dht.stored", tl::serialize(dht::Stored), w().u32(id::stored()).done()),
        29 => {
            let t = w().u32(id::value_found()).u32(id::dht_value()).raw(&value_tl).done();
            let made = tl::serialize(dht::ValueResultOwned::ValueFound(value.as_equivalent_owned().into_boxed()));
            check!(made == t, "a found value is written differently from the published form");
            match tl::deserialize::<dht::ValueResult>(&t) {
                Ok(dht::ValueResult::ValueFound(BoxedWrapper(v))) => check!(tl::serialize(v) == value_tl, "a found value is read altered"),
                _ => viol!("a found value is not read"),
            }
            spoiled::<dht::ValueResult>("a found value", &spoil(c, &t))?;
        }
        30 => {
            let t = w().u32(id::value_not_found()).raw(&many(&dnode_tl)).done();
            let made = tl::serialize(dht::ValueResultOwned::ValueNotFound(dht::NodesOwned { nodes: vec![dnode.as_equivalent_owned(); k] }));
            check!(made == t, "a not-found answer is written differently from the published form");
            match tl::deserialize::<dht::ValueResult>(&t) {
                Ok(dht::ValueResult::ValueNotFound(v)) => check!(tl::serialize(v) == many(&dnode_tl), "a not-found answer is read altered"),
                _ => viol!("a not-found answer is not read"),
            }
            spoiled::<dht::ValueResult>("a not-found answer", &spoil(c, &t))?;
        }
        31 => all!(c, overlay::Node, "an overlay record", tl::serialize(onode), onode_tl),
        32 => all!(c, overlay::NodeOwned, "an owned overlay record", tl::serialize(onode.as_equivalent_owned()), onode_tl),
        33 => own!(
            c,
            BoxedWrapper<overlay::Nodes>,
            "overlay records",
            tl::serialize(overlay::Nodes { nodes: vec![onode; k].into() }.into_boxed()),
            w().u32(id::overlay_nodes()).raw(&many(&onode_tl)).done()
        ),
        34 => all!(c, overlay::NodesOwned, "owned overlay records", tl::serialize(overlay::NodesOwned { nodes: vec![onode.as_equivalent_owned(); k].into() }), many(&onode_tl)),
        35 => {
            let t = w().u32(id::overlay_node_to_sign()).raw(h0).raw(h1).u32(n0).done();
            check!(tl::serialize(overlay::NodeToSign { id: h0, overlay: h1, version: n0 }) == t, "what is signed of an overlay record");
            let t = w().u32(id::shard_public_overlay_id()).u32(n0).u64(c.l[0]).raw(h0).done();
            check!(tl::serialize(overlay::ShardPublicOverlayId { workchain: n0 as i32, shard: c.l[0], zero_state_file_hash: h0 }) == t, "a shard overlay id");
        }
        36 => own!(c, overlay::Message, "an overlay message", tl::serialize(overlay::Message { overlay: h0 }), w().u32(id::overlay_message()).raw(h0).done()),
        37 => all!(
            c,
            overlay::Broadcast,
            "a broadcast",
            tl::serialize(overlay::Broadcast::Broadcast(overlay::OverlayBroadcast { src: c.pk[0].real(), certificate: cert, flags: n0, data: b0, date: n1, signature: b1 })),
            w().u32(id::broadcast()).raw(&c.pk[0].tl()).raw(&cert_tl).u32(n0).bytes(b0).u32(n1).bytes(b1).done()
        ),
        38 => all!(
            c,
            overlay::Broadcast,
            "a broadcast part",
            tl::serialize(overlay::Broadcast::BroadcastFec(overlay::OverlayBroadcastFec {
                src: c.pk[0].real(),
                certificate: cert,
                data_hash: h0,
                data_size: n0,
                flags: n1,
                data: b0,
                seqno: n2,
                fec,
                date: n3,
                signature: b1
            })),
            w().u32(id::broadcast_fec()).raw(&c.pk[0].tl()).raw(&cert_tl).raw(h0).u32(n0).u32(n1).bytes(b0).u32(n2).raw(&fec_tl).u32(n3).bytes(b1).done()
        ),
        39 => all!(
            c,
            overlay::Broadcast,
            "a short broadcast part",
            tl::serialize(overlay::Broadcast::BroadcastFecShort { src: c.pk[0].real(), certificate: cert, broadcast_hash: h0, part_data_hash: h1, seqno: n0, signature: b0 }),
            w().u32(id::broadcast_fec_short()).raw(&c.pk[0].tl()).raw(&cert_tl).raw(h0).raw(h1).u32(n0).bytes(b0).done()
        ),
        40 => {
            let (m, t) = match c.bits % 4 {
                0 => (overlay::Broadcast::BroadcastNotFound, w().u32(id::broadcast_not_found())),
                1 => (overlay::Broadcast::FecCompleted { hash: h0 }, w().u32(id::fec_completed()).raw(h0)),
                2 => (overlay::Broadcast::FecReceived { hash: h0 }, w().u32(id::fec_received()).raw(h0)),
                _ => (overlay::Broadcast::Unicast { data: b0 }, w().u32(id::unicast()).bytes(b0)),
            };
            all!(c, overlay::Broadcast, "an overlay message", tl::serialize(m), t.done());
        }
        41 => all!(c, overlay::Certificate, "a certificate", tl::serialize(cert), cert_tl),
        42 => {
            let (m, t) = match c.bits % 3 {
                0 => (rldp::Message::Message { id: h0, data: b0 }, w().u32(id::rldp_message()).raw(h0).bytes(b0)),
                1 => (rldp::Message::Answer { query_id: h0, data: b0 }, w().u32(id::rldp_answer()).raw(h0).bytes(b0)),
                _ => (rldp::Message::Query { query_id: h0, max_answer_size: c.l[0], timeout: n0, data: b0 }, w().u32(id::rldp_query()).raw(h0).u64(c.l[0]).u32(n0).bytes(b0)),
            };
            all!(c, rldp::Message, "an RLDP message", tl::serialize(m), t.done());
        }
        43 => {
            let (m, t) = match c.bits % 3 {
                0 => (
                    rldp::MessagePart::MessagePart { transfer_id: h0, fec_type: fec, part: n0, total_size: c.l[0], seqno: n1, data: b0 },
                    w().u32(id::rldp_part()).raw(h0).raw(&fec_tl).u32(n0).u64(c.l[0]).u32(n1).bytes(b0),
                ),
                1 => (rldp::MessagePart::Confirm { transfer_id: h0, part: n0, seqno: n1 }, w().u32(id::rldp_confirm()).raw(h0).u32(n0).u32(n1)),
                _ => (rldp::MessagePart::Complete { transfer_id: h0, part: n0 }, w().u32(id::rldp_complete()).raw(h0).u32(n0)),
            };
            all!(c, rldp::MessagePart, "an RLDP part", tl::serialize(m), t.done());
        }
        44 => own!(c, rldp::RaptorQFecType, "a FEC type", tl::serialize(fec), fec_tl),
        45 => {
            own!(c, rpc::AdnlPing, "a ping", tl::serialize(rpc::AdnlPing { value: c.l[0] }), w().u32(id::ping()).u64(c.l[0]).done());
            own!(c, rpc::DhtPing, "a DHT ping", tl::serialize(rpc::DhtPing { random_id: c.l[1] }), w().u32(id::dht_ping()).u64(c.l[1]).done());
            own!(c, rpc::OverlayQuery, "an overlay query", tl::serialize(rpc::OverlayQuery { overlay: h0 }), w().u32(id::overlay_query()).raw(h0).done());
        }
        46 => {
            own!(c, rpc::DhtFindNode, "a find-node request", tl::serialize(rpc::DhtFindNode { key: h0, k: n0 }), w().u32(id::find_node()).raw(h0).u32(n0).done());
            own!(c, rpc::DhtFindValue, "a find-value request", tl::serialize(rpc::DhtFindValue { key: h0, k: n0 }), w().u32(id::find_value()).raw(h0).u32(n0).done());
            own!(c, rpc::DhtGetSignedAddressList, "a record request", tl::serialize(rpc::DhtGetSignedAddressList), w().u32(id::get_signed_address_list()).done());
        }
        47 => own!(c, rpc::DhtStore, "a store request", tl::serialize(rpc::DhtStore { value }), w().u32(id::dht_store()).raw(&value_tl).done()),
        48 => own!(c, rpc::DhtQuery, "an introduction", tl::serialize(rpc::DhtQuery { node: dnode }), w().u32(id::dht_query()).raw(&dnode_tl).done()),
        _ => {
            let t = w().u32(id::get_random_peers()).raw(&many(&onode_tl)).done();
            let owned = rpc::OverlayGetRandomPeersOwned { peers: overlay::NodesOwned { nodes: vec![onode.as_equivalent_owned(); k].into() } };
            check!(tl::serialize(owned) == t, "an owned random-peers request is written differently from the published form");
            own!(c, rpc::OverlayGetRandomPeers, "a random-peers request", tl::serialize(rpc::OverlayGetRandomPeers { peers: overlay::Nodes { nodes: vec![onode; k].into() } }), t);
        }
    }
    let _ = h2;
    Ok(c.b.iter().any(|x| x.len() >= 254))
}

/// ADNL packet contents
fn packet(c: &C, list: &AddrList, real_list: &adnl::AddressList) -> Result<(), Fail> {
    let bit = |i: u32| c.bits >> i & 1 == 1;
    let Pk::Ed(from) = &c.pk[0] else { return Ok(()) };
    let msgs: Vec<Msg> = (0..=c.count as usize % 3).map(|i| if i == 1 { Msg::Nop } else { Msg::Custom(c.b[i % 3].iter().take(500).copied().collect()) }).collect();
    let sig: Option<Vec<u8>> = bit(11).then(|| [c.h[0], c.h[1]].concat());
    let p = Packet {
        rand1: c.b[2].iter().take(if bit(12) { 7 } else { 3 }).copied().collect(),
        from: bit(0).then_some(*from),
        from_short: bit(1).then_some(c.h[2]),
        single: msgs.len() == 1 && bit(2),
        messages: msgs.clone(),
        address: bit(4).then(|| list.clone()),
        priority_address: bit(5).then(|| AddrList { version: 7, addrs: vec![(1, 2); c.count as usize % 3], ..list.clone() }),
        seqno: bit(6).then_some(c.l[0]),
        confirm: bit(7).then_some(c.l[1]),
        recv_ver: bit(8).then_some(c.n[3]),
        recv_prio_ver: bit(9).then_some(c.n[4]),
        reinit: bit(10).then_some((c.n[0], c.n[1])),
        signature: sig.clone(),
        rand2: c.b[2].iter().rev().take(7).copied().collect(),
        ..Default::default()
    };
    let t = p.encode();
    let mut at = 0;
    let got = match adnl::IncomingPacketContents::read_from(&t, &mut at) {
        Ok(g) => g,
        Err(e) => viol!("a packet (flags {:#x}) in its published form is not read: {e}", p.flags()),
    };
    check!(at == t.len(), "{at} of the {} bytes of a packet are read", t.len());
    check!(got.from.map(tl::serialize) == p.from.map(|k| pubkey_tl(&k)) && got.from_short.copied() == p.from_short, "the sender of a packet is read wrong");
    check!(got.messages.len() == msgs.len() && got.messages.iter().zip(&msgs).all(|(a, b)| tl::serialize(*a) == b.encode()), "the messages of a packet are read wrong");
    let addr = got.address.map(|a| (a.address.map(|x| (x.ip, x.port)), a.version, a.reinit_date, a.expire_at));
    check!(addr == p.address.as_ref().map(|a| (a.addrs.first().copied(), a.version, a.reinit_date, a.expire_at)), "the address of a packet is read wrong");
    check!(got.seqno == p.seqno && got.confirm_seqno == p.confirm, "the numbers of a packet are read wrong");
    check!(got.reinit_dates.map(|x| (x.local, x.target)) == p.reinit, "the dates of a packet are read wrong");
    check!(got.signature.is_some() == sig.is_some(), "the signature of a packet is read wrong");
    if let Some(s) = got.signature {
        let mut d = t.clone();
        // called once
        let r = unsafe { s.extract(&mut d) };
        let want = Packet { signature: None, ..p.clone() }.encode();
        check!(r.map(|x| (x.0.to_vec(), x.1.to_vec())) == Some((want, sig.unwrap())), "a packet without its signature is not what was signed");
    }
    spoiled::<adnl::IncomingPacketContents>("a packet", &spoil(c, &t))?;
    // the writing side
    let raw: Vec<u8> = msgs.iter().take(2).flat_map(|m| m.encode()).collect();
    let two = msgs.len() > 1;
    let sig2 = bit(11).then(|| [c.h[0], c.h[1]].concat());
    let out = adnl::OutgoingPacketContents {
        rand1: &p.rand1,
        from: bit(0).then_some(PublicKey::Ed25519 { key: from }),
        messages: if two { adnl::OutgoingMessages::Pair(&raw) } else { adnl::OutgoingMessages::Single(&raw) },
        address: *real_list,
        seqno: c.l[0],
        confirm_seqno: c.l[1],
        reinit_dates: bit(10).then_some(adnl::ReinitDates { local: c.n[0], target: c.n[1] }),
        signature: sig2.as_deref(),
        rand2: &p.rand2,
    };
    let want = Packet {
        from_short: None,
        single: !two,
        messages: msgs.iter().take(2).cloned().collect(),
        address: Some(list.clone()),
        priority_address: None,
        seqno: Some(c.l[0]),
        confirm: Some(c.l[1]),
        recv_ver: None,
        recv_prio_ver: None,
        signature: sig2.clone(),
        ..p.clone()
    };
    check!(tl::serialize(out) == want.encode(), "a packet is written differently from the published form");
    Ok(())
}

pub fn u04_run(c: &mut Ctx) {
    c.scenario("codec", "a value needs a long length prefix", 20_000, cases, codec);
}
