//! DHT: reference encodings, a node under test with a DHT on top, reference DHT peers.
use crate::fx::*;
use everscale_network::{adnl, dht, proto, tl};
use std::net::SocketAddrV4;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- node records

/// The contents of `dht.node` (bare)
#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub id: Vec<u8>, // boxed PublicKey
    pub addrs: AddrList,
    pub version: u32,
    pub sig: Vec<u8>,
}
impl Rec {
    pub fn new(key: &Key, addr: SocketAddrV4, version: u32) -> Rec {
        Self::with(key, AddrList::one(addr, version, 0, 0), version)
    }
    pub fn with(key: &Key, addrs: AddrList, version: u32) -> Rec {
        let mut r = Rec { id: pubkey_tl(&key.public), addrs, version, sig: vec![] };
        r.sign(key);
        r
    }
    fn body(&self, sig: &[u8]) -> Vec<u8> {
        self.addrs.write(W::new().raw(&self.id)).u32(self.version).bytes(sig).done()
    }
    pub fn to_sign(&self) -> Vec<u8> {
        [&id::dht_node().to_le_bytes()[..], &self.body(&[])].concat()
    }
    pub fn sign(&mut self, key: &Key) {
        self.sig = key.sign(&self.to_sign()).to_vec();
    }
    pub fn tl(&self) -> Vec<u8> {
        self.body(&self.sig)
    }
    pub fn read(r: &mut R) -> Option<Rec> {
        let id = read_pubkey(r)?;
        Some(Rec { id, addrs: AddrList::read(r)?, version: r.u32()?, sig: r.bytes()?.to_vec() })
    }
    pub fn public(&self) -> Option<B32> {
        R(&self.id).pubkey()
    }
    pub fn short(&self) -> Option<B32> {
        self.public().map(|p| key_id(&p))
    }
    pub fn signed(&self) -> bool {
        self.public().map(|p| verify(&p, &self.to_sign(), &self.sig)).unwrap_or(false)
    }
    pub fn owned(&self) -> proto::dht::NodeOwned {
        tl::deserialize(&self.tl()).expect("record")
    }
}
pub fn read_pubkey(r: &mut R) -> Option<Vec<u8>> {
    let start = r.0;
    let t = r.u32()?;
    if t == id::pub_ed25519() || t == id::pub_aes() {
        r.b32()?;
    } else if t == id::pub_overlay() || t == id::pub_unenc() {
        r.bytes()?;
    } else {
        return None;
    }
    Some(start[..start.len() - r.0.len()].to_vec())
}
pub fn overlay_pub(name: &[u8]) -> Vec<u8> {
    W::new().u32(id::pub_overlay()).bytes(name).done()
}
pub fn nodes_tl(recs: &[Rec]) -> Vec<u8> {
    recs.iter().fold(W::new().u32(recs.len() as u32), |w, r| w.raw(&r.tl())).done()
}
pub fn read_nodes(r: &mut R) -> Option<Vec<Rec>> {
    let n = r.u32()?;
    (0..n).map(|_| Rec::read(r)).collect()
}

// ---------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct DKey {
    pub id: B32,
    pub name: Vec<u8>,
    pub idx: u32,
}
impl DKey {
    pub fn tl(&self) -> Vec<u8> {
        W::new().raw(&self.id).bytes(&self.name).u32(self.idx).done()
    }
    pub fn hash(&self) -> B32 {
        sha256(&[&id::dht_key().to_le_bytes()[..], &self.tl()].concat())
    }
}
/// `dht.value` (bare)
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
    pub key: DKey,
    pub owner: Vec<u8>, // boxed PublicKey
    pub rule: u32,
    pub key_sig: Vec<u8>,
    pub value: Vec<u8>,
    pub ttl: u32,
    pub sig: Vec<u8>,
}
impl Val {
    pub fn signed(owner: &Key, name: &[u8], idx: u32, value: &[u8], ttl: u32) -> Val {
        let mut v = Val {
            key: DKey { id: owner.id, name: name.to_vec(), idx },
            owner: pubkey_tl(&owner.public),
            rule: id::rule_signature(),
            key_sig: vec![],
            value: value.to_vec(),
            ttl,
            sig: vec![],
        };
        v.sign(owner);
        v
    }
    pub fn overlay(name: &[u8], value: &[u8], ttl: u32) -> Val {
        let owner = overlay_pub(name);
        Val {
            key: DKey { id: sha256(&owner), name: b"nodes".to_vec(), idx: 0 },
            owner,
            rule: id::rule_overlay_nodes(),
            key_sig: vec![],
            value: value.to_vec(),
            ttl,
            sig: vec![],
        }
    }
    pub fn sign(&mut self, k: &Key) {
        self.sign_key(k);
        self.sign_value(k);
    }
    pub fn sign_key(&mut self, k: &Key) {
        self.key_sig = k.sign(&self.key_to_sign()).to_vec();
    }
    pub fn sign_value(&mut self, k: &Key) {
        self.sig = k.sign(&self.value_to_sign()).to_vec();
    }
    fn desc(&self, sig: &[u8]) -> Vec<u8> {
        W::new().raw(&self.key.tl()).raw(&self.owner).u32(self.rule).bytes(sig).done()
    }
    fn body(&self, sig: &[u8]) -> Vec<u8> {
        W::new().raw(&self.desc(&self.key_sig)).bytes(&self.value).u32(self.ttl).bytes(sig).done()
    }
    pub fn key_to_sign(&self) -> Vec<u8> {
        [&id::dht_key_description().to_le_bytes()[..], &self.desc(&[])].concat()
    }
    pub fn value_to_sign(&self) -> Vec<u8> {
        [&id::dht_value().to_le_bytes()[..], &self.body(&[])].concat()
    }
    pub fn tl(&self) -> Vec<u8> {
        self.body(&self.sig)
    }
    pub fn read(r: &mut R) -> Option<Val> {
        let key = DKey { id: r.b32()?, name: r.bytes()?.to_vec(), idx: r.u32()? };
        let owner = read_pubkey(r)?;
        Some(Val {
            key,
            owner,
            rule: r.u32()?,
            key_sig: r.bytes()?.to_vec(),
            value: r.bytes()?.to_vec(),
            ttl: r.u32()?,
            sig: r.bytes()?.to_vec(),
        })
    }
    /// Whether the owner signed exactly this under the signature rule
    pub fn authentic_signed(&self) -> bool {
        if self.rule != id::rule_signature() || self.key.id != sha256(&self.owner) {
            return false;
        }
        let Some(p) = R(&self.owner).pubkey() else { return false };
        verify(&p, &self.key_to_sign(), &self.key_sig) && verify(&p, &self.value_to_sign(), &self.sig)
    }
    /// Whether the frame of an overlay list is as its rule requires
    pub fn overlay_frame(&self) -> bool {
        self.rule == id::rule_overlay_nodes()
            && self.key.id == sha256(&self.owner)
            && R(&self.owner).u32() == Some(id::pub_overlay())
            && self.key.name == b"nodes"
            && self.key.idx == 0
            && self.key_sig.is_empty()
            && self.sig.is_empty()
    }
    /// The members of an overlay list, if it can be read
    pub fn members(&self) -> Option<Vec<ONode>> {
        // bytes after the list are not part of it
        let mut r = R(&self.value);
        r.id(id::overlay_nodes())?;
        ONode::read_list(&mut r)
    }
    pub fn store_query(&self) -> Vec<u8> {
        W::new().u32(id::dht_store()).raw(&self.tl()).done()
    }
    pub fn found(&self) -> Vec<u8> {
        W::new().u32(id::value_found()).u32(id::dht_value()).raw(&self.tl()).done()
    }
}

/// `overlay.node` (bare)
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ONode {
    pub id: Vec<u8>,
    pub overlay: B32,
    pub version: u32,
    pub sig: Vec<u8>,
}
impl ONode {
    pub fn new(key: &Key, overlay: &B32, version: u32) -> ONode {
        let mut n = ONode { id: pubkey_tl(&key.public), overlay: *overlay, version, sig: vec![] };
        n.sig = key.sign(&n.to_sign().unwrap()).to_vec();
        n
    }
    pub fn to_sign(&self) -> Option<Vec<u8>> {
        let p = R(&self.id).pubkey()?;
        Some(W::new().u32(id::overlay_node_to_sign()).raw(&key_id(&p)).raw(&self.overlay).u32(self.version).done())
    }
    pub fn valid_for(&self, overlay: &B32) -> bool {
        let (Some(p), Some(m)) = (R(&self.id).pubkey(), self.to_sign()) else { return false };
        self.overlay == *overlay && verify(&p, &m, &self.sig)
    }
    pub fn short(&self) -> Option<B32> {
        R(&self.id).pubkey().map(|p| key_id(&p))
    }
    pub fn tl(&self) -> Vec<u8> {
        W::new().raw(&self.id).raw(&self.overlay).u32(self.version).bytes(&self.sig).done()
    }
    pub fn read(r: &mut R) -> Option<ONode> {
        Some(ONode { id: read_pubkey(r)?, overlay: r.b32()?, version: r.u32()?, sig: r.bytes()?.to_vec() })
    }
    pub fn list(l: &[ONode]) -> Vec<u8> {
        l.iter().fold(W::new().u32(id::overlay_nodes()).u32(l.len() as u32), |w, n| w.raw(&n.tl())).done()
    }
    pub fn read_boxed(d: &[u8]) -> Option<Vec<ONode>> {
        let mut r = R(d);
        r.id(id::overlay_nodes())?;
        let v = Self::read_list(&mut r)?;
        r.empty().then_some(v)
    }
    pub fn read_list(r: &mut R) -> Option<Vec<ONode>> {
        let n = r.u32()?;
        (0..n).map(|_| ONode::read(r)).collect()
    }
    pub fn owned(&self) -> proto::overlay::NodeOwned {
        tl::deserialize(&self.tl()).expect("overlay node")
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Found {
    Value(Val),
    Nodes(Vec<Rec>),
}
pub fn parse_found(d: &[u8]) -> Option<Found> {
    let mut r = R(d);
    let t = r.u32()?;
    let f = if t == id::value_found() {
        r.id(id::dht_value())?;
        Found::Value(Val::read(&mut r)?)
    } else if t == id::value_not_found() {
        Found::Nodes(read_nodes(&mut r)?)
    } else {
        return None;
    };
    r.empty().then_some(f)
}
pub fn parse_nodes(d: &[u8]) -> Option<Vec<Rec>> {
    let mut r = R(d);
    r.id(id::dht_nodes())?;
    let v = read_nodes(&mut r)?;
    r.empty().then_some(v)
}
pub fn find_value_query(key: &B32, k: u32) -> Vec<u8> {
    W::new().u32(id::find_value()).raw(key).u32(k).done()
}
pub fn find_node_query(key: &B32, k: u32) -> Vec<u8> {
    W::new().u32(id::find_node()).raw(key).u32(k).done()
}
pub fn not_found(recs: &[Rec]) -> Vec<u8> {
    W::new().u32(id::value_not_found()).raw(&nodes_tl(recs)).done()
}
pub fn nodes_answer(recs: &[Rec]) -> Vec<u8> {
    W::new().u32(id::dht_nodes()).raw(&nodes_tl(recs)).done()
}
pub fn stored() -> Vec<u8> {
    W::new().u32(id::stored()).done()
}
pub fn intro(rec: &Rec, q: &[u8]) -> Vec<u8> {
    W::new().u32(id::dht_query()).raw(&rec.tl()).raw(q).done()
}

/// How many leading bits are equal
pub fn prefix(a: &B32, b: &B32) -> usize {
    for i in 0..32 {
        let d = a[i] ^ b[i];
        if d != 0 {
            return i * 8 + d.leading_zeros() as usize;
        }
    }
    256
}

// ---------------------------------------------------------------- the node under test

pub struct Dht {
    pub s: Sut,
    pub d: Arc<dht::Node>,
}
pub fn dopts() -> dht::NodeOptions {
    dht::NodeOptions::default()
}
impl Dht {
    pub fn new(key: &Key, o: dht::NodeOptions) -> Result<Dht, Fail> {
        Self::with(key, LOCAL, opts(), o, None)
    }
    pub fn with(
        key: &Key,
        ip: std::net::Ipv4Addr,
        ao: adnl::NodeOptions,
        o: dht::NodeOptions,
        filter: Option<Arc<dyn adnl::PeerFilter>>,
    ) -> Result<Dht, Fail> {
        let (node, addr) = new_node(std::slice::from_ref(key), ip, ao, filter)?;
        let d = dht::Node::new(node.clone(), 0, o).map_err(|e| Fail::Harness(format!("dht: {e}")))?;
        let events = Arc::new(Mutex::new(vec![]));
        // whatever the DHT does not take
        let r = Recorder::new(&events, 0, default_reply);
        node.add_query_subscriber(r.clone()).unwrap();
        node.add_message_subscriber(r).unwrap();
        node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
        Ok(Dht { s: Sut { node, keys: vec![key.clone()], addr, events }, d })
    }
    /// Stores locally; whether it was not refused
    pub fn store_local(&self, v: &Val) -> bool {
        let t = v.tl();
        let v: proto::dht::Value = tl::deserialize(&t).expect("value");
        match self.d.store_value(v) {
            Ok(f) => {
                f.only_locally();
                true
            }
            Err(_) => false,
        }
    }
    pub fn known(&self) -> Vec<B32> {
        let mut v: Vec<B32> = self.d.iter_known_peers().map(|x| *x.as_slice()).collect();
        v.sort();
        v
    }
}

/// What `peer` gets for a value search
pub async fn ask_value(peer: &mut RefPeer, key: &B32, k: u32) -> Result<Found, Fail> {
    match peer.query(false, &find_value_query(key, k)).await {
        Some(a) => parse_found(&a).ok_or_else(|| Fail::Viol(format!("unreadable answer to a value search: {}", hex::encode(&a)))),
        None => Err(Fail::Viol("no answer to a valid value search".into())),
    }
}
/// Sends a query and gives the node time to answer; for queries that may stay without an answer.
/// A marker query after it tells when the node has handled it.
pub async fn try_query(peer: &mut RefPeer, q: &[u8]) -> Result<Option<Vec<u8>>, Fail> {
    let qid = sha256(&[&peer.link.sent[0].to_le_bytes()[..], &peer.link.sent[1].to_le_bytes()[..], q, b"try"].concat());
    let mid = sha256(&[&qid[..], b"mark"].concat());
    peer.send_msg(false, Msg::Query { id: qid, data: q.to_vec() });
    settle().await;
    peer.send_msg(false, Msg::Query { id: mid, data: W::new().u32(id::dht_ping()).u64(77).done() });
    let (mut a, mut m) = (None, false);
    until(|| {
        for x in peer.msgs() {
            if let Msg::Answer { id, data } = x {
                if id == qid {
                    a = Some(data);
                } else if id == mid {
                    m = true;
                }
            }
        }
        m
    })
    .await;
    check!(m, "an honest ping stays without an answer");
    if a.is_none() {
        settle().await;
        for x in peer.msgs() {
            if let Msg::Answer { id, data } = x {
                if id == qid {
                    a = Some(data);
                }
            }
        }
    }
    Ok(a)
}

// ---------------------------------------------------------------- reference DHT peers

/// Answers of a reference peer: given the query (without a self-introduction), what to reply
pub type Serve = Box<dyn FnMut(&[u8]) -> Vec<Vec<u8>>>;
pub struct Server {
    pub p: RefPeer,
    pub f: Serve,
    /// queries that arrived
    pub got: Vec<Vec<u8>>,
    /// records the node introduced itself with
    pub intros: Vec<Rec>,
}
impl Server {
    pub fn new(key: Key, d: &Dht, f: impl FnMut(&[u8]) -> Vec<Vec<u8>> + 'static) -> Server {
        Server { p: RefPeer::new(key, &d.s), f: Box::new(f), got: vec![], intros: vec![] }
    }
    pub fn rec(&self, version: u32) -> Rec {
        Rec::new(self.p.key(), self.p.addr(), version)
    }
    pub fn poll(&mut self) -> bool {
        let mut any = false;
        for m in self.p.msgs() {
            any = true;
            if let Msg::Query { id: qid, data } = m {
                let mut r = R(&data);
                let mut q = &data[..];
                if r.id(id::dht_query()).is_some() {
                    if let Some(rec) = Rec::read(&mut r) {
                        self.intros.push(rec);
                        q = r.0;
                    }
                }
                self.got.push(q.to_vec());
                for a in (self.f)(q) {
                    self.p.send_msg(false, Msg::Answer { id: qid, data: a });
                }
            }
        }
        any
    }
}

/// Runs a task of the node against the reference peers; None if it has not ended after `ms`
pub async fn drive<T: Send + 'static>(
    servers: &mut [Server],
    ms: u64,
    fut: impl std::future::Future<Output = T> + Send + 'static,
) -> Result<Option<T>, Fail> {
    let h = tokio::spawn(fut);
    let end = clock::ms() + ms;
    let mut idle = 0;
    loop {
        yields(10).await;
        let mut any = false;
        for s in servers.iter_mut() {
            any |= s.poll();
        }
        if h.is_finished() {
            // what was still under way
            settle().await;
            for s in servers.iter_mut() {
                s.poll();
            }
            return h.await.map(Some).map_err(|e| Fail::Viol(format!("a task of the node ended by {e}")));
        }
        if any {
            idle = 0;
            continue;
        }
        idle += 1;
        if idle < 2 {
            continue;
        }
        if clock::ms() >= end {
            h.abort();
            return Ok(None);
        }
        clock::advance_ms(50);
        idle = 0;
    }
}
/// Key of a value search
pub fn find_value_key(q: &[u8]) -> Option<(B32, u32)> {
    let mut r = R(q);
    r.id(id::find_value())?;
    let x = (r.b32()?, r.u32()?);
    r.empty().then_some(x)
}
