//! Overlays at the reference side: broadcasts written from the published scheme, and a node under test
use crate::dh::ONode;
use crate::fx::*;
use crate::rl::{compress, decompress, Symbols};
use everscale_network::overlay::{self, Overlay, OverlayOptions};
use everscale_network::{adnl, rldp};
use std::sync::{Arc, Mutex};

/// What every overlay message starts with
pub fn wrap(overlay: &B32, body: &[u8]) -> Vec<u8> {
    W::new().u32(id::overlay_message()).raw(overlay).raw(body).done()
}
pub fn unwrap(d: &[u8]) -> Option<(B32, Vec<u8>)> {
    let mut r = R(d);
    r.id(id::overlay_message())?;
    let o = r.b32()?;
    Some((o, r.0.to_vec()))
}
/// What every query to an overlay starts with
pub fn wrap_query(overlay: &B32, body: &[u8]) -> Vec<u8> {
    W::new().u32(id::overlay_query()).raw(overlay).raw(body).done()
}
pub fn no_certificate() -> Vec<u8> {
    W::new().u32(id::empty_certificate()).done()
}
fn read_cert(r: &mut R) -> Option<Vec<u8>> {
    let t = r.u32()?;
    if t == id::empty_certificate() {
        return Some(no_certificate());
    }
    if t != id::certificate() {
        return None;
    }
    let w = W::new().u32(t).raw(&pubkey_tl(&r.pubkey()?)).u32(r.u32()?).u32(r.u32()?);
    Some(w.bytes(r.bytes()?).done())
}
fn src_or_zero(public: &B32, flags: u32) -> B32 {
    if flags & 1 == 0 {
        key_id(public)
    } else {
        [0; 32]
    }
}

/// overlay.broadcast
#[derive(Clone, Debug, PartialEq)]
pub struct Bc {
    pub src: Vec<u8>,
    pub cert: Vec<u8>,
    pub flags: u32,
    pub data: Vec<u8>,
    pub date: u32,
    pub sig: Vec<u8>,
}
impl Bc {
    pub fn new(key: &Key, flags: u32, data: &[u8], date: u32) -> Bc {
        let mut b = Bc { src: pubkey_tl(&key.public), cert: no_certificate(), flags, data: data.to_vec(), date, sig: vec![] };
        b.sign(key);
        b
    }
    /// The data goes compressed, the signature is over the original
    pub fn compressed(key: &Key, flags: u32, data: &[u8], date: u32) -> Bc {
        let mut b = Self::new(key, flags, data, date);
        b.data = compress(data);
        b
    }
    pub fn sign(&mut self, key: &Key) {
        let m = Self::to_sign(&key.public, self.flags, &self.data, self.date);
        self.sig = key.sign(&m).to_vec();
    }
    pub fn to_sign(public: &B32, flags: u32, data: &[u8], date: u32) -> Vec<u8> {
        let bid = W::new().u32(id::broadcast_id()).raw(&src_or_zero(public, flags)).raw(&sha256(data)).u32(flags).done();
        W::new().u32(id::broadcast_to_sign()).raw(&sha256(&bid)).u32(date).done()
    }
    pub fn public(&self) -> Option<B32> {
        let mut r = R(&self.src);
        let p = r.pubkey()?;
        r.empty().then_some(p)
    }
    /// What has to be delivered: (the data, author, what makes it distinct)
    pub fn authentic(&self) -> Option<(Vec<u8>, B32, B32)> {
        let p = self.public()?;
        for d in decompress(&self.data).into_iter().chain([self.data.clone()]) {
            let m = Self::to_sign(&p, self.flags, &d, self.date);
            if verify(&p, &m, &self.sig) {
                return Some((d, key_id(&p), sha256(&m)));
            }
        }
        None
    }
    pub fn tl(&self) -> Vec<u8> {
        W::new().u32(id::broadcast()).raw(&self.src).raw(&self.cert).u32(self.flags).bytes(&self.data).u32(self.date).bytes(&self.sig).done()
    }
    pub fn read(d: &[u8]) -> Option<Bc> {
        let mut r = R(d);
        r.id(id::broadcast())?;
        let b = Bc {
            src: pubkey_tl(&r.pubkey()?),
            cert: read_cert(&mut r)?,
            flags: r.u32()?,
            data: r.bytes()?.to_vec(),
            date: r.u32()?,
            sig: r.bytes()?.to_vec(),
        };
        r.empty().then_some(b)
    }
}

/// overlay.broadcastFec
#[derive(Clone, Debug, PartialEq)]
pub struct Fec {
    pub src: Vec<u8>,
    pub cert: Vec<u8>,
    pub hash: B32,
    pub size: u32,
    pub flags: u32,
    pub data: Vec<u8>,
    pub seqno: u32,
    /// total length, symbol length, number of symbols
    pub fec: [u32; 3],
    pub date: u32,
    pub sig: Vec<u8>,
}
impl Fec {
    pub fn to_sign(&self) -> Option<Vec<u8>> {
        let p = self.public()?;
        let t = W::new().u32(id::raptorq()).u32(self.fec[0]).u32(self.fec[1]).u32(self.fec[2]).done();
        let bid = W::new()
            .u32(id::broadcast_fec_id())
            .raw(&src_or_zero(&p, self.flags))
            .raw(&sha256(&t))
            .raw(&self.hash)
            .u32(self.size)
            .u32(self.flags)
            .done();
        let pid = W::new().u32(id::broadcast_fec_part_id()).raw(&sha256(&bid)).raw(&sha256(&self.data)).u32(self.seqno).done();
        Some(W::new().u32(id::broadcast_to_sign()).raw(&sha256(&pid)).u32(self.date).done())
    }
    pub fn sign(&mut self, key: &Key) {
        self.sig = self.to_sign().map(|m| key.sign(&m).to_vec()).unwrap_or_default();
    }
    pub fn public(&self) -> Option<B32> {
        let mut r = R(&self.src);
        let p = r.pubkey()?;
        r.empty().then_some(p)
    }
    pub fn signed(&self) -> bool {
        match (self.public(), self.to_sign()) {
            (Some(p), Some(m)) => verify(&p, &m, &self.sig),
            _ => false,
        }
    }
    pub fn tl(&self) -> Vec<u8> {
        W::new()
            .u32(id::broadcast_fec())
            .raw(&self.src)
            .raw(&self.cert)
            .raw(&self.hash)
            .u32(self.size)
            .u32(self.flags)
            .bytes(&self.data)
            .u32(self.seqno)
            .u32(id::raptorq())
            .u32(self.fec[0])
            .u32(self.fec[1])
            .u32(self.fec[2])
            .u32(self.date)
            .bytes(&self.sig)
            .done()
    }
    pub fn read(d: &[u8]) -> Option<Fec> {
        let mut r = R(d);
        r.id(id::broadcast_fec())?;
        let (src, cert, hash, size, flags) = (pubkey_tl(&r.pubkey()?), read_cert(&mut r)?, r.b32()?, r.u32()?, r.u32()?);
        let (data, seqno) = (r.bytes()?.to_vec(), r.u32()?);
        r.id(id::raptorq())?;
        let f = Fec { src, cert, hash, size, flags, data, seqno, fec: [r.u32()?, r.u32()?, r.u32()?], date: r.u32()?, sig: r.bytes()?.to_vec() };
        r.empty().then_some(f)
    }
}
/// A large broadcast of the reference side
pub struct Sender {
    pub key: Key,
    pub data: Vec<u8>,
    pub flags: u32,
    pub hash: B32,
    pub sym: Symbols,
}
impl Sender {
    pub fn new(key: &Key, data: &[u8], flags: u32, compressed: bool, symbol: u32) -> Sender {
        let wire = if compressed { compress(data) } else { data.to_vec() };
        Sender { key: key.clone(), data: data.to_vec(), flags, hash: sha256(data), sym: Symbols::new(&wire, symbol) }
    }
    pub fn part(&self, seqno: u32, date: u32) -> Fec {
        let mut f = Fec {
            src: pubkey_tl(&self.key.public),
            cert: no_certificate(),
            hash: self.hash,
            size: self.sym.len as u32,
            flags: self.flags,
            data: self.sym.get(seqno),
            seqno,
            fec: [self.sym.len as u32, self.sym.symbol, self.sym.k()],
            date,
            sig: vec![],
        };
        f.sign(&self.key);
        f
    }
}

/// A broadcast that was handed out: (data, author, packets)
pub type Delivered = (Vec<u8>, B32, u32);

pub struct Ov {
    pub s: Sut,
    pub on: Arc<overlay::Node>,
    pub rl: Option<Arc<rldp::Node>>,
    pub o: Vec<Arc<Overlay>>,
}
pub fn oopts() -> OverlayOptions {
    OverlayOptions::default()
}
pub fn oid(o: &Overlay) -> B32 {
    *o.id().as_slice()
}
/// The n-th overlay of a case
pub fn ov_id(seed: u64, n: u64) -> B32 {
    sha256(format!("overlay {seed} {n}").as_bytes())
}
impl Ov {
    /// A started node in public overlays
    pub fn with(
        key: &Key,
        ip: std::net::Ipv4Addr,
        ao: adnl::NodeOptions,
        filter: Option<Arc<dyn adnl::PeerFilter>>,
        rldp: Option<rldp::NodeOptions>,
        overlays: &[(B32, OverlayOptions)],
        f: impl Fn(&Ev) -> Reply + Send + Sync + 'static,
    ) -> Result<Ov, Fail> {
        let (node, addr) = new_node(std::slice::from_ref(key), ip, ao, filter)?;
        let on = overlay::Node::new(node.clone(), 0).map_err(|e| Fail::Harness(format!("overlay: {e}")))?;
        let events = Arc::new(Mutex::new(vec![]));
        let rl = match rldp {
            Some(o) => Some(rldp::Node::new(node.clone(), vec![on.query_subscriber()], o).map_err(|e| Fail::Harness(format!("rldp: {e}")))?),
            None => None,
        };
        let r = Recorder::new(&events, 0, f);
        node.add_query_subscriber(r.clone()).unwrap();
        node.add_message_subscriber(r).unwrap();
        let mut o = vec![];
        for (i, opt) in overlays {
            let (x, new) = on.add_public_overlay(&overlay::IdShort::new(*i), *opt);
            need!(new, "an overlay exists");
            o.push(x);
        }
        node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
        Ok(Ov { s: Sut { node, keys: vec![key.clone()], addr, events }, on, rl, o })
    }
    pub fn new(key: &Key, overlays: &[(B32, OverlayOptions)]) -> Result<Ov, Fail> {
        Self::with(key, LOCAL, opts(), None, None, overlays, default_reply)
    }
    pub fn add(&self, k: usize, n: &ONode, addr: std::net::SocketAddrV4) -> Option<B32> {
        let x = n.owned();
        let r = self.o[k].add_public_peer(&self.s.node, addr, x.as_equivalent_ref());
        r.ok().flatten().map(|x| *x.as_slice())
    }
    /// Connected members of the k-th overlay
    pub async fn members(&self, k: usize, keys: &[Key]) -> Result<Vec<RefPeer>, Fail> {
        let mut v = vec![];
        for key in keys {
            let mut p = RefPeer::new(key.clone(), &self.s);
            p.connect().await?;
            let n = ONode::new(key, &oid(&self.o[k]), 1);
            need!(self.add(k, &n, p.addr()).is_some(), "a member is refused");
            v.push(p);
        }
        Ok(v)
    }
    /// What was received, without leaving anybody waiting
    pub async fn drain(&self, k: usize) -> Vec<Delivered> {
        let mut v = vec![];
        while self.o[k].metrics().received_broadcasts_data_len > 0 {
            let b = self.o[k].wait_for_broadcast().await;
            v.push((b.data, *b.from.as_slice(), b.packets));
        }
        v
    }
}

/// Sends a custom message and waits until the node has handled it
pub async fn send_custom(p: &mut RefPeer, d: &[u8]) -> Result<Vec<Vec<u8>>, Fail> {
    p.send_msg(false, Msg::Custom(d.to_vec()));
    mark(p).await
}
/// Waits until everything sent by this peer so far is handled; returns the custom messages it got meanwhile
pub async fn mark(p: &mut RefPeer) -> Result<Vec<Vec<u8>>, Fail> {
    let q = sha256(&[&p.link.sent[0].to_le_bytes()[..], &p.link.sent[1].to_le_bytes()[..], b"mark"].concat());
    p.send_msg(false, Msg::Query { id: q, data: vec![7, 7, 7, 8] });
    let mut got = vec![];
    let mut ok = false;
    until(|| {
        for m in p.msgs() {
            match m {
                Msg::Custom(d) => got.push(d),
                Msg::Answer { id, .. } if id == q => ok = true,
                _ => {}
            }
        }
        ok
    })
    .await;
    if !ok {
        return Err(Fail::Viol("the node does not answer any more".into()));
    }
    settle().await;
    got.extend(customs(p));
    Ok(got)
}
/// Custom messages that have arrived
pub fn customs(p: &mut RefPeer) -> Vec<Vec<u8>> {
    p.msgs().into_iter().filter_map(|m| if let Msg::Custom(d) = m { Some(d) } else { None }).collect()
}
