//! Fixtures: a node under test, reference peers, an intercepted network, pumping.
use everscale_network::adnl::{self, NodeIdFull, NodeIdShort, NodeOptions};
use everscale_network::{MessageSubscriber, QueryConsumingResult, QuerySubscriber, SubscriberContext};
use std::borrow::Cow;
use std::future::Future;
use std::net::{Ipv4Addr, SocketAddrV4};
use std::sync::{Arc, Mutex};
pub use vcore::adnl::*;
pub use vcore::crypto::*;
pub use vcore::net::{self, Sock};
pub use vcore::tl::{id, R, W};
pub use vcore::{check, clock, need, viol, CaseResult, Ctx, Fail};

pub fn run<F: Future<Output = CaseResult>>(f: F) -> CaseResult {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(Fail::from)?;
    let r = rt.block_on(f);
    drop(rt);
    r
}

/// On several threads and in real time
pub fn run_mt<F: Future<Output = CaseResult>>(f: F) -> CaseResult {
    clock::stop();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().map_err(Fail::from)?;
    let r = rt.block_on(f);
    rt.shutdown_timeout(std::time::Duration::from_secs(5));
    clock::start();
    r
}

pub async fn yields(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Lets the node handle everything that has arrived (used before negative expectations)
pub async fn settle() {
    yields(14).await;
}

/// Waits in real time until `f` holds; virtual time does not move
pub async fn until(mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..60 {
        if f() {
            return true;
        }
        tokio::task::yield_now().await;
    }
    let t0 = clock::real_ms();
    loop {
        if f() {
            return true;
        }
        yields(4).await;
        let el = clock::real_ms() - t0;
        if el > vcore::runner::patience() {
            return f();
        }
        std::thread::sleep(std::time::Duration::from_micros(if el < 5 { 20 } else { 500 }));
    }
}

/// Advances virtual time in steps, letting the node run in between
pub async fn advance(ms: u64, step: u64) {
    let mut left = ms;
    while left > 0 {
        let s = step.min(left);
        clock::advance_ms(s);
        left -= s;
        yields(6).await;
    }
    settle().await;
}

pub fn short(id: &B32) -> NodeIdShort {
    NodeIdShort::new(*id)
}
pub fn full(public: &B32) -> NodeIdFull {
    NodeIdFull::new(everscale_network::crypto::ed25519::PublicKey::from_bytes(*public).expect("public key"))
}
pub fn pubkey_tl(k: &B32) -> Vec<u8> {
    W::new().u32(id::pub_ed25519()).raw(k).done()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ev {
    /// index of the subscriber
    pub sub: usize,
    pub query: bool,
    pub local: B32,
    pub peer: B32,
    pub constructor: u32,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Reply {
    Answer(Vec<u8>),
    NoAnswer,
    Reject,
    Error,
}

type Behave = dyn Fn(&Ev) -> Reply + Send + Sync;

/// A subscriber that lets others run before and after it decides
pub struct Slow(pub Arc<Recorder>, pub usize);

#[async_trait::async_trait]
impl QuerySubscriber for Slow {
    async fn try_consume_query<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, query: Cow<'a, [u8]>) -> anyhow::Result<QueryConsumingResult<'a>> {
        yields(self.1).await;
        let r = self.0.try_consume_query(ctx, constructor, query).await;
        yields(self.1).await;
        r
    }
}

#[async_trait::async_trait]
impl MessageSubscriber for Slow {
    async fn try_consume_custom<'a>(&self, ctx: SubscriberContext<'a>, constructor: u32, data: &'a [u8]) -> anyhow::Result<bool> {
        yields(self.1).await;
        let r = self.0.try_consume_custom(ctx, constructor, data).await;
        yields(self.1).await;
        r
    }
}

/// Records what it is offered and replies as told
pub struct Recorder {
    pub events: Arc<Mutex<Vec<Ev>>>,
    pub sub: usize,
    pub behave: Box<Behave>,
}

impl Recorder {
    pub fn new(events: &Arc<Mutex<Vec<Ev>>>, sub: usize, f: impl Fn(&Ev) -> Reply + Send + Sync + 'static) -> Arc<Recorder> {
        Arc::new(Recorder { events: events.clone(), sub, behave: Box::new(f) })
    }
}

#[async_trait::async_trait]
impl QuerySubscriber for Recorder {
    async fn try_consume_query<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        query: Cow<'a, [u8]>,
    ) -> anyhow::Result<QueryConsumingResult<'a>> {
        let ev = Ev {
            sub: self.sub,
            query: true,
            local: *ctx.local_id.as_slice(),
            peer: *ctx.peer_id.as_slice(),
            constructor,
            data: query.to_vec(),
        };
        let r = (self.behave)(&ev);
        self.events.lock().unwrap().push(ev);
        match r {
            Reply::Answer(a) => Ok(QueryConsumingResult::Consumed(Some(a))),
            Reply::NoAnswer => Ok(QueryConsumingResult::Consumed(None)),
            Reply::Reject => Ok(QueryConsumingResult::Rejected(query)),
            Reply::Error => Err(anyhow::anyhow!("told to fail")),
        }
    }
}

#[async_trait::async_trait]
impl MessageSubscriber for Recorder {
    async fn try_consume_custom<'a>(
        &self,
        ctx: SubscriberContext<'a>,
        constructor: u32,
        data: &'a [u8],
    ) -> anyhow::Result<bool> {
        let ev = Ev {
            sub: self.sub,
            query: false,
            local: *ctx.local_id.as_slice(),
            peer: *ctx.peer_id.as_slice(),
            constructor,
            data: data.to_vec(),
        };
        let r = (self.behave)(&ev);
        self.events.lock().unwrap().push(ev);
        match r {
            Reply::Answer(_) | Reply::NoAnswer => Ok(true),
            Reply::Reject => Ok(false),
            Reply::Error => Err(anyhow::anyhow!("told to fail")),
        }
    }
}

/// The answer the default handler gives to a query
pub fn answer_for(q: &[u8]) -> Vec<u8> {
    let mut a = vec![0xA5, 0x5A, 1, 2];
    a.extend_from_slice(&sha256(q)[..8]);
    a.extend(q.iter().rev());
    a
}

pub fn default_reply(ev: &Ev) -> Reply {
    Reply::Answer(answer_for(&ev.data))
}

pub struct Sut {
    pub node: Arc<adnl::Node>,
    pub keys: Vec<Key>,
    /// advertised address
    pub addr: SocketAddrV4,
    pub events: Arc<Mutex<Vec<Ev>>>,
}

pub fn opts() -> NodeOptions {
    NodeOptions::default()
}

pub fn new_node(
    keys: &[Key],
    ip: Ipv4Addr,
    options: NodeOptions,
    filter: Option<Arc<dyn adnl::PeerFilter>>,
) -> Result<(Arc<adnl::Node>, SocketAddrV4), Fail> {
    for _ in 0..50 {
        let mut b = adnl::Keystore::builder();
        for (i, k) in keys.iter().enumerate() {
            b = b.with_tagged_key(k.seed, i).map_err(|e| Fail::Harness(format!("keystore: {e}")))?;
        }
        let addr = SocketAddrV4::new(ip, net::port());
        if let Ok(n) = adnl::Node::new(addr, b.build(), options, filter.clone()) {
            return Ok((n, addr));
        }
    }
    Err(Fail::Harness("cannot bind a node".into()))
}

impl Sut {
    /// A started node with one recording subscriber for queries and custom messages
    pub fn with(
        keys: &[Key],
        ip: Ipv4Addr,
        options: NodeOptions,
        f: impl Fn(&Ev) -> Reply + Send + Sync + 'static,
    ) -> Result<Sut, Fail> {
        let (node, addr) = new_node(keys, ip, options, None)?;
        let events = Arc::new(Mutex::new(vec![]));
        let r = Recorder::new(&events, 0, f);
        node.add_query_subscriber(r.clone()).unwrap();
        node.add_message_subscriber(r).unwrap();
        node.start().map_err(|e| Fail::Harness(format!("start: {e}")))?;
        Ok(Sut { node, keys: keys.to_vec(), addr, events })
    }
    pub fn new(key: &Key, options: NodeOptions) -> Result<Sut, Fail> {
        Self::with(std::slice::from_ref(key), LOCAL, options, default_reply)
    }
    pub fn id(&self) -> NodeIdShort {
        short(&self.keys[0].id)
    }
    pub fn key(&self) -> &Key {
        &self.keys[0]
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.events.lock().unwrap())
    }
    pub fn count(&self) -> usize {
        self.events.lock().unwrap().len()
    }
    /// Where the kernel delivers to this node for sure
    pub fn direct(&self) -> SocketAddrV4 {
        SocketAddrV4::new(Ipv4Addr::LOCALHOST, self.addr.port())
    }
    pub fn add_peer(&self, key: &Key, addr: SocketAddrV4) -> bool {
        self.add_peer_for(0, key, addr)
    }
    pub fn add_peer_for(&self, k: usize, key: &Key, addr: SocketAddrV4) -> bool {
        self.node
            .add_peer(adnl::NewPeerContext::Dht, &short(&self.keys[k].id), &short(&key.id), addr, full(&key.public))
            .unwrap_or(false)
    }
}

impl Drop for Sut {
    fn drop(&mut self) {
        self.node.shutdown();
    }
}

pub const LOCAL: Ipv4Addr = Ipv4Addr::new(127, 0, 0, 1);

/// A reference peer with its own socket
pub struct RefPeer {
    pub link: Link,
    pub sock: std::rc::Rc<Sock>,
    pub to: SocketAddrV4,
    parts: std::collections::HashMap<B32, (u32, std::collections::BTreeMap<u32, Vec<u8>>)>,
    /// datagrams that could not be opened
    pub unopened: Vec<Vec<u8>>,
}

impl RefPeer {
    pub fn new(me: Key, sut: &Sut) -> RefPeer {
        Self::to_key(me, &sut.keys[0], sut.direct())
    }
    pub fn to_key(me: Key, remote: &Key, to: SocketAddrV4) -> RefPeer {
        let sock = std::rc::Rc::new(Sock::any());
        RefPeer { link: Link::new(me, sock.addr, remote.public), sock, to, parts: Default::default(), unopened: vec![] }
    }
    pub fn key(&self) -> &Key {
        &self.link.me
    }
    pub fn id(&self) -> NodeIdShort {
        short(&self.link.me.id)
    }
    pub fn addr(&self) -> SocketAddrV4 {
        self.sock.addr
    }
    pub fn raw(&self, d: &[u8]) {
        self.sock.send(d, self.to)
    }
    pub fn send(&mut self, prio: bool, msgs: Vec<Msg>) {
        let d = self.link.packet(prio, msgs);
        self.raw(&d)
    }
    /// One message of any size
    pub fn send_msg(&mut self, prio: bool, m: Msg) {
        for d in self.link.datagrams(prio, m) {
            self.raw(&d)
        }
    }
    /// Everything that has arrived, opened
    pub fn poll(&mut self) -> Vec<Got> {
        let mut out = vec![];
        while let Some((d, _)) = self.sock.recv() {
            match self.link.open(&d) {
                Some(g) => out.push(g),
                None => self.unopened.push(d),
            }
        }
        out
    }
    /// Everything that has arrived as whole messages (without the channel ones)
    pub fn msgs(&mut self) -> Vec<Msg> {
        let g = self.poll();
        self.assemble(g)
    }
    pub fn assemble(&mut self, got: Vec<Got>) -> Vec<Msg> {
        let mut out = vec![];
        for m in got.into_iter().flat_map(|g| g.packet.messages) {
            match m {
                Msg::Part { hash, total, offset, data } => {
                    let e = self.parts.entry(hash).or_insert((total, Default::default()));
                    e.1.insert(offset, data);
                    let mut whole = vec![];
                    for (o, d) in &e.1 {
                        if *o as usize != whole.len() {
                            break;
                        }
                        whole.extend_from_slice(d);
                    }
                    if whole.len() == total as usize && sha256(&whole) == hash {
                        self.parts.remove(&hash);
                        if let Some(m) = Msg::read(&mut R(&whole)) {
                            out.push(m);
                        }
                    }
                }
                Msg::Create { .. } | Msg::Confirm { .. } => {}
                m => out.push(m),
            }
        }
        out
    }
    /// Sends a query and waits for its answer (real time; virtual time stands still)
    pub async fn query(&mut self, prio: bool, data: &[u8]) -> Option<Vec<u8>> {
        let q = sha256(&[&self.link.sent[0].to_le_bytes()[..], &self.link.sent[1].to_le_bytes()[..], data].concat());
        self.send_msg(prio, Msg::Query { id: q, data: data.to_vec() });
        self.wait_answer(q).await
    }
    pub async fn wait_answer(&mut self, q: B32) -> Option<Vec<u8>> {
        let mut r = None;
        until(|| {
            for m in self.msgs() {
                if let Msg::Answer { id, data } = m {
                    if id == q {
                        r = Some(data);
                    }
                }
            }
            r.is_some()
        })
        .await;
        r
    }
    /// Establishes a channel with the node (which learns this peer from the first packet)
    pub async fn connect(&mut self) -> Result<(), Fail> {
        for i in 0..3u32 {
            if self.query(false, &[&[7, 7, 7, 7], &i.to_le_bytes()[..]].concat()).await.is_none() {
                return Err(Fail::Harness("no answer while connecting".into()));
            }
            if self.link.ready {
                return Ok(());
            }
        }
        Err(Fail::Harness("no channel".into()))
    }
}

/// Intercepts what nodes send to each other's advertised addresses
pub struct Tap {
    pub sock: Sock,
    pub node_addr: SocketAddrV4,
}

impl Tap {
    pub fn new(sut_addr: SocketAddrV4) -> Result<Tap, Fail> {
        let sock = Sock::tap(sut_addr).map_err(|e| Fail::Harness(format!("tap: {e}")))?;
        Ok(Tap { sock, node_addr: SocketAddrV4::new(Ipv4Addr::LOCALHOST, sut_addr.port()) })
    }
    /// Datagrams sent to the node, with the sender's port
    pub fn recv(&self) -> Option<(Vec<u8>, u16)> {
        self.sock.recv()
    }
    pub fn forward(&self, d: &[u8]) {
        self.sock.send(d, self.node_addr)
    }
}

/// Sampled loopback address of the n-th node
pub fn ip(n: usize) -> Ipv4Addr {
    Ipv4Addr::new(127, 0, 1 + (n / 250) as u8, 2 + (n % 250) as u8)
}

/// Deterministic payload of a length (constructor first), never a valid compressed blob
pub fn payload(tag: u64, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len + 32);
    let mut x = sha256(&tag.to_le_bytes());
    while out.len() < len {
        out.extend_from_slice(&x);
        x = sha256(&x);
    }
    out.truncate(len);
    if len >= 4 {
        out[0] = 0x11;
        out[3] = 0x77;
    }
    out
}
