//! Reference implementation of the ADNL packet format (independent of the code under test).
use crate::crypto::*;
use crate::tl::{id, R, W};

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Create { key: B32, date: u32 },
    Confirm { key: B32, peer_key: B32, date: u32 },
    Custom(Vec<u8>),
    Nop,
    Reinit(u32),
    Query { id: B32, data: Vec<u8> },
    Answer { id: B32, data: Vec<u8> },
    Part { hash: B32, total: u32, offset: u32, data: Vec<u8> },
    /// arbitrary bytes in place of a message
    Raw(Vec<u8>),
}

impl Msg {
    pub fn encode(&self) -> Vec<u8> {
        let w = W::new();
        match self {
            Msg::Create { key, date } => w.u32(id::create_channel()).raw(key).u32(*date),
            Msg::Confirm { key, peer_key, date } => w.u32(id::confirm_channel()).raw(key).raw(peer_key).u32(*date),
            Msg::Custom(d) => w.u32(id::custom()).bytes(d),
            Msg::Nop => w.u32(id::nop()),
            Msg::Reinit(d) => w.u32(id::reinit()).u32(*d),
            Msg::Query { id: q, data } => w.u32(id::query()).raw(q).bytes(data),
            Msg::Answer { id: q, data } => w.u32(id::answer()).raw(q).bytes(data),
            Msg::Part { hash, total, offset, data } => {
                w.u32(id::part()).raw(hash).u32(*total).u32(*offset).bytes(data)
            }
            Msg::Raw(d) => w.raw(d),
        }
        .done()
    }
    pub fn read(r: &mut R) -> Option<Msg> {
        let c = r.u32()?;
        Some(if c == id::create_channel() {
            Msg::Create { key: r.b32()?, date: r.u32()? }
        } else if c == id::confirm_channel() {
            Msg::Confirm { key: r.b32()?, peer_key: r.b32()?, date: r.u32()? }
        } else if c == id::custom() {
            Msg::Custom(r.bytes()?.to_vec())
        } else if c == id::nop() {
            Msg::Nop
        } else if c == id::reinit() {
            Msg::Reinit(r.u32()?)
        } else if c == id::query() {
            Msg::Query { id: r.b32()?, data: r.bytes()?.to_vec() }
        } else if c == id::answer() {
            Msg::Answer { id: r.b32()?, data: r.bytes()?.to_vec() }
        } else if c == id::part() {
            Msg::Part { hash: r.b32()?, total: r.u32()?, offset: r.u32()?, data: r.bytes()?.to_vec() }
        } else {
            return None;
        })
    }
    /// Splits a message into parts of at most `max` bytes
    pub fn split(&self, max: usize) -> Vec<Msg> {
        let d = self.encode();
        let hash = sha256(&d);
        d.chunks(max)
            .enumerate()
            .map(|(i, c)| Msg::Part { hash, total: d.len() as u32, offset: (i * max) as u32, data: c.to_vec() })
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct AddrList {
    pub addrs: Vec<(u32, u32)>,
    pub version: u32,
    pub reinit_date: u32,
    pub priority: u32,
    pub expire_at: u32,
}

impl AddrList {
    pub fn one(addr: std::net::SocketAddrV4, version: u32, reinit_date: u32, expire_at: u32) -> AddrList {
        AddrList {
            addrs: vec![(u32::from(*addr.ip()), addr.port() as u32)],
            version,
            reinit_date,
            priority: 0,
            expire_at,
        }
    }
    pub fn write(&self, mut w: W) -> W {
        w = w.u32(self.addrs.len() as u32);
        for (ip, port) in &self.addrs {
            w = w.u32(id::udp()).u32(*ip).u32(*port);
        }
        w.u32(self.version).u32(self.reinit_date).u32(self.priority).u32(self.expire_at)
    }
    pub fn read(r: &mut R) -> Option<AddrList> {
        let n = r.u32()?;
        let mut addrs = vec![];
        for _ in 0..n {
            r.id(id::udp())?;
            addrs.push((r.u32()?, r.u32()?));
        }
        Some(AddrList { addrs, version: r.u32()?, reinit_date: r.u32()?, priority: r.u32()?, expire_at: r.u32()? })
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Packet {
    pub rand1: Vec<u8>,
    pub from: Option<B32>,
    pub from_short: Option<B32>,
    /// Use the single-message field (only with exactly one message)
    pub single: bool,
    /// Use both message fields: the first message alone, the others as a list
    pub both: bool,
    /// Neither message field present
    pub no_messages: bool,
    pub messages: Vec<Msg>,
    pub address: Option<AddrList>,
    pub priority_address: Option<AddrList>,
    pub seqno: Option<u64>,
    pub confirm: Option<u64>,
    pub recv_ver: Option<u32>,
    pub recv_prio_ver: Option<u32>,
    pub reinit: Option<(u32, u32)>,
    pub signature: Option<Vec<u8>>,
    pub rand2: Vec<u8>,
    /// flag bits to set in addition (not legal ones: only for hostile packets)
    pub extra_flags: u32,
}

impl Packet {
    pub fn flags(&self) -> u32 {
        let mut f = self.extra_flags;
        let mut b = |i: u32, c: bool| {
            if c {
                f |= 1 << i
            }
        };
        b(0, self.from.is_some());
        b(1, self.from_short.is_some());
        b(2, !self.no_messages && (self.single || self.both));
        b(3, !self.no_messages && (!self.single || self.both));
        b(4, self.address.is_some());
        b(5, self.priority_address.is_some());
        b(6, self.seqno.is_some());
        b(7, self.confirm.is_some());
        b(8, self.recv_ver.is_some());
        b(9, self.recv_prio_ver.is_some());
        b(10, self.reinit.is_some());
        b(11, self.signature.is_some());
        f
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = W::new().u32(id::packet_contents()).bytes(&self.rand1).u32(self.flags());
        if let Some(k) = &self.from {
            w = w.u32(id::pub_ed25519()).raw(k);
        }
        if let Some(k) = &self.from_short {
            w = w.raw(k);
        }
        if !self.no_messages {
            for (i, m) in self.messages.iter().enumerate() {
                if i == 0 && !self.single && !self.both {
                    w = w.u32(self.messages.len() as u32);
                }
                w = w.raw(&m.encode());
                if i == 0 && self.both {
                    w = w.u32(self.messages.len() as u32 - 1);
                }
            }
            if self.messages.is_empty() && !self.single {
                w = w.u32(0);
            }
        }
        if let Some(a) = &self.address {
            w = a.write(w);
        }
        if let Some(a) = &self.priority_address {
            w = a.write(w);
        }
        if let Some(s) = self.seqno {
            w = w.u64(s);
        }
        if let Some(s) = self.confirm {
            w = w.u64(s);
        }
        if let Some(s) = self.recv_ver {
            w = w.u32(s);
        }
        if let Some(s) = self.recv_prio_ver {
            w = w.u32(s);
        }
        if let Some((a, b)) = self.reinit {
            w = w.u32(a).u32(b);
        }
        if let Some(s) = &self.signature {
            w = w.bytes(s);
        }
        w.bytes(&self.rand2).done()
    }
    /// Signs with `key` (over the packet without the signature)
    pub fn sign(&mut self, key: &Key) {
        self.signature = None;
        self.signature = Some(key.sign(&self.encode()).to_vec());
    }
    pub fn parse(d: &[u8]) -> Option<Packet> {
        let mut r = R(d);
        r.id(id::packet_contents())?;
        let mut p = Packet { rand1: r.bytes()?.to_vec(), ..Default::default() };
        let f = r.u32()?;
        let b = |i: u32| f & (1 << i) != 0;
        if f >> 12 != 0 {
            return None;
        }
        if b(0) {
            p.from = Some(r.pubkey()?);
        }
        if b(1) {
            p.from_short = Some(r.b32()?);
        }
        if b(2) && b(3) {
            return None;
        }
        p.no_messages = !b(2) && !b(3);
        if b(2) {
            p.single = true;
            p.messages.push(Msg::read(&mut r)?);
        }
        if b(3) {
            for _ in 0..r.u32()? {
                p.messages.push(Msg::read(&mut r)?);
            }
        }
        if b(4) {
            p.address = Some(AddrList::read(&mut r)?);
        }
        if b(5) {
            p.priority_address = Some(AddrList::read(&mut r)?);
        }
        if b(6) {
            p.seqno = Some(r.u64()?);
        }
        if b(7) {
            p.confirm = Some(r.u64()?);
        }
        if b(8) {
            p.recv_ver = Some(r.u32()?);
        }
        if b(9) {
            p.recv_prio_ver = Some(r.u32()?);
        }
        if b(10) {
            p.reinit = Some((r.u32()?, r.u32()?));
        }
        if b(11) {
            p.signature = Some(r.bytes()?.to_vec());
        }
        p.rand2 = r.bytes()?.to_vec();
        r.empty().then_some(p)
    }
    pub fn verify(&self, public: &B32) -> bool {
        let Some(sig) = &self.signature else { return false };
        let mut u = self.clone();
        u.signature = None;
        verify(public, &u.encode(), sig)
    }
}

fn checksum(version: Option<u16>, data: &[u8]) -> B32 {
    match version {
        Some(v) => {
            let mut d = v.to_be_bytes().to_vec();
            d.extend_from_slice(data);
            sha256(&d)
        }
        None => sha256(data),
    }
}

fn version_field(prefix: &[u8], checksum: &B32, version: u16) -> [u8; 4] {
    let [h, l] = version.to_be_bytes();
    let mut x = [h, l, h, l];
    for (i, b) in prefix.iter().chain(checksum).enumerate() {
        x[i % 4] ^= b;
    }
    x
}

fn seal(mut prefix: Vec<u8>, secret: &B32, plain: &[u8], version: Option<u16>) -> Vec<u8> {
    let sum = checksum(version, plain);
    if let Some(v) = version {
        let x = version_field(&prefix, &sum, v);
        prefix.extend_from_slice(&x);
    }
    prefix.extend_from_slice(&sum);
    let n = prefix.len();
    prefix.extend_from_slice(plain);
    packet_crypt(secret, &sum, &mut prefix[n..]);
    prefix
}

/// Opens data after a prefix of `n` bytes
fn open(d: &[u8], n: usize, secret: &B32) -> Option<(Vec<u8>, Option<u16>)> {
    if d.len() >= n + 36 {
        let sum: B32 = d[n + 4..n + 36].try_into().unwrap();
        let x = version_field(&d[..n], &sum, 0);
        let v: Vec<u8> = (0..4).map(|i| x[i] ^ d[n + i]).collect();
        if v[0] == v[2] && v[1] == v[3] {
            let version = u16::from_be_bytes([v[0], v[1]]);
            let mut plain = d[n + 36..].to_vec();
            packet_crypt(secret, &sum, &mut plain);
            if checksum(Some(version), &plain) == sum {
                return Some((plain, Some(version)));
            }
        }
    }
    if d.len() < n + 32 {
        return None;
    }
    let sum: B32 = d[n..n + 32].try_into().unwrap();
    let mut plain = d[n + 32..].to_vec();
    packet_crypt(secret, &sum, &mut plain);
    (checksum(None, &plain) == sum).then_some((plain, None))
}

pub fn seal_handshake(dest_public: &B32, ephemeral: &Key, plain: &[u8], version: Option<u16>) -> Vec<u8> {
    let mut prefix = key_id(dest_public).to_vec();
    prefix.extend_from_slice(&ephemeral.public);
    seal(prefix, &ephemeral.shared(dest_public).unwrap(), plain, version)
}

pub fn open_handshake(key: &Key, d: &[u8]) -> Option<(Vec<u8>, Option<u16>)> {
    if d.len() < 96 || d[..32] != key.id {
        return None;
    }
    let secret = key.shared(&d[32..64].try_into().unwrap())?;
    open(d, 64, &secret)
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub out: [B32; 2],
    pub inn: [B32; 2],
}

pub fn channel_id(secret: &B32) -> B32 {
    sha256(&W::new().u32(id::pub_aes()).raw(secret).0)
}

impl Chan {
    pub fn new(local: &B32, peer: &B32, my: &Key, peer_chan_public: &B32) -> Option<Chan> {
        let s = my.shared(peer_chan_public)?;
        let mut rev = s;
        rev.reverse();
        let (inn, out) = match local.cmp(peer) {
            std::cmp::Ordering::Less => (s, rev),
            std::cmp::Ordering::Equal => (s, s),
            std::cmp::Ordering::Greater => (rev, s),
        };
        let prio = |s: B32| {
            let mut p = s;
            for c in p.chunks_mut(2) {
                c.swap(0, 1);
            }
            p
        };
        Some(Chan { out: [out, prio(out)], inn: [inn, prio(inn)] })
    }
    pub fn seal(&self, prio: bool, plain: &[u8], version: Option<u16>) -> Vec<u8> {
        let s = &self.out[prio as usize];
        seal(channel_id(s).to_vec(), s, plain, version)
    }
    /// (priority, plaintext, version)
    pub fn open(&self, d: &[u8]) -> Option<(bool, Vec<u8>, Option<u16>)> {
        for p in [false, true] {
            let s = &self.inn[p as usize];
            if d.len() >= 32 && d[..32] == channel_id(s) {
                let (plain, v) = open(d, 32, s)?;
                return Some((p, plain, v));
            }
        }
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Handshake,
    Channel { priority: bool },
}

/// An opened datagram
#[derive(Clone, Debug)]
pub struct Got {
    pub how: How,
    pub version: Option<u16>,
    pub packet: Packet,
    pub len: usize,
}

/// The reference side of one pair of identities
#[derive(Clone, Debug)]
pub struct Link {
    pub me: Key,
    pub chan_key: Key,
    pub addr: std::net::SocketAddrV4,
    pub reinit: u32,
    pub remote: B32,
    pub remote_id: B32,
    pub remote_reinit: u32,
    pub sent: [u64; 2],
    pub recv: [u64; 2],
    pub chan: Option<Chan>,
    pub peer_chan: Option<(B32, u32)>,
    /// remote is known to have the channel
    pub ready: bool,
    pub version: Option<u16>,
    pub eph: u64,
    pub now: fn() -> u32,
}

impl Link {
    pub fn new(me: Key, addr: std::net::SocketAddrV4, remote_public: B32) -> Link {
        let eph = u64::from_le_bytes(me.id[..8].try_into().unwrap());
        Link {
            chan_key: Key::new(sha256(&[&me.seed[..], &remote_public[..], b"chan"].concat())),
            me,
            addr,
            reinit: crate::clock::unix(),
            remote: remote_public,
            remote_id: key_id(&remote_public),
            remote_reinit: 0,
            sent: [0; 2],
            recv: [0; 2],
            chan: None,
            peer_chan: None,
            ready: false,
            version: None,
            eph,
            now: crate::clock::unix,
        }
    }
    pub fn addr_list(&self) -> AddrList {
        let now = (self.now)();
        AddrList::one(self.addr, now, self.reinit, now + 1000)
    }
    pub fn base(&mut self, prio: bool, msgs: Vec<Msg>) -> Packet {
        self.sent[prio as usize] += 1;
        Packet {
            rand1: vec![1, 2, 3],
            rand2: vec![4; 7],
            single: msgs.len() == 1,
            messages: msgs,
            address: Some(self.addr_list()),
            seqno: Some(self.sent[prio as usize]),
            confirm: Some(self.recv[prio as usize]),
            ..Default::default()
        }
    }
    /// Unsigned handshake contents with the normal fields
    pub fn handshake_contents(&mut self, msgs: Vec<Msg>) -> Packet {
        let mut p = self.base(false, msgs);
        p.from = Some(self.me.public);
        p.reinit = Some((self.reinit, self.remote_reinit));
        p
    }
    pub fn next_eph(&mut self) -> Key {
        self.eph = self.eph.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        Key::nth(self.eph)
    }
    pub fn wrap_handshake(&mut self, p: &Packet) -> Vec<u8> {
        let e = self.next_eph();
        seal_handshake(&self.remote, &e, &p.encode(), self.version)
    }
    pub fn handshake(&mut self, msgs: Vec<Msg>) -> Vec<u8> {
        let mut p = self.handshake_contents(msgs);
        let me = self.me.clone();
        p.sign(&me);
        self.wrap_handshake(&p)
    }
    pub fn channel(&mut self, prio: bool, msgs: Vec<Msg>) -> Vec<u8> {
        let p = self.base(prio, msgs);
        self.wrap_channel(prio, &p)
    }
    pub fn wrap_channel(&self, prio: bool, p: &Packet) -> Vec<u8> {
        self.chan.as_ref().expect("no channel").seal(prio, &p.encode(), self.version)
    }
    pub fn create_msg(&self) -> Msg {
        Msg::Create { key: self.chan_key.public, date: (self.now)() }
    }
    pub fn confirm_msg(&self) -> Option<Msg> {
        self.peer_chan.map(|(k, d)| Msg::Confirm { key: self.chan_key.public, peer_key: k, date: d })
    }
    /// One datagram with `msgs`, sent the way a normal implementation would
    pub fn packet(&mut self, prio: bool, msgs: Vec<Msg>) -> Vec<u8> {
        if self.ready {
            return self.channel(prio, msgs);
        }
        let mut all = vec![];
        match self.confirm_msg() {
            Some(c) => all.push(c),
            None => all.push(self.create_msg()),
        }
        all.extend(msgs);
        self.handshake(all)
    }
    /// Datagrams for one message of any size
    pub fn datagrams(&mut self, prio: bool, msg: Msg) -> Vec<Vec<u8>> {
        if msg.encode().len() <= 900 {
            return vec![self.packet(prio, vec![msg])];
        }
        msg.split(900).into_iter().map(|m| self.packet(prio, vec![m])).collect()
    }
    /// Opens a datagram from the remote, without changing the state
    pub fn peek(&self, d: &[u8]) -> Option<Got> {
        if let Some(c) = &self.chan {
            if let Some((priority, plain, version)) = c.open(d) {
                return Some(Got {
                    how: How::Channel { priority },
                    version,
                    packet: Packet::parse(&plain)?,
                    len: d.len(),
                });
            }
        }
        let (plain, version) = open_handshake(&self.me, d)?;
        let packet = Packet::parse(&plain)?;
        Some(Got { how: How::Handshake, version, packet, len: d.len() })
    }
    /// Opens and updates the state (seqnos, reinit date, channel)
    pub fn open(&mut self, d: &[u8]) -> Option<Got> {
        let g = self.peek(d)?;
        let prio = matches!(g.how, How::Channel { priority: true });
        if let How::Channel { .. } = g.how {
            self.ready = true;
        } else if g.packet.from != Some(self.remote) || !g.packet.verify(&self.remote) {
            return None;
        }
        if let Some(s) = g.packet.seqno {
            self.recv[prio as usize] = self.recv[prio as usize].max(s);
        }
        if let Some((src, _)) = g.packet.reinit {
            self.remote_reinit = self.remote_reinit.max(src);
        }
        for m in &g.packet.messages {
            match m {
                Msg::Create { key, date } => self.take_channel(key, *date, false),
                Msg::Confirm { key, date, .. } => self.take_channel(key, *date, true),
                _ => {}
            }
        }
        Some(g)
    }
    fn take_channel(&mut self, key: &B32, date: u32, confirm: bool) {
        if let Some((k, d)) = &self.peer_chan {
            if k == key || *d >= date {
                self.ready |= confirm;
                return;
            }
        }
        self.chan = Chan::new(&self.me.id, &self.remote_id, &self.chan_key, key);
        self.peer_chan = Some((*key, date));
        self.ready = confirm;
    }
}
