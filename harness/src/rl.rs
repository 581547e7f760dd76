//! RLDP at the reference side: messages, symbols and transfers, written from the published scheme;
//! and a network of several nodes with delays and losses.
use crate::fx::*;
use everscale_raptorq::{Decoder, Encoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
use std::collections::BTreeMap;

pub const SYMBOL: u32 = 768;

#[derive(Clone, Debug, PartialEq)]
pub enum Rl {
    Part { id: B32, total_len: u32, packet_len: u32, packet_count: u32, part: u32, total: u64, seqno: u32, data: Vec<u8> },
    Confirm { id: B32, part: u32, seqno: u32 },
    Complete { id: B32, part: u32 },
}

impl Rl {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Rl::Part { id, total_len, packet_len, packet_count, part, total, seqno, data } => W::new()
                .u32(id::rldp_part())
                .raw(id)
                .u32(id::raptorq())
                .u32(*total_len)
                .u32(*packet_len)
                .u32(*packet_count)
                .u32(*part)
                .u64(*total)
                .u32(*seqno)
                .bytes(data)
                .done(),
            Rl::Confirm { id, part, seqno } => W::new().u32(id::rldp_confirm()).raw(id).u32(*part).u32(*seqno).done(),
            Rl::Complete { id, part } => W::new().u32(id::rldp_complete()).raw(id).u32(*part).done(),
        }
    }
    pub fn parse(d: &[u8]) -> Option<Rl> {
        let mut r = R(d);
        let c = r.u32()?;
        let id = r.b32()?;
        let x = if c == id::rldp_part() {
            r.id(id::raptorq())?;
            Rl::Part {
                id,
                total_len: r.u32()?,
                packet_len: r.u32()?,
                packet_count: r.u32()?,
                part: r.u32()?,
                total: r.u64()?,
                seqno: r.u32()?,
                data: r.bytes()?.to_vec(),
            }
        } else if c == id::rldp_confirm() {
            Rl::Confirm { id, part: r.u32()?, seqno: r.u32()? }
        } else if c == id::rldp_complete() {
            Rl::Complete { id, part: r.u32()? }
        } else {
            return None;
        };
        r.empty().then_some(x)
    }
    pub fn id(&self) -> &B32 {
        match self {
            Rl::Part { id, .. } | Rl::Confirm { id, .. } | Rl::Complete { id, .. } => id,
        }
    }
}

pub fn neg(id: &B32) -> B32 {
    id.map(|x| x ^ 0xff)
}
pub fn wrap_query(qid: &B32, max_answer: u64, timeout: u32, data: &[u8]) -> Vec<u8> {
    W::new().u32(id::rldp_query()).raw(qid).u64(max_answer).u32(timeout).bytes(data).done()
}
pub fn wrap_answer(qid: &B32, data: &[u8]) -> Vec<u8> {
    W::new().u32(id::rldp_answer()).raw(qid).bytes(data).done()
}
/// (query id, max answer size, timeout, data)
pub fn parse_query(d: &[u8]) -> Option<(B32, u64, u32, Vec<u8>)> {
    let mut r = R(d);
    r.id(id::rldp_query())?;
    let x = (r.b32()?, r.u64()?, r.u32()?, r.bytes()?.to_vec());
    r.empty().then_some(x)
}
pub fn parse_answer(d: &[u8]) -> Option<(B32, Vec<u8>)> {
    let mut r = R(d);
    r.id(id::rldp_answer())?;
    let x = (r.b32()?, r.bytes()?.to_vec());
    r.empty().then_some(x)
}

/// The published compressed form: two zstd frames (data, big-endian length) and a tag
pub fn compress(d: &[u8]) -> Vec<u8> {
    let mut out = zstd::stream::encode_all(d, 3).unwrap();
    out.extend(zstd::stream::encode_all(&(d.len() as u32).to_be_bytes()[..], 3).unwrap());
    out.push(0x80);
    out
}
pub fn decompress(d: &[u8]) -> Option<Vec<u8>> {
    let (tag, rest) = d.split_last()?;
    if *tag != 0x80 {
        return None;
    }
    let mut x = zstd::stream::decode_all(rest).ok()?;
    if x.len() < 4 {
        return None;
    }
    let n = x.split_off(x.len() - 4);
    (u32::from_be_bytes(n.try_into().unwrap()) as usize == x.len()).then_some(x)
}

/// Symbols of one part
pub struct Symbols {
    enc: Encoder,
    pub source: Vec<Vec<u8>>,
    pub len: usize,
    pub symbol: u32,
}
impl Symbols {
    pub fn new(data: &[u8], symbol: u32) -> Symbols {
        let enc = Encoder::with_defaults(data, symbol as u16);
        let source = enc.get_block_encoders()[0].source_packets().into_iter().map(|p| p.split().1).collect();
        Symbols { enc, source, len: data.len(), symbol }
    }
    pub fn k(&self) -> u32 {
        self.source.len() as u32
    }
    pub fn get(&self, esi: u32) -> Vec<u8> {
        if esi < self.k() {
            self.source[esi as usize].clone()
        } else {
            self.enc.get_block_encoders()[0].repair_packets(esi, 1).pop().unwrap().split().1
        }
    }
}

/// An outgoing transfer of the reference side: data cut into parts of given sizes
pub struct Out {
    pub id: B32,
    pub total: u64,
    pub parts: Vec<Symbols>,
}
impl Out {
    pub fn new(id: B32, data: &[u8], slices: &[usize], symbol: u32) -> Out {
        let mut parts = vec![];
        let mut at = 0;
        let mut i = 0;
        while at < data.len() {
            let n = slices.get(i).copied().unwrap_or(2_000_000).clamp(1, 2_000_000).min(data.len() - at);
            parts.push(Symbols::new(&data[at..at + n], symbol));
            at += n;
            i += 1;
        }
        Out { id, total: data.len() as u64, parts }
    }
    pub fn msg(&self, part: u32, esi: u32) -> Rl {
        let p = &self.parts[part as usize];
        Rl::Part {
            id: self.id,
            total_len: p.len as u32,
            packet_len: p.symbol,
            packet_count: p.k(),
            part,
            total: self.total,
            seqno: esi,
            data: p.get(esi),
        }
    }
}

/// An incoming transfer of the reference side
pub struct In {
    pub data: Vec<u8>,
    pub total: u64,
    pub part: u32,
    dec: Option<Decoder>,
    pub done: bool,
    pub seqnos: std::collections::BTreeSet<(u32, u32)>,
    pub count: u32,
}
impl Default for In {
    fn default() -> Self {
        In { data: vec![], total: 0, part: 0, dec: None, done: false, seqnos: Default::default(), count: 0 }
    }
}
impl In {
    /// Takes a part message; returns what to reply
    pub fn take(&mut self, m: &Rl) -> Option<Rl> {
        let Rl::Part { id, total_len, packet_len, part, total, seqno, data, .. } = m else { return None };
        self.count += 1;
        self.seqnos.insert((*part, *seqno));
        if *part < self.part || self.done {
            return Some(Rl::Complete { id: *id, part: *part });
        }
        if *part > self.part {
            return None;
        }
        self.total = *total;
        let d = self.dec.get_or_insert_with(|| {
            Decoder::new(ObjectTransmissionInformation::with_defaults(*total_len as u64, *packet_len as u16))
        });
        match d.decode(EncodingPacket::new(PayloadId::new(0, *seqno), data.clone())) {
            Some(x) => {
                self.data.extend(x);
                self.dec = None;
                self.part += 1;
                self.done = self.data.len() as u64 >= self.total;
                Some(Rl::Complete { id: *id, part: *part })
            }
            None if self.count % 10 == 0 => Some(Rl::Confirm { id: *id, part: *part, seqno: *seqno }),
            None => None,
        }
    }
}

impl RefPeer {
    pub fn rl(&mut self, m: &Rl) {
        let d = m.encode();
        self.send_msg(false, Msg::Custom(d));
    }
    /// RLDP messages that have arrived
    pub fn poll_rl(&mut self) -> Vec<Rl> {
        self.msgs().into_iter().filter_map(|m| if let Msg::Custom(d) = m { Rl::parse(&d) } else { None }).collect()
    }
}

/// How the network treats datagrams; all choices derive from `seed` and the datagram's number
#[derive(Clone, Debug)]
pub struct NetCfg {
    pub seed: u64,
    /// per mille, per destination (index modulo the length)
    pub loss: Vec<u16>,
    pub dup: u16,
    pub delay: u32,
    pub jitter: u32,
    /// (from ms, for ms, destination or all): everything is lost
    pub blackout: Vec<(u32, u32, Option<u8>)>,
}
impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { seed: 0, loss: vec![], dup: 0, delay: 0, jitter: 0, blackout: vec![] }
    }
}

pub struct World {
    pub taps: Vec<Tap>,
    pub cfg: NetCfg,
    queue: BTreeMap<(u64, u64), (usize, Vec<u8>)>,
    pub n: u64,
    pub lost: u64,
    pub passed: u64,
    pub t0: u64,
    pub longest: usize,
}

fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

impl World {
    pub fn new(addrs: &[std::net::SocketAddrV4], cfg: NetCfg) -> Result<World, Fail> {
        let taps = addrs.iter().map(|a| Tap::new(*a)).collect::<Result<_, _>>()?;
        Ok(World { taps, cfg, queue: Default::default(), n: 0, lost: 0, passed: 0, t0: clock::ms(), longest: 0 })
    }
    /// Collects what was sent and decides its fate; delivers what is due. Returns whether there was anything
    pub fn pump(&mut self) -> bool {
        let now = clock::ms();
        let mut any = false;
        for to in 0..self.taps.len() {
            while let Some((d, _)) = self.taps[to].recv() {
                any = true;
                self.longest = self.longest.max(d.len());
                self.n += 1;
                let h = mix(self.cfg.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(self.n));
                let t = (now - self.t0) as u32;
                let dark = self.cfg.blackout.iter().any(|b| t >= b.0 && t - b.0 < b.1 && b.2.map(|x| x as usize == to).unwrap_or(true));
                let loss = if self.cfg.loss.is_empty() { 0 } else { self.cfg.loss[to % self.cfg.loss.len()] };
                if dark || h % 1000 < loss as u64 {
                    self.lost += 1;
                    continue;
                }
                let delay = |k: u64| self.cfg.delay as u64 + if self.cfg.jitter > 0 { mix(h ^ k) % (self.cfg.jitter as u64 + 1) } else { 0 };
                self.passed += 1;
                if (h >> 20) % 1000 < self.cfg.dup as u64 {
                    self.n += 1;
                    self.queue.insert((now + delay(2), self.n), (to, d.clone()));
                }
                self.n += 1;
                self.queue.insert((now + delay(1), self.n), (to, d));
            }
        }
        while let Some(e) = self.queue.first_entry() {
            if e.key().0 > now {
                break;
            }
            let (to, d) = e.remove();
            self.taps[to].forward(&d);
            any = true;
        }
        any
    }
    /// Pumps until nothing moves at this instant
    pub async fn quiet(&mut self) {
        loop {
            yields(10).await;
            if !self.pump() {
                break;
            }
        }
    }
    /// Lets time pass until `done` or for `ms`; returns whether it is done
    pub async fn run(&mut self, ms: u64, step: u64, mut done: impl FnMut() -> bool) -> bool {
        let end = clock::ms() + ms;
        loop {
            self.quiet().await;
            if done() {
                return true;
            }
            let now = clock::ms();
            if now >= end {
                return false;
            }
            // the next step of the timers or the next datagram, whichever is earlier
            let mut s = step.min(end - now);
            if let Some((k, _)) = self.queue.first_key_value() {
                s = s.min(k.0.saturating_sub(now).max(1));
            }
            clock::advance_ms(s);
        }
    }
}
