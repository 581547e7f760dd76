//! Hand-written TL encoding. Constructor ids are CRC32 of the published scheme lines.

/// CRC32 (IEEE) of a scheme line: the TL constructor id
pub fn crc(line: &str) -> u32 {
    let mut c = !0u32;
    for b in line.bytes().filter(|b| *b != b'(' && *b != b')') {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

macro_rules! ids {
    ($($name:ident = $line:literal;)*) => {
        $(pub fn $name() -> u32 {
            static V: std::sync::OnceLock<u32> = std::sync::OnceLock::new();
            *V.get_or_init(|| crc($line))
        })*
    };
}

/// Constructor ids
pub mod id {
    use super::crc;
    ids! {
        pub_ed25519 = "pub.ed25519 key:int256 = PublicKey";
        pub_aes = "pub.aes key:int256 = PublicKey";
        pub_overlay = "pub.overlay name:bytes = PublicKey";
        pub_unenc = "pub.unenc data:bytes = PublicKey";
        udp = "adnl.address.udp ip:int port:int = adnl.Address";
        udp6 = "adnl.address.udp6 ip:int128 port:int = adnl.Address";
        packet_contents = "adnl.packetContents rand1:bytes flags:# from:flags.0?PublicKey from_short:flags.1?adnl.id.short message:flags.2?adnl.Message messages:flags.3?(vector adnl.Message) address:flags.4?adnl.addressList priority_address:flags.5?adnl.addressList seqno:flags.6?long confirm_seqno:flags.7?long recv_addr_list_version:flags.8?int recv_priority_addr_list_version:flags.9?int reinit_date:flags.10?int dst_reinit_date:flags.10?int signature:flags.11?bytes rand2:bytes = adnl.PacketContents";
        create_channel = "adnl.message.createChannel key:int256 date:int = adnl.Message";
        confirm_channel = "adnl.message.confirmChannel key:int256 peer_key:int256 date:int = adnl.Message";
        custom = "adnl.message.custom data:bytes = adnl.Message";
        nop = "adnl.message.nop = adnl.Message";
        reinit = "adnl.message.reinit date:int = adnl.Message";
        query = "adnl.message.query query_id:int256 query:bytes = adnl.Message";
        answer = "adnl.message.answer query_id:int256 answer:bytes = adnl.Message";
        part = "adnl.message.part hash:int256 total_size:int offset:int data:bytes = adnl.Message";
        pong = "adnl.pong value:long = adnl.Pong";
        ping = "adnl.ping value:long = adnl.Pong";
        raptorq = "fec.raptorQ data_size:int symbol_size:int symbols_count:int = fec.Type";
        rldp_part = "rldp.messagePart transfer_id:int256 fec_type:fec.Type part:int total_size:long seqno:int data:bytes = rldp.MessagePart";
        rldp_confirm = "rldp.confirm transfer_id:int256 part:int seqno:int = rldp.MessagePart";
        rldp_complete = "rldp.complete transfer_id:int256 part:int = rldp.MessagePart";
        rldp_message = "rldp.message id:int256 data:bytes = rldp.Message";
        rldp_query = "rldp.query query_id:int256 max_answer_size:long timeout:int data:bytes = rldp.Message";
        rldp_answer = "rldp.answer query_id:int256 data:bytes = rldp.Message";
        dht_node = "dht.node id:PublicKey addr_list:adnl.addressList version:int signature:bytes = dht.Node";
        dht_nodes = "dht.nodes nodes:(vector dht.node) = dht.Nodes";
        dht_key = "dht.key id:int256 name:bytes idx:int = dht.Key";
        rule_signature = "dht.updateRule.signature = dht.UpdateRule";
        rule_anybody = "dht.updateRule.anybody = dht.UpdateRule";
        rule_overlay_nodes = "dht.updateRule.overlayNodes = dht.UpdateRule";
        dht_key_description = "dht.keyDescription key:dht.key id:PublicKey update_rule:dht.UpdateRule signature:bytes = dht.KeyDescription";
        dht_value = "dht.value key:dht.keyDescription value:bytes ttl:int signature:bytes = dht.Value";
        dht_pong = "dht.pong random_id:long = dht.Pong";
        value_not_found = "dht.valueNotFound nodes:dht.nodes = dht.ValueResult";
        value_found = "dht.valueFound value:dht.Value = dht.ValueResult";
        stored = "dht.stored = dht.Stored";
        dht_ping = "dht.ping random_id:long = dht.Pong";
        dht_store = "dht.store value:dht.value = dht.Stored";
        find_node = "dht.findNode key:int256 k:int = dht.Nodes";
        find_value = "dht.findValue key:int256 k:int = dht.ValueResult";
        get_signed_address_list = "dht.getSignedAddressList = dht.Node";
        dht_query = "dht.query node:dht.node = True";
        overlay_node_to_sign = "overlay.node.toSign id:adnl.id.short overlay:int256 version:int = overlay.node.ToSign";
        adnl_id_short = "adnl.id.short id:int256 = adnl.id.Short";
        overlay_node = "overlay.node id:PublicKey overlay:int256 version:int signature:bytes = overlay.Node";
        overlay_nodes = "overlay.nodes nodes:(vector overlay.node) = overlay.Nodes";
        overlay_message = "overlay.message overlay:int256 = overlay.Message";
        fec_received = "overlay.fec.received hash:int256 = overlay.Broadcast";
        fec_completed = "overlay.fec.completed hash:int256 = overlay.Broadcast";
        broadcast_id = "overlay.broadcast.id src:int256 data_hash:int256 flags:int = overlay.broadcast.Id";
        broadcast_fec_id = "overlay.broadcastFec.id src:int256 type:int256 data_hash:int256 size:int flags:int = overlay.broadcastFec.Id";
        broadcast_fec_part_id = "overlay.broadcastFec.partId broadcast_hash:int256 data_hash:int256 seqno:int = overlay.broadcastFec.PartId";
        broadcast_to_sign = "overlay.broadcast.toSign hash:int256 date:int = overlay.broadcast.ToSign";
        certificate = "overlay.certificate issued_by:PublicKey expire_at:int max_size:int signature:bytes = overlay.Certificate";
        empty_certificate = "overlay.emptyCertificate = overlay.Certificate";
        unicast = "overlay.unicast data:bytes = overlay.Broadcast";
        broadcast = "overlay.broadcast src:PublicKey certificate:overlay.Certificate flags:int data:bytes date:int signature:bytes = overlay.Broadcast";
        broadcast_fec = "overlay.broadcastFec src:PublicKey certificate:overlay.Certificate data_hash:int256 data_size:int flags:int data:bytes seqno:int fec:fec.Type date:int signature:bytes = overlay.Broadcast";
        broadcast_fec_short = "overlay.broadcastFecShort src:PublicKey certificate:overlay.Certificate broadcast_hash:int256 part_data_hash:int256 seqno:int signature:bytes = overlay.Broadcast";
        broadcast_not_found = "overlay.broadcastNotFound = overlay.Broadcast";
        get_random_peers = "overlay.getRandomPeers peers:overlay.nodes = overlay.Nodes";
        overlay_query = "overlay.query overlay:int256 = True";
        shard_public_overlay_id = "tonNode.shardPublicOverlayId workchain:int shard:long zero_state_file_hash:int256 = tonNode.ShardPublicOverlayId";
        catchain_first_block = "catchain.firstblock unique_hash:int256 nodes:(vector int256) = catchain.FirstBlock";
        vector = "vector {t:Type} # [ t ] = Vector t";
    }
}

#[derive(Default, Clone, Debug)]
pub struct W(pub Vec<u8>);

impl W {
    pub fn new() -> W {
        W(Vec::new())
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn bytes(mut self, v: &[u8]) -> W {
        let n = if v.len() < 254 {
            self.0.push(v.len() as u8);
            1
        } else {
            self.0.push(254);
            self.0.extend_from_slice(&(v.len() as u32).to_le_bytes()[..3]);
            4
        };
        self.0.extend_from_slice(v);
        for _ in 0..(4 - (n + v.len()) % 4) % 4 {
            self.0.push(0);
        }
        self
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

/// Reader; every method returns None at a malformed input
#[derive(Clone)]
pub struct R<'a>(pub &'a [u8]);

impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn b32(&mut self) -> Option<[u8; 32]> {
        Some(self.take(32)?.try_into().unwrap())
    }
    pub fn id(&mut self, id: u32) -> Option<()> {
        (self.u32()? == id).then_some(())
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let f = self.take(1)?[0];
        let (n, h) = match f {
            0..=253 => (f as usize, 1),
            254 => {
                let l = self.take(3)?;
                (l[0] as usize | (l[1] as usize) << 8 | (l[2] as usize) << 16, 4)
            }
            255 => return None,
        };
        let r = self.take(n)?;
        self.take((4 - (n + h) % 4) % 4)?;
        Some(r)
    }
    pub fn pubkey(&mut self) -> Option<[u8; 32]> {
        self.id(id::pub_ed25519())?;
        self.b32()
    }
    pub fn empty(&self) -> bool {
        self.0.is_empty()
    }
}
