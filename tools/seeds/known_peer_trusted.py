EDITS=[('src/dht/node.rs', "        if peer_id_full.verify(peer.as_boxed(), &signature).is_err() {\n", "        if !self.known_peers.contains(&peer_id_full.compute_short_id())\n            && peer_id_full.verify(peer.as_boxed(), &signature).is_err()\n        {\n")]
META={'property': 'D06', 'needs': 'a forged record with a higher version of a node that is already known', 'what_it_breaks': 'the record of a known node is taken without its signature, and handed to third parties'}
