EDITS=[('src/overlay/overlay.rs', '            self.options.secondary_fec_broadcast_target_count,\n            Some(peer_id),', '            self.options.secondary_fec_broadcast_target_count,\n            Some(&source),')]
META={'property': 'O05', 'needs': 'parts of a large broadcast that arrive from a peer that is not their author, and few neighbours', 'what_it_breaks': 'parts are sent back to the peer they came from (and never to the author)'}
