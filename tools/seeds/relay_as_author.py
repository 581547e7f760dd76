EDITS=[('src/overlay/overlay.rs', '            packets: 1,\n            data,\n            from: node_peer_id,', '            packets: 1,\n            data,\n            from: *peer_id,')]
META={'property': 'O01', 'needs': 'an ordinary broadcast that arrives from a peer that is not its author', 'what_it_breaks': 'the peer that passed it on is reported as the author'}
