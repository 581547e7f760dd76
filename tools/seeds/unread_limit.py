EDITS=[('src/overlay/overlay.rs', "        self.received_broadcasts.push(IncomingBroadcastInfo {\n            packets: 1,\n            data,\n            from: node_peer_id,\n        });\n", "        // NOTE: do not let the queue consume all the memory\n        if self.received_broadcasts.data_len() < 256 {\n            self.received_broadcasts.push(IncomingBroadcastInfo {\n                packets: 1,\n                data,\n                from: node_peer_id,\n            });\n        }\n")]
META={'property': 'O10', 'needs': 'more than 256 broadcasts that arrive before a consumer takes them', 'what_it_breaks': 'the later ones are lost'}
