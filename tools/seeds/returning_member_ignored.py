EDITS=[('src/overlay/overlay.rs', '        self.ignored_peers.remove(peer_id);\n        self.known_peers.insert(*peer_id);\n', '        if self.known_peers.insert(*peer_id) {\n            self.ignored_peers.remove(peer_id);\n        }\n')]
META={'property': 'O06', 'needs': 'a member is removed from an overlay and added again', 'what_it_breaks': 'it stays removed: it is never chosen as a neighbour again'}
