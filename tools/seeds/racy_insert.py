EDITS=[('src/adnl/peers_set.rs', '''    pub fn insert(&self, peer_id: NodeIdShort) -> bool {
        self.state.write().insert(peer_id)
    }
''', '''    pub fn insert(&self, peer_id: NodeIdShort) -> bool {
        // Most of the ids are already there, so the exclusive lock is rarely needed
        if self.contains(&peer_id) {
            return false;
        }
        self.state.write().insert(peer_id);
        true
    }
''')]
META={'property': 'U01', 'needs': 'two threads that insert the same id at the same time', 'what_it_breaks': 'both are told that the id was absent'}
