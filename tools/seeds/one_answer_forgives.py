EDITS=[('src/dht/node.rs','''        if let Some(mut count) = self.penalties.get_mut(peer) {
            *count.value_mut() = count.saturating_sub(1);
        }''','''        self.penalties.remove(peer);''')]
META={'property':'D07','needs':'a peer with several failed queries and then a single successful one','what_it_breaks':'one answer clears all points of a peer instead of one'}
