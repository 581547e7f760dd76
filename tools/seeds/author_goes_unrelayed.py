EDITS=[('src/overlay/overlay.rs', """        let neighbours = self
            .neighbours
            .get_random_peers(self.options.secondary_broadcast_target_count, Some(peer_id));
        self.distribute_broadcast(adnl, local_id, &neighbours, raw_data);
        self.spawn_broadcast_gc_task(broadcast_id);
""", """        // The author itself has chosen its first targets
        if *peer_id != node_peer_id {
            let neighbours = self
                .neighbours
                .get_random_peers(self.options.secondary_broadcast_target_count, Some(peer_id));
            self.distribute_broadcast(adnl, local_id, &neighbours, raw_data);
        }
        self.spawn_broadcast_gc_task(broadcast_id);
""")]
META={'property': 'O11', 'needs': 'a node that can be reached only over a neighbour of the author', 'what_it_breaks': 'a broadcast ends at the neighbours of its author'}
