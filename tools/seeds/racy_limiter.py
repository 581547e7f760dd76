EDITS=[('src/rldp/node.rs', '            .entry(*peer_id)\n            .or_insert_with(|| Arc::new(Semaphore::new(self.options.max_peer_queries)))\n            .value()\n            .clone();', '            .get(peer_id)\n            .map(|semaphore| semaphore.value().clone())\n            .unwrap_or_else(|| {\n                let semaphore = Arc::new(Semaphore::new(self.options.max_peer_queries));\n                self.semaphores.insert(*peer_id, semaphore.clone());\n                semaphore\n            });')]
META={'property': 'R03', 'needs': 'the first queries to a peer started on several threads at the same moment', 'what_it_breaks': 'each of them gets a limiter of its own, so more than the allowed number of queries are in flight'}
