EDITS=[('src/dht/buckets.rs', "        let mut nodes = Vec::new();\n", "        let mut nodes = Vec::with_capacity(k as usize);\n")]
META={'property': 'D09', 'needs': 'a node search with a huge k', 'what_it_breaks': 'memory for k records is reserved on the word of the asker, the process aborts'}
