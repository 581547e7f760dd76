EDITS=[('src/overlay/overlay.rs', '        let mut received_peers = self.received_peers.lock();\n        for node in peers {\n            match received_peers.entry(HashWrapper(node.id.as_equivalent_owned())) {\n                Entry::Occupied(mut entry) => {\n                    if entry.get().version < node.version {\n                        entry.insert(node.as_equivalent_owned());\n                    }\n                }\n                Entry::Vacant(entry) => {\n                    entry.insert(node.as_equivalent_owned());\n                }\n            }\n        }\n\n        // NOTE: reduce lock scope\n        drop(received_peers);\n', '        for node in peers {\n            let key = HashWrapper(node.id.as_equivalent_owned());\n            let newer = match self.received_peers.lock().get(&key) {\n                Some(known) => known.version < node.version,\n                None => true,\n            };\n            if newer {\n                self.received_peers.lock().insert(key, node.as_equivalent_owned());\n            }\n        }\n')]
META={'property': 'O07', 'needs': 'two requests with records of one peer handled by two threads at the same moment', 'what_it_breaks': 'the older record replaces the newer one'}
