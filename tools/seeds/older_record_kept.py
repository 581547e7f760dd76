EDITS=[('src/overlay/overlay.rs', '                Entry::Occupied(mut entry) => {\n                    if entry.get().version < node.version {\n                        entry.insert(node.as_equivalent_owned());\n                    }\n                }\n                Entry::Vacant(entry) => {\n                    entry.insert(node.as_equivalent_owned());\n                }\n            }\n        }\n\n        // NOTE: reduce lock scope', '                Entry::Occupied(mut entry) => {\n                    if entry.get().version != node.version {\n                        entry.insert(node.as_equivalent_owned());\n                    }\n                }\n                Entry::Vacant(entry) => {\n                    entry.insert(node.as_equivalent_owned());\n                }\n            }\n        }\n\n        // NOTE: reduce lock scope')]
META={'property': 'O07', 'needs': 'two random-peers requests that carry records of one member, the newer one first', 'what_it_breaks': 'the older record replaces the newer one'}
