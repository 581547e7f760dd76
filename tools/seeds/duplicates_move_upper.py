EDITS=[('src/adnl/peers_set.rs', '                Entry::Vacant(entry) => {\n                    entry.insert(res.upper);\n                    res.index.push(peer);\n                    res.upper += 1;\n                }\n                Entry::Occupied(_) => continue,\n            }\n', '                Entry::Vacant(entry) => {\n                    entry.insert(res.upper);\n                    res.index.push(peer);\n                }\n                Entry::Occupied(_) => {}\n            }\n            res.upper += 1;\n')]
META={'property': 'U01', 'needs': 'a set built from a list that holds an id twice, with room left, and filled up afterwards', 'what_it_breaks': 'the wrong entries are evicted, and entries get lost'}
