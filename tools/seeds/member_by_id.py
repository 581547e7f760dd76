EDITS=[('src/dht/node.rs', """                        if stored_node.as_equivalent_ref() == node {""", """                        // The record of this member was accepted
                        if stored_node.id.as_equivalent_ref() == node.id {""")]
META={'property': 'D10', 'needs': 'peers that already hold another record of the same overlay member and keep it', 'what_it_breaks': 'store_overlay_node reports success though no peer holds the stored record'}
