EDITS=[('src/dht/node.rs', "            *count.value_mut() = count.saturating_sub(1);\n", "            *count.value_mut() = count.wrapping_sub(1);\n")]
META={'property': 'D07', 'needs': 'more good actions of a peer than it has points after a failed query', 'what_it_breaks': 'the score goes below zero, wraps around and the peer is bad for ever'}
