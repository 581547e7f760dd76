EDITS=[('src/dht/buckets.rs', 'if equal_bits < 7 {', 'if equal_bits < 6 {')]
META={'property': 'D05', 'needs': 'a known node that shares a number of leading bits with the node such that the next one is the last bit of a byte, and a target that differs there and, before, in the bit next to it', 'what_it_breaks': 'nodes of that group are left out of answers'}
