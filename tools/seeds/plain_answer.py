EDITS=[('src/rldp/transfers_cache.rs', '            query.data = decompressed;\n            true', '            query.data = decompressed;\n            force_compression')]
META={'property': 'R04', 'needs': 'compression forced on the asking side only', 'what_it_breaks': 'a compressed query gets a plain answer'}
