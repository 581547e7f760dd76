EDITS=[('src/dht/storage.rs', 'Some(item) if item.ttl > now() => Some(item),', 'Some(item) if item.ttl >= now() => Some(item),')]
META={'property': 'D02', 'needs': 'a value search in the very second in which the value expires', 'what_it_breaks': 'an expired value is still given out'}
