EDITS=[('src/dht/storage.rs', 'old_ttl if old_ttl > value.ttl => return Ok(false),', 'old_ttl if old_ttl >= value.ttl => return Ok(false),')]
META={'property': 'D03', 'needs': 'two member lists for one overlay with exactly the same expiry time', 'what_it_breaks': 'the members of the second list are not stored'}
