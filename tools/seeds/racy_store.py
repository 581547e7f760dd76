EDITS=[('src/dht/storage.rs', '''        Ok(match self.storage.entry(key) {
            Entry::Occupied(mut entry) if entry.get().ttl < value.ttl => {
                entry.insert(value.as_equivalent_owned());
                true
            }
            Entry::Occupied(_) => false,
            Entry::Vacant(entry) => {
                entry.insert(value.as_equivalent_owned());
                true
            }
        })
''', '''        let is_newer = match self.storage.get(&key) {
            Some(stored) => stored.ttl < value.ttl,
            None => true,
        };
        if is_newer {
            self.storage.insert(key, value.as_equivalent_owned());
        }
        Ok(is_newer)
'''), ('src/dht/storage.rs', "    fn insert_signed_value(&self, mut value: proto::dht::Value<'_>) -> Result<bool> {\n        use dashmap::mapref::entry::Entry;\n\n", "    fn insert_signed_value(&self, mut value: proto::dht::Value<'_>) -> Result<bool> {\n")]
META={'property': 'D02', 'needs': 'two threads that store different values of one key at the same time, the newer one first', 'what_it_breaks': 'an older value replaces a newer one'}
