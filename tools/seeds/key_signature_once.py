EDITS=[('src/dht/storage.rs', "        full_id.verify(value.key.as_boxed(), key_signature)?;\n", "        if !self.storage.contains_key(&tl_proto::hash_as_boxed(value.key.key)) {\n            // the description of a stored key was already verified\n            full_id.verify(value.key.as_boxed(), key_signature)?;\n        }\n")]
META={'property': 'D01', 'needs': 'a value with a damaged key signature and a greater expiry time for a key that is already stored', 'what_it_breaks': 'the key description is not verified again, so an unauthorised description replaces the stored one'}
