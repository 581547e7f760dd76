EDITS=[('src/adnl/keystore.rs', '''                hash_map::Entry::Vacant(entry) => {
                    entry.insert(Arc::new(secret_key.into()));
                    tag_entry.insert(short_id);
                    Ok(short_id)
                }
                hash_map::Entry::Occupied(_) => Err(KeystoreError::DuplicatedKey(tag)),
            },
''', '''                hash_map::Entry::Vacant(entry) => {
                    tag_entry.insert(short_id);
                    entry.insert(Arc::new(secret_key.into()));
                    Ok(short_id)
                }
                hash_map::Entry::Occupied(_) => {
                    tag_entry.insert(short_id);
                    Err(KeystoreError::DuplicatedKey(tag))
                }
            },
''')]
META={'property': 'U02', 'needs': 'adding a key that is already there under a new tag, then using that tag', 'what_it_breaks': 'the refused addition still takes the tag, later keys are refused under it'}
