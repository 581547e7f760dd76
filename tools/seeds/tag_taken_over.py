EDITS=[('src/adnl/keystore.rs', '                if entry.get() == &short_id {\n                    Ok(short_id)', '                if entry.get() == &short_id || self.keys.contains_key(&short_id) {\n                    Ok(short_id)')]
META={'property': 'U02', 'needs': 'adding a key that is already in the keystore under the tag of another key', 'what_it_breaks': 'it is reported as added although the tag still names the other key'}
