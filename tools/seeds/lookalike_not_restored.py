EDITS=[('src/adnl/channel.rs', """                // Otherwise restore data
                cipher.seek(0);
                cipher.apply_keystream(&mut buffer[EXT_DATA_RANGE]);
""", """                // Otherwise restore data
                cipher = build_packet_cipher(
                    shared_secret,
                    &buffer[EXT_CHECKSUM_RANGE].try_into().unwrap(),
                );
                cipher.seek(0);
""")]
META={'property': 'A10', 'needs': 'a channel packet without version whose encrypted bytes happen to look like a version (one of 65536)', 'what_it_breaks': 'the data stays decrypted with the wrong cipher, so a correct packet is refused'}
