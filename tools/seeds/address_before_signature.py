EDITS=[('src/adnl/node/receiver.rs','''            verify(
                raw_packet,
                &mut packet.signature,
                full_id.public_key(),
                self.options.packet_signature_required,
            )?;

            if let Some(list) = &packet.address {''','''            if let Some(list) = &packet.address {'''),
('src/adnl/node/receiver.rs','''                    addr,
                    full_id,
                )?;
            }

            (peer_id, false)''','''                    addr,
                    full_id,
                )?;
            }

            (peer_id, true)''')]
META={'property':'A01','needs':'a handshake packet with a bad signature that names the key of a known peer and another address','what_it_breaks':'the address of a peer can be replaced by anyone, the packet itself is still refused'}
