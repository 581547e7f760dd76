EDITS=[('src/adnl/node/sender.rs','''                let len = std::cmp::min(data.len(), *offset + max_size);
''','''                // Do not send a separate packet for a short tail
                let len = match data.len().saturating_sub(*offset) {
                    rest if rest <= max_size + max_size / 4 => data.len(),
                    _ => *offset + max_size,
                };
''')]
META={'property':'A12','needs':'a message whose last part would be between 1025 and 1280 bytes and a handshake packet (no channel yet)','what_it_breaks':'the last packet is longer than the MTU'}
