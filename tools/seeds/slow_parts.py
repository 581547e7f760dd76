EDITS=[('src/adnl/node/receiver.rs', "            // Refresh transfer timings on each incoming message\n            transfer.timings().refresh();\n\n            // Update transfer\n            match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {\n                Ok(Some(message)) => {\n                    self.incoming_transfers.remove(&transfer_key);\n                    Some(message)\n                }\n", "            // Update transfer\n            match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {\n                Ok(Some(message)) => {\n                    // Refresh transfer timings on each incoming message\n                    transfer.timings().refresh();\n                    self.incoming_transfers.remove(&transfer_key);\n                    Some(message)\n                }\n")]
META={'property': 'A02', 'needs': 'the parts of one message take longer than the transfer timeout in total, although none of them is late', 'what_it_breaks': 'the age of an incoming transfer is counted from its first part, so the parts received so far are dropped in the middle and the message is never delivered'}
