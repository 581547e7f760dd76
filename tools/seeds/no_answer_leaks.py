EDITS=[('src/rldp/transfers_cache.rs', '            if let Some(outgoing_transfer_id) = outgoing_transfer_id {\n                transfers.remove(&outgoing_transfer_id);\n            }\n            transfers.remove(&transfer_id);\n        });', '            if let Some(outgoing_transfer_id) = outgoing_transfer_id {\n                transfers.remove(&outgoing_transfer_id);\n                transfers.remove(&transfer_id);\n            }\n        });')]
META={'property': 'R03', 'needs': 'a query over RLDP whose handler gives no answer, or which no handler takes', 'what_it_breaks': 'the transfer stays in the table forever'}
