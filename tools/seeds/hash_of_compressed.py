EDITS=[('src/overlay/overlay.rs', "            Some(decompressed)\n                if sha2::Sha256::digest(&decompressed).as_slice() == broadcast_id =>\n            {\n                Ok(Some(decompressed))\n            }\n            _ => {\n", "            Some(decompressed)\n                if sha2::Sha256::digest(&decompressed).as_slice() == broadcast_id\n                    || sha2::Sha256::digest(&result).as_slice() == broadcast_id =>\n            {\n                Ok(Some(decompressed))\n            }\n            _ => {\n")]
META={'property': 'O02', 'needs': 'a large broadcast whose data is itself a valid compressed blob', 'what_it_breaks': 'other bytes than the ones whose hash is the id are delivered'}
