EDITS=[('src/overlay/overlay.rs', "                    overlay.distribute_broadcast(&adnl, &local_id, neighbours.as_ref(), &data);\n                    if outgoing_transfer.seqno", "                    match &neighbours {\n                        // spread the load over all neighbours\n                        OwnedBroadcastTarget::Neighbours(selected) => {\n                            let peers = overlay\n                                .neighbours\n                                .get_random_peers(selected.len() as u32, None);\n                            overlay.distribute_broadcast(&adnl, &local_id, &peers, &data);\n                        }\n                        explicit => {\n                            overlay.distribute_broadcast(&adnl, &local_id, explicit.as_ref(), &data);\n                        }\n                    }\n                    if outgoing_transfer.seqno")]
META={'property': 'O04', 'needs': 'a large broadcast to random neighbours where there are more neighbours than targets', 'what_it_breaks': 'every part goes to other neighbours, more peers than reported get parts and none is sure to get enough of them'}
