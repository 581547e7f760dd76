EDITS=[('src/proto/adnl.rs', "        ok!(read_optional::<u32, 9>(flags, packet, offset)); // recv_priority_addr_list_version\n", "        ok!(read_optional::<u64, 9>(flags, packet, offset)); // recv_priority_addr_list_version\n")]
META={'property': 'U04', 'needs': 'a packet of another implementation that names the version of the priority address list', 'what_it_breaks': 'the field is read with twice its length, so what follows is misread and the packet is refused'}
