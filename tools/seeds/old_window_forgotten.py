EDITS=[('src/util/packets_history.rs', 'for i in 0..HISTORY_SIZE / 2 {', 'for i in 0..HISTORY_SIZE / 2 - 1 {')]
META={'property': 'A04', 'needs': 'packet history, a window shift by exactly one, and a replay of a packet from the last quarter of the previous window', 'what_it_breaks': 'the replayed packet is processed again'}
