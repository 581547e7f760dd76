EDITS=[('src/adnl/node/sender.rs','''            confirm_seqno: peer.receiver_state().history(priority).seqno(),''','''            confirm_seqno: peer.receiver_state().history(false).seqno(),''')]
META={'property':'A10','needs':'the packet history is on, both sides use priority packets, and more ordinary than priority packets were received','what_it_breaks':'priority packets confirm the sequence numbers of ordinary ones, which a correct peer refuses'}
