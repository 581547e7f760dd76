EDITS=[('src/rldp/outgoing_transfer.rs', "        if seqno > self.seqno_out() {\n            return;\n        }\n        self.seqno_in.fetch_max(seqno, Ordering::Release);\n", "        // the window follows the confirmations of the remote side\n        self.seqno_in.fetch_max(seqno, Ordering::Release);\n")]
META={'property': 'R05', 'needs': 'one confirmation of a symbol number that was never sent, from the remote side of a transfer that then stays silent', 'what_it_breaks': 'the time a transfer may take grows with the confirmed number, so the query goes on sending for hours instead of ending'}
