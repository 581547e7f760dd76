EDITS=[('src/adnl/node/receiver.rs', "                                if !transfer.timings().is_expired(transfer_timeout) {\n                                    continue;\n                                }\n", "                                if !transfer.timings().is_expired(transfer_timeout) {\n                                    // there are still parts coming\n                                    break;\n                                }\n")]
META={'property': 'A09', 'needs': 'a multi-part message whose parts keep coming up to the transfer timeout and that is then given up', 'what_it_breaks': 'the timer of a refreshed transfer ends without removing it, the incomplete transfer stays in memory for ever'}
