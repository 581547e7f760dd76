EDITS=[('src/adnl/node/receiver.rs','''            channel.set_ready();
            channel.reset_drop_timeout();''','''            if !channel.ready() {
                channel.set_ready();
                channel.reset_drop_timeout();
            }''')]
META={'property':'A08','needs':'packets keep arriving over an established channel while queries stay without an answer for longer than the reset time','what_it_breaks':'a working channel is dropped, with everything that is on its way'}
