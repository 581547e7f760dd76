EDITS=[('src/adnl/node/receiver.rs','''                    if context == ChannelCreationContext::ConfirmChannel {
                        channel.set_ready();
                    }
                    return Ok(());''','''                    return Ok(());''')]
META={'property':'A03','needs':'both sides open the channel at the same time, so that each of them has one when the confirmation arrives','what_it_breaks':'neither side ever uses the channel, all traffic stays in handshake packets'}
