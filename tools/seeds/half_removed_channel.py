EDITS=[('src/adnl/node/mod.rs','''            .and_then(|(_, removed)| {
                self.channels_by_id.remove(removed.ordinary_channel_in_id());
                self.channels_by_id.remove(removed.priority_channel_in_id())
            });''','''            .and_then(|(_, removed)| {
                self.channels_by_id.remove(removed.ordinary_channel_in_id())
            });''')]
META={'property':'A07','needs':'a peer with a channel is removed, comes back with another channel, and a packet of the old priority channel arrives','what_it_breaks':'the priority half of the channel of a removed peer stays usable'}
