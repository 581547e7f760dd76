EDITS=[('src/adnl/channel.rs', '            || self.peer_channel_date >= peer_channel_date\n', '            || self.peer_channel_date.saturating_add(CHANNEL_LIFETIME_MIN_SEC) >= peer_channel_date\n'),
('src/adnl/channel.rs', '/// Channel creation time\n    #[inline(always)]\n', '/// Channel creation time\n    #[inline(always)]\n') ,
('src/adnl/channel.rs', 'impl Channel {\n    /// Creates new channel state', '/// A new channel key of a peer is only expected after this time\nconst CHANNEL_LIFETIME_MIN_SEC: u32 = 10;\n\nimpl Channel {\n    /// Creates new channel state')]
EDITS=[EDITS[0],EDITS[2]]
META={'property': 'A13', 'needs': 'a peer that restarts within ten seconds after its channel was created', 'what_it_breaks': 'the node keeps the channel of the former life of the peer, and nothing it sends arrives'}
