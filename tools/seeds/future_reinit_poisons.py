EDITS=[('src/adnl/node/receiver.rs','''            if peer_reinit_date > now() + self.options.clock_tolerance_sec {
                return Err(AdnlPacketError::SrcReinitDateTooNew.into());
            }

            if !peer.try_reinit_sender(peer_reinit_date) {
                return Err(AdnlPacketError::SrcReinitDateTooOld.into());
            }
''','''            if !peer.try_reinit_sender(peer_reinit_date) {
                return Err(AdnlPacketError::SrcReinitDateTooOld.into());
            }

            if peer_reinit_date > now() + self.options.clock_tolerance_sec {
                return Err(AdnlPacketError::SrcReinitDateTooNew.into());
            }
''')]
META={'property':'A05','needs':'a packet with a source date beyond the clock tolerance, followed by ordinary handshake packets of the same peer','what_it_breaks':'the refused date is remembered, so all later packets of that peer look too old'}
