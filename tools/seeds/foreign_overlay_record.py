EDITS=[('src/overlay/overlay_id.rs', "        if node.overlay != &self.0 {\n            return Err(OverlayIdError::OverlayIdMismatch.into());\n        }\n\n        let peer_id_full", "        if node.overlay[..16] != self.0[..16] {\n            return Err(OverlayIdError::OverlayIdMismatch.into());\n        }\n\n        let peer_id_full")]
META={'property': 'U03', 'needs': 'a correctly signed record for an overlay whose id differs only in the second half', 'what_it_breaks': 'the record of another overlay is accepted'}
