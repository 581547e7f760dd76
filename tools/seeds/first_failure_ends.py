EDITS=[('src/overlay/overlay.rs', "                tracing::warn!(\n                    overlay_id = %self.id,\n                    %peer_id,\n                    \"failed to distribute broadcast: {e}\"\n                );\n", "                tracing::warn!(\n                    overlay_id = %self.id,\n                    %peer_id,\n                    \"failed to distribute broadcast: {e}\"\n                );\n                break;\n")]
META={'property': 'O04', 'needs': 'a neighbour that is unknown to the ADNL node comes before others in the list of targets', 'what_it_breaks': 'the broadcast is not sent to the remaining targets'}
