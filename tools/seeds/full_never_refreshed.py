EDITS=[('src/overlay/overlay.rs', """                    overlay.update_neighbours(1);
""", """                    // Neighbours could have been removed since then
                    if !overlay.neighbours.is_full() {
                        overlay.update_neighbours(1);
                    }
""")]
META={'property': 'O06', 'needs': 'more active members than neighbours, and the refresh interval passes many times', 'what_it_breaks': 'members beyond the limit never become neighbours and never receive broadcasts of the node'}
