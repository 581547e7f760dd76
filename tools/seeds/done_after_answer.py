EDITS=[('src/rldp/transfers_cache.rs', """            incoming_context.receive(None).await;
            transfers.insert(transfer_id, RldpTransfer::Done);

            // Process query
""", """            incoming_context.receive(None).await;

            // Process query
"""), ('src/rldp/transfers_cache.rs', """                .await
                .unwrap_or_default();

            // Clear transfers in background
""", """                .await
                .unwrap_or_default();

            // Query is fully processed
            transfers.insert(transfer_id, RldpTransfer::Done);

            // Clear transfers in background
""")]
META={'property': 'R01', 'needs': 'the acknowledgement of the last part of a query is lost, and the asker repeats a symbol while the handler works or the answer is being sent', 'what_it_breaks': 'the repeated symbol is not answered any more, the asker never learns that its query is complete'}
