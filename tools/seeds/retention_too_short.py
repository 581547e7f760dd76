EDITS=[('src/overlay/overlay.rs', "            tokio::time::sleep(Duration::from_secs(overlay.options.broadcast_timeout_sec)).await;\n", "            tokio::time::sleep(Duration::from_millis(\n                overlay.options.broadcast_timeout_sec * 100,\n            ))\n            .await;\n")]
META={'property': 'O03', 'needs': 'a broadcast that comes again within its retention time after more others than the log holds', 'what_it_breaks': 'ids are given up after a tenth of the retention time, the broadcast is delivered and passed on again'}
