EDITS=[('src/dht/streams.rs', "                    // Decrease the number of parallel futures on each new item from `futures`\n                    this.future_count -= 1;\n\n                    if let Some(value) = value {\n", "                    if let Some(value) = value {\n                        // Free the slot of the finished query\n                        this.future_count -= 1;\n")]
META={'property': 'D08', 'needs': 'a full lookup over more than six known nodes where the first six asked have no value', 'what_it_breaks': 'the slots of queries without a value are never freed and the lookup ends before the node that holds the value is asked'}
