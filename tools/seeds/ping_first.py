EDITS=[('src/adnl/node/mod.rs', "        init.query_subscribers.push(Arc::new(PingSubscriber));\n", "        init.query_subscribers.insert(0, Arc::new(PingSubscriber));\n")]
META={'property': 'A11', 'needs': 'an application handler that consumes ADNL pings itself', 'what_it_breaks': 'the built-in ping handler comes before the handlers of the application'}
