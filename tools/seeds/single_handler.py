EDITS=[('src/overlay/node.rs', """        let consumer = match self.subscribers.get(&overlay_id) {
            Some(consumer) => consumer.clone(),
            None => return Err(NodeError::NoConsumerFound.into()),
        };
""", """        // Skip the lookup if there is nothing to choose from
        let consumer = if self.subscribers.len() == 1 {
            self.subscribers.iter().next().map(|item| item.value().clone())
        } else {
            self.subscribers.get(&overlay_id).map(|item| item.value().clone())
        };
        let consumer = match consumer {
            Some(consumer) => consumer,
            None => return Err(NodeError::NoConsumerFound.into()),
        };
""")]
META={'property': 'U05', 'needs': 'a node with several overlays of which exactly one has a query handler, and a query to another one', 'what_it_breaks': 'the query is executed and answered by the handler of the wrong overlay'}
