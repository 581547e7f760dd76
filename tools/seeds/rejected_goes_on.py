EDITS=[('src/overlay/node.rs', "            QueryConsumingResult::Rejected(_) => Err(NodeError::UnsupportedQuery.into()),\n", "            QueryConsumingResult::Rejected(query) => {\n                Ok(QueryConsumingResult::Rejected(Cow::Owned(query.into_owned())))\n            }\n")]
META={'property': 'O08', 'needs': 'the handler of an overlay rejects a query and another handler for plain queries is registered behind the overlay node', 'what_it_breaks': 'the query of the overlay, without its prefix, reaches a handler that has nothing to do with the overlay'}
