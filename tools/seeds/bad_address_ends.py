EDITS=[('src/dht/node.rs', "                (Ok(addr), Ok(full_id)) => return Ok((addr, full_id)),\n                _ => continue,\n", "                (Ok(addr), Ok(full_id)) => return Ok((addr, full_id)),\n                (Err(e), _) => return Err(e.into()),\n                _ => continue,\n")]
META={'property': 'D04', 'needs': 'one of the asked nodes holds an outdated address list signed by the owner and another the valid one', 'what_it_breaks': 'the outdated list ends the search and hides the valid address'}
