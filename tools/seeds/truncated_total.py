EDITS=[('src/rldp/incoming_transfer.rs', "                if total_size > self.max_answer_size as usize {\n", "                if total_size as u32 > self.max_answer_size {\n")]
META={'property': 'R02', 'needs': 'a transfer that announces a total size of 2^32 bytes or a little more', 'what_it_breaks': 'the comparison with the limit is made on the lower 32 bits, so gigabytes are reserved on the word of the remote side'}
