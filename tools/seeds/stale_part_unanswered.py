EDITS=[('src/rldp/incoming_transfer.rs', '            std::cmp::Ordering::Less => {\n                tl_proto::serialize_into(\n                    proto::rldp::MessagePart::Complete {\n                        transfer_id: &self.transfer_id,\n                        part: message.part,\n                    },\n                    &mut self.buffer,\n                );\n                return Ok(Some(&self.buffer));\n            }\n            std::cmp::Ordering::Greater => return Ok(None),', '            // Part is either already received or not started yet\n            std::cmp::Ordering::Less | std::cmp::Ordering::Greater => return Ok(None),')]
META={'property': 'R01', 'needs': 'a query of several parts where the acknowledgement of a part that is not the last is lost', 'what_it_breaks': 'the asking side can never go on to the next part'}
