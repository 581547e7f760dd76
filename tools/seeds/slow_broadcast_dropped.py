EDITS=[('src/overlay/overlay.rs', '        transfer.updated_at.refresh();\n', '')]
META={'property': 'O09', 'needs': 'a large broadcast that takes longer than the broadcast timeout, while so many others end that the log is full', 'what_it_breaks': 'it is given up although its parts keep arriving'}
