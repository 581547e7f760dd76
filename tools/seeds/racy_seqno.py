EDITS=[('src/util/packets_history.rs', '''        self.seqno.fetch_add(1, Ordering::AcqRel) + 1
''', '''        let seqno = self.seqno.load(Ordering::Acquire) + 1;
        self.seqno.store(seqno, Ordering::Release);
        seqno
''')]
META={'property': 'A10', 'needs': 'several threads that send to one peer at the same time', 'what_it_breaks': 'different packets carry the same sequence number, so a peer that watches for repetitions ignores the later ones'}
