async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    for round in 0..150u32 {
        let start = std::sync::Arc::new(std::sync::Barrier::new(4));
        let hs: Vec<_> = (0..4u32)
            .map(|t| {
                let (node, me, you, start) = (s.node.clone(), s.id(), p.id(), start.clone());
                std::thread::spawn(move || {
                    start.wait();
                    for i in 0..60u32 {
                        node.send_custom_message(&me, &you, &[&[9u8; 4][..], &t.to_le_bytes(), &i.to_le_bytes(), &round.to_le_bytes()].concat()).unwrap();
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let mut seen = std::collections::HashSet::new();
        let (mut n, mut twice) = (0, 0);
        until(|| {
            for g in p.poll() {
                if g.packet.messages.iter().any(|m| matches!(m, Msg::Custom(_))) {
                    n += 1;
                    twice += !seen.insert((g.how == (How::Channel { priority: true }), g.packet.seqno)) as u32;
                }
            }
            n == 240
        })
        .await;
        need!(n == 240, "{n} of 240 packets arrive");
        check!(twice == 0, "round {round}: {twice} packets repeat a sequence number");
    }
    Ok(true)
}
