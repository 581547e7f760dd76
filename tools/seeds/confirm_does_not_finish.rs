async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    check!(s.add_peer(p.key(), p.addr()), "a peer is refused");
    // both send CreateChannel before they hear of each other
    s.node.send_custom_message(&s.id(), &p.id(), &payload(1, 40)).map_err(|e| Fail::Harness(e.to_string()))?;
    settle().await;
    let c = p.link.create_msg();
    let d = p.link.handshake(vec![c, Msg::Custom(payload(2, 40))]);
    p.raw(&d);
    until(|| s.count() == 1).await;
    check!(s.count() == 1, "a message is not delivered");
    p.msgs();
    // the reference side confirms, still in the handshake form
    for i in 0..6u64 {
        let c = p.link.confirm_msg().ok_or(Fail::Harness("no channel key".into()))?;
        let d = p.link.handshake(vec![c, Msg::Custom(payload(10 + i, 40))]);
        p.raw(&d);
        settle().await;
        s.node.send_custom_message(&s.id(), &p.id(), &payload(20 + i, 40)).map_err(|e| Fail::Harness(e.to_string()))?;
        settle().await;
        let got = p.poll();
        if got.iter().any(|g| matches!(g.how, How::Channel { .. })) {
            return Ok(true);
        }
    }
    viol!("the node does not use the channel the other side has confirmed")
}
