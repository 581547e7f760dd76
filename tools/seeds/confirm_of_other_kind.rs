async fn demo() -> CaseResult {
    let mut o = opts();
    o.packet_history_enabled = true;
    let s = Sut::new(&Key::nth(1), o)?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    for i in 0..10u8 {
        need!(p.query(false, &[5, 5, 5, 5, i]).await.is_some(), "no answer");
    }
    let q = sha256(b"priority");
    p.send(true, vec![Msg::Query { id: q, data: vec![6, 6, 6, 6] }]);
    let mut confirm = None;
    until(|| {
        for g in p.poll() {
            if g.how == (How::Channel { priority: true }) {
                confirm = g.packet.confirm;
            }
        }
        confirm.is_some()
    })
    .await;
    need!(confirm.is_some(), "no answer over the priority channel");
    check!(confirm <= Some(p.link.sent[1]), "a priority packet confirms {confirm:?} but {} were sent", p.link.sent[1]);
    Ok(true)
}
