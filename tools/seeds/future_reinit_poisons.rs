async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    let a = p.query(false, &[9, 9, 9, 9, 1]).await;
    check!(a.is_some(), "no answer to a new peer");
    // its clock is wrong for a moment
    let mut c = p.link.handshake_contents(vec![Msg::Custom(payload(5, 40))]);
    let r = p.link.reinit;
    c.reinit = Some((r + 100_000, p.link.remote_reinit));
    let k = p.link.me.clone();
    c.sign(&k);
    let d = p.link.wrap_handshake(&c);
    s.take();
    p.raw(&d);
    settle().await;
    check!(s.take().is_empty(), "a packet with a date from the future is accepted");
    let q = sha256(b"q");
    let d = p.link.handshake(vec![Msg::Query { id: q, data: vec![9, 9, 9, 9, 2] }]);
    p.raw(&d);
    check!(p.wait_answer(q).await.is_some(), "a packet with the right date is not accepted any more");
    Ok(true)
}
