async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    let before = s.node.get_peer_address(&s.id(), &p.id());
    need!(before == Some(p.addr()), "the address of the peer is {before:?}");
    let mut e = RefPeer::new(Key::nth(2), &s);
    let mut c = e.link.handshake_contents(vec![Msg::Custom(payload(5, 40))]);
    c.sign(&Key::nth(3));
    let d = e.link.wrap_handshake(&c);
    s.take();
    e.raw(&d);
    let _ = p.query(false, &[9, 9, 9, 9]).await;
    settle().await;
    let after = s.node.get_peer_address(&s.id(), &p.id());
    check!(after == before, "the address of the peer is {after:?} after a forged packet");
    check!(s.take().iter().all(|e| e.query), "a forged message is delivered");
    Ok(true)
}
