async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    let old = p.link.clone();
    check!(s.node.remove_peer(&s.id(), &p.id()).unwrap_or(false), "a peer cannot be removed");
    let m = s.node.metrics();
    need!(m.channels_by_peers_len == 0, "a channel stays");
    // the same peer comes back after a restart
    clock::advance_ms(5000);
    let mut q = RefPeer::new(Key::nth(2), &s);
    q.link.chan_key = Key::nth(77);
    q.connect().await?;
    s.take();
    let mut o = old;
    let d = o.channel(true, vec![Msg::Custom(payload(1, 50))]);
    q.raw(&d);
    mark(&mut q).await?;
    check!(s.take().iter().all(|e| e.query), "a message over the channel of a removed peer is delivered");
    Ok(true)
}
