async fn demo() -> CaseResult {
    let mut o = opts();
    o.channel_reset_timeout_sec = 5;
    let s = Sut::new(&Key::nth(1), o)?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    p.send(false, vec![Msg::Custom(payload(1, 30))]);
    mark(&mut p).await?;
    need!(s.node.metrics().channels_by_peers_len == 1, "no channel");
    for i in 0..20u64 {
        let (n, l, r) = (s.node.clone(), s.id(), p.id());
        let h = tokio::spawn(async move { n.query_raw(&l, &r, vec![1, 2, 3, 4].into(), Some(500)).await.is_ok() });
        settle().await;
        advance(1000, 100).await;
        need!(h.is_finished(), "a query has not ended");
        p.send(false, vec![Msg::Custom(payload(i, 30))]);
        let n = s.count();
        until(|| s.count() > n).await;
        check!(s.node.metrics().channels_by_peers_len == 1, "the channel is dropped although packets arrive over it");
    }
    Ok(true)
}
