async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    let (n, l, r) = (s.node.clone(), s.id(), p.id());
    let h = tokio::spawn(async move { n.query_raw(&l, &r, vec![1, 2, 3, 4, 5].into(), Some(600)).await.ok().flatten() });
    settle().await;
    check!(s.node.metrics().query_count == 1, "a query in flight is not pending");
    advance(2000, 100).await;
    need!(h.is_finished(), "the query has not ended");
    check!(h.await.unwrap().is_none(), "an answer nobody gave");
    let n = s.node.metrics().query_count;
    check!(n == 0, "{n} queries stay pending");
    Ok(true)
}
