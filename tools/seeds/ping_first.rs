async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    s.take();
    let q = W::new().u32(id::ping()).u64(5).done();
    let a = p.query(false, &q).await;
    let e = s.take();
    check!(e.len() == 1 && e[0].query && e[0].data == q, "the registered handler does not see the query");
    check!(a.is_some(), "no answer");
    Ok(true)
}
