async fn demo() -> CaseResult {
    let b = RlSut::new(&Key::nth(1), Default::default())?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    let q = sized_query(7, 300, 5000);
    let out = Out::new([5; 32], &rl::wrap_query(&[9; 32], 10_000, clock::unix() + 20, &q), &[], 768);
    for esi in 0..3 {
        p.rl(&out.msg(0, esi));
        settle().await;
    }
    // the acknowledgement is lost; the answer is on its way and not confirmed yet
    check!(until(|| b.seen() > 0).await, "the query is not delivered");
    advance(50, 10).await;
    p.poll_rl();
    let mut told = false;
    for esi in 3..8 {
        p.rl(&out.msg(0, esi));
        settle().await;
        advance(20, 10).await;
        for m in p.poll_rl() {
            told |= matches!(m, Rl::Complete { id, part: 0 } if id == [5; 32]);
        }
    }
    check!(told, "repeated symbols of the complete query are not acknowledged");
    check!(b.take().len() == 1, "the query is delivered again");
    Ok(true)
}
