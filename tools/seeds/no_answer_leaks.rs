async fn demo() -> CaseResult {
    let o = everscale_network::rldp::NodeOptions { query_min_timeout_ms: 200, query_max_timeout_ms: 500, ..Default::default() };
    let b = RlSut::with(&Key::nth(1), LOCAL, opts(), o, |_| Reply::NoAnswer)?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    let out = Out::new([5; 32], &rl::wrap_query(&[9; 32], 10_000, clock::unix() + 20, &sized_query(7, 200, 50)), &[], 768);
    for i in 0..3 {
        p.rl(&out.msg(0, i));
    }
    settle().await;
    check!(b.seen() == 1, "the query is not delivered");
    advance(4000, 50).await;
    let n = b.table();
    check!(n == 0, "{n} transfers stay in the table");
    Ok(true)
}
