async fn demo() -> CaseResult {
    let b = RlSut::new(&Key::nth(1), Default::default())?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    let q = sized_query(7, 300, 500);
    let out = Out::new([5; 32], &rl::wrap_query(&[9; 32], 10_000, clock::unix() + 20, &compress(&q)), &[], 768);
    for i in 0..out.parts[0].k() + 2 {
        p.rl(&out.msg(0, i));
    }
    let mut inn = In::default();
    for _ in 0..50 {
        settle().await;
        for m in p.poll_rl() {
            if let Some(r) = inn.take(&m) {
                p.rl(&r);
            }
        }
        if inn.done {
            break;
        }
        advance(10, 10).await;
    }
    let e = b.take();
    check!(e.len() == 1 && e[0].data == q, "the query is not delivered");
    check!(inn.done, "no answer");
    let (_, a) = parse_answer(&inn.data).ok_or(Fail::Viol("not an answer".into()))?;
    check!(decompress(&a) == Some(sized_answer(&q)), "the answer is not compressed");
    Ok(true)
}
