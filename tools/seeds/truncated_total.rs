async fn demo() -> CaseResult {
    let b = RlSut::new(&Key::nth(1), Default::default())?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    vcore::alloc::mark();
    let out = Out::new([5; 32], &payload(4, 700), &[], 768);
    let mut m = out.msg(0, 0);
    if let Rl::Part { total, .. } = &mut m {
        *total = (1 << 32) + 1000;
    } else {
        return Err(Fail::Harness("no part".into()));
    }
    p.rl(&m);
    settle().await;
    check!(vcore::alloc::largest() < 100_000_000, "{} bytes are reserved", vcore::alloc::largest());
    Ok(true)
}
