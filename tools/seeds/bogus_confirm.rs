async fn demo() -> CaseResult {
    let b = RlSut::new(&Key::nth(1), Default::default())?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    let asked = b.spawn(&p.key().id, sized_query(7, 200, 50), None);
    settle().await;
    let l = p.poll_rl();
    let Some(Rl::Part { id, .. }) = l.first() else { return Err(Fail::Harness("nothing is sent".into())) };
    p.rl(&Rl::Confirm { id: *id, part: 0, seqno: 0x7fff_0000 });
    settle().await;
    for _ in 0..1200 {
        advance(100, 50).await;
        p.poll_rl();
        if asked.done() {
            break;
        }
    }
    check!(asked.done(), "the query goes on for two minutes after an impossible confirmation");
    Ok(true)
}
