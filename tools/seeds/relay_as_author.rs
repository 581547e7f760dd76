async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    let author = Key::nth(3);
    let d = payload(4, 100);
    send_custom(&mut p, &wrap(&idv, &Bc::new(&author, 1, &d, clock::unix()).tl())).await?;
    let got = ov.drain(0).await;
    check!(got.len() == 1 && got[0].0 == d, "{} broadcasts", got.len());
    check!(got[0].1 == author.id, "another author is reported");
    Ok(true)
}
