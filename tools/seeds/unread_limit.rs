async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    let n = 400u64;
    for i in 0..n {
        p.send_msg(false, Msg::Custom(wrap(&idv, &Bc::new(&Key::nth(9), 1, &i.to_le_bytes(), clock::unix()).tl())));
        if i % 10 == 0 {
            mark(&mut p).await?;
        }
    }
    mark(&mut p).await?;
    let got = ov.drain(0).await;
    check!(got.len() as u64 == n && got.iter().enumerate().all(|(i, d)| d.0 == (i as u64).to_le_bytes()), "{} of {n} broadcasts are handed out", got.len());
    Ok(true)
}
