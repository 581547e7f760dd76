async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    let blob = compress(&payload(5, 3000));
    check!(decompress(&blob).is_some(), "not a blob");
    let s = Sender::new(&Key::nth(9), &blob, 1, false, 768);
    for q in 0..s.sym.k() + 3 {
        send_custom(&mut p, &wrap(&idv, &s.part(q, clock::unix()).tl())).await?;
    }
    let got = ov.drain(0).await;
    check!(got.len() == 1 && got[0].0 == blob, "other data than the one of the id is delivered");
    Ok(true)
}
