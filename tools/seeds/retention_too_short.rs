use everscale_network::overlay::OverlayOptions;
async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let o = OverlayOptions { max_broadcast_log: 2, broadcast_timeout_sec: 20, broadcast_gc_interval_ms: 200, ..oopts() };
    let ov = Ov::new(&Key::nth(1), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    let l: Vec<_> = (0..6u64).map(|i| wrap(&idv, &Bc::new(&Key::nth(9), 1, &i.to_le_bytes(), clock::unix()).tl())).collect();
    for round in 0..4 {
        for x in &l {
            send_custom(&mut p, x).await?;
        }
        let n = ov.drain(0).await.len();
        check!(n == if round == 0 { l.len() } else { 0 }, "round {round}: {n} broadcasts are delivered");
        advance(4000, 100).await;
    }
    Ok(true)
}
