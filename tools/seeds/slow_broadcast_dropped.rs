use everscale_network::overlay::OverlayOptions;
async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let o = OverlayOptions { max_broadcast_log: 0, broadcast_timeout_sec: 3, broadcast_gc_interval_ms: 100, ..oopts() };
    let ov = Ov::new(&Key::nth(1), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    let s = Sender::new(&Key::nth(9), &payload(4, 3000), 1, false, 768);
    for q in 0..s.sym.k() + 4 {
        send_custom(&mut p, &wrap(&idv, &s.part(q, clock::unix()).tl())).await?;
        advance(2000, 100).await;
    }
    let got = ov.drain(0).await;
    check!(got.len() == 1 && got[0].0 == s.data, "the broadcast is not delivered");
    Ok(true)
}
