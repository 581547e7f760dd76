use everscale_network::overlay::{BroadcastTarget, OverlayOptions};
async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, OverlayOptions { broadcast_target_count: 2, ..oopts() })])?;
    let keys: Vec<Key> = (2..8).map(Key::nth).collect();
    let mut m = ov.members(0, &keys).await?;
    let info = ov.o[0].broadcast(&ov.s.node, payload(4, 5000), None, BroadcastTarget::RandomNeighbours);
    check!(info.recipient_count == 2, "{} recipients", info.recipient_count);
    let mut got = vec![0; m.len()];
    for _ in 0..20 {
        settle().await;
        for (i, p) in m.iter_mut().enumerate() {
            got[i] += customs(p).len();
        }
        advance(20, 10).await;
    }
    check!(got.iter().filter(|x| **x > 0).count() == 2, "the parts went to {got:?}");
    Ok(true)
}
