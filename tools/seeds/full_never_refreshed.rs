async fn demo() -> CaseResult {
    let idv = ov_id(1, 1);
    let o = everscale_network::overlay::OverlayOptions { max_neighbours: 2, broadcast_gc_interval_ms: 500, overlay_peers_timeout_ms: 1000, ..oopts() };
    let a = Ov::new(&Key::nth(1), &[(idv, o)])?;
    let mut p = RefPeer::new(Key::nth(2), &a.s);
    p.connect().await?;
    for i in 0..4u16 {
        let n = ONode::new(&Key::nth(10 + i as u64), &idv, 1);
        check!(a.add(0, &n, std::net::SocketAddrV4::new(ip(40 + i as usize), 30000)).is_some(), "a member is refused");
    }
    let q = ov::wrap_query(&idv, &W::new().u32(id::get_random_peers()).u32(0).done());
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..300 {
        let Some(ans) = p.query(false, &q).await else { viol!("no answer") };
        let Some(l) = ONode::read_boxed(&ans) else { viol!("no list") };
        seen.extend(l.iter().skip(1).filter_map(|x| x.short()));
        advance(1000, 250).await;
    }
    check!(seen.len() == 4, "only {} of 4 members became neighbours in 300 intervals", seen.len());
    Ok(true)
}
