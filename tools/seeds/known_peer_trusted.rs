async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let k = Key::nth(3);
    let good = Rec::new(&k, std::net::SocketAddrV4::new([10, 0, 0, 1].into(), 5), 1);
    let mut bad = Rec::new(&k, std::net::SocketAddrV4::new([10, 0, 0, 2].into(), 6), 9);
    bad.sig = vec![3; 64];
    check!(!matches!(d.d.add_dht_peer(bad.owned()), Ok(Some(_))), "a forged record is taken");
    check!(matches!(d.d.add_dht_peer(good.owned()), Ok(Some(_))), "a record is refused");
    check!(!matches!(d.d.add_dht_peer(bad.owned()), Ok(Some(_))), "a forged record of a known node is taken");
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    let a = p.query(false, &find_node_query(&k.id, 10)).await;
    let l = a.and_then(|a| parse_nodes(&a)).unwrap_or_default();
    check!(l.iter().all(|r| r.signed()), "a forged record is handed out");
    Ok(true)
}
