async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let me = d.s.keys[0].id;
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    // one node for each group that random keys can hit
    let mut have = std::collections::BTreeMap::new();
    for i in 100..3000u64 {
        let k = Key::nth(i);
        let g = prefix(&me, &k.id);
        if g < 9 && !have.contains_key(&g) {
            let addr = std::net::SocketAddrV4::new(ip(5), 1000 + g as u16);
            check!(d.d.add_dht_peer(Rec::new(&k, addr, 1).owned()).ok().flatten().is_some(), "a node is refused");
            have.insert(g, k.id);
        }
    }
    need!((0..8).all(|g| have.contains_key(&g)), "not all groups");
    for g in 0..8usize {
        for also in g + 1..8usize {
            let mut target = me;
            target[0] ^= 0x80 >> g;
            target[0] ^= 0x80 >> also;
            let a = try_query(&mut p, &find_node_query(&target, 20)).await?;
            let l: Vec<B32> = a.and_then(|a| parse_nodes(&a)).unwrap_or_default().iter().filter_map(|r| r.short()).collect();
            check!(l.contains(&have[&g]), "the node of group {g} is missing");
            check!(l.contains(&have[&also]), "the node of group {also} is missing");
        }
    }
    Ok(true)
}
