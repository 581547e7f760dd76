async fn demo() -> CaseResult {
    for same in [true, false] {
        let mut o = dopts();
        o.query_timeout_ms = 300;
        let d = Dht::new(&Key::nth(1), o)?;
        let full = everscale_network::overlay::IdFull::for_workchain_overlay(0, &[1; 32]);
        let ov = *full.compute_short_id().as_slice();
        let k = Key::nth(3);
        let mine = ONode::new(&k, &ov, 5);
        let held = Val::overlay(full.as_slice(), &ONode::list(&[if same { mine.clone() } else { ONode::new(&k, &ov, 9) }]), clock::unix() + 1000);
        let mut s = vec![Server::new(Key::nth(4), &d, move |q| {
            let mut r = R(q);
            let t = r.u32().unwrap_or(0);
            vec![if t == id::dht_store() {
                stored()
            } else if find_value_key(q).is_some() {
                held.found()
            } else {
                nodes_answer(&[])
            }]
        })];
        check!(matches!(d.d.add_dht_peer(s[0].rec(1).owned()), Ok(Some(_))), "a peer is refused");
        let w = mine.owned();
        let dd = d.d.clone();
        let r = drive(&mut s, 60_000, async move { dd.store_overlay_node(&full, w.as_equivalent_ref()).await }).await?;
        check!(matches!(r, Some(Ok(x)) if x == same), "the result is {r:?} while the peer holds {} record", if same { "the same" } else { "another" });
    }
    Ok(true)
}
