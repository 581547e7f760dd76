async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    for version in [5u32, 9, 7] {
        let q = ov::wrap_query(&idv, &W::new().u32(id::get_random_peers()).raw(&ONode::list(&[ONode::new(&Key::nth(3), &idv, version)])[4..]).done());
        check!(p.query(false, &q).await.is_some(), "no answer");
    }
    let l = ov.o[0].take_new_peers();
    check!(l.len() == 1, "{} records are kept", l.len());
    for (_, n) in l {
        check!(n.version == 9, "version {} is kept", n.version);
    }
    Ok(true)
}
