async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    vcore::alloc::mark();
    let a = p.query(false, &find_node_query(&[5; 32], 20_000_000)).await;
    check!(a.and_then(|a| parse_nodes(&a)).is_some(), "no answer");
    check!(vcore::alloc::largest() < 100_000_000, "{} bytes are reserved for an empty answer", vcore::alloc::largest());
    Ok(true)
}
