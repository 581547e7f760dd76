async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    let v = Val::signed(p.key(), b"x", 0, &[1, 2, 3, 4], clock::unix() + 7);
    check!(d.store_local(&v), "a value is refused");
    check!(matches!(ask_value(&mut p, &v.key.hash(), 4).await?, Found::Value(_)), "a stored value is not found");
    while clock::unix() < v.ttl {
        advance(1000, 1000).await;
    }
    check!(!matches!(ask_value(&mut p, &v.key.hash(), 4).await?, Found::Value(_)), "a value is found after its time");
    Ok(true)
}
