async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    let name = b"some overlay name, 32 bytes long".to_vec();
    let ov = sha256(&overlay_pub(&name));
    let ttl = clock::unix() + 100;
    let mut key = None;
    for i in 0..3u64 {
        let v = Val::overlay(&name, &ONode::list(&[ONode::new(&Key::nth(10 + i), &ov, 1)]), ttl);
        check!(d.store_local(&v), "a list is refused");
        key = Some(v.key.hash());
    }
    match ask_value(&mut p, &key.unwrap(), 4).await? {
        Found::Value(v) => {
            let n = v.members().map(|l| l.len()).unwrap_or(0);
            check!(n == 3, "{n} of 3 members are stored");
        }
        _ => viol!("the list is not found"),
    }
    Ok(true)
}
