async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let owner = Key::nth(3);
    let now = clock::unix();
    let v = Val::signed(&owner, b"x", 0, &[1, 2, 3, 4], now + 100);
    let mut w = Val::signed(&owner, b"x", 0, &[5, 6, 7, 8], now + 200);
    w.key_sig = vec![7; 64];
    w.sign_value(&owner);
    check!(!d.store_local(&w), "a value with a wrong key signature is stored");
    check!(d.store_local(&v), "a value is refused");
    check!(!d.store_local(&w), "a value with a wrong key signature replaces the stored one");
    Ok(true)
}
