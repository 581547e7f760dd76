async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let keys: Vec<Key> = (2..6).map(Key::nth).collect();
    let mut m = ov.members(0, &keys).await?;
    let s = Sender::new(&Key::nth(9), &payload(4, 2000), 1, false, 768);
    for q in 0..6 {
        let w = wrap(&idv, &s.part(q, clock::unix()).tl());
        let back = send_custom(&mut m[0], &w).await?;
        check!(back.is_empty(), "a part is sent back");
        let n: usize = m[1..].iter_mut().map(|x| customs(x).iter().filter(|d| **d == w).count()).sum();
        check!(n == 3, "a part is passed on to {n} of 3 neighbours");
    }
    Ok(true)
}
