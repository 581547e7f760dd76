async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let keys: Vec<Key> = (2..5).map(Key::nth).collect();
    let mut m = ov.members(0, &keys).await?;
    for (author, from) in [(9, 0), (2, 0)] {
        let d = payload(4, 100 + author as usize);
        let w = wrap(&idv, &Bc::new(&Key::nth(author), 1, &d, clock::unix()).tl());
        send_custom(&mut m[from], &w).await?;
        let got = ov.drain(0).await;
        check!(got.len() == 1 && got[0].0 == d, "{} broadcasts", got.len());
        let n: usize = m[1..].iter_mut().map(|x| customs(x).iter().filter(|d| **d == w).count()).sum();
        check!(n == 2, "a broadcast that comes from {} is passed on to {n} of 2 neighbours", if author == 2 { "its author" } else { "another peer" });
    }
    Ok(true)
}
