async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    s.take();
    p.link.version = None;
    let data = payload(4, 40);
    let mut k = p.link.base(false, vec![Msg::Custom(data.clone())]);
    let mut t = 0u32;
    let d = loop {
        k.rand1 = [&t.to_le_bytes()[..], &[7; 3]].concat();
        let d = p.link.wrap_channel(false, &k);
        let mut x = [0u8; 4];
        for (i, b) in d[..32].iter().enumerate() {
            x[i % 4] ^= b;
        }
        for (i, b) in d[32..68].iter().enumerate() {
            x[i % 4] ^= b;
        }
        if x[0] == x[2] && x[1] == x[3] {
            break d;
        }
        t += 1;
        check!(t < 3_000_000, "no such packet");
    };
    p.raw(&d);
    check!(until(|| s.count() > 0).await, "a correct packet is not acted on");
    check!(s.take().iter().all(|e| e.data == data), "something else is delivered");
    Ok(true)
}
