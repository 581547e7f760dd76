async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    s.take();
    for (k, pause) in [0u64, 400, 1000, 1500].iter().enumerate() {
        let data = payload(3 + k as u64, 6300);
        for part in Msg::Custom(data.clone()).split(1000) {
            p.send(false, vec![part]);
            settle().await;
            advance(*pause, 100).await;
        }
        mark(&mut p).await?;
        let got: Vec<Ev> = s.take().into_iter().filter(|e| !e.query).collect();
        check!(got.len() == 1 && got[0].data == data, "{} messages are delivered with {pause} ms between the parts", got.len());
    }
    Ok(true)
}
