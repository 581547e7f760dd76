async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), everscale_network::adnl::NodeOptions { packet_history_enabled: true, ..opts() })?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    // no more than one window at once
    let mut all = vec![];
    for n in 0..300u64 {
        let d = p.link.packet(false, vec![Msg::Custom(payload(n, 20))]);
        p.raw(&d);
        settle().await;
        all.push(d);
    }
    mark(&mut p).await?;
    let n = s.take().iter().filter(|e| !e.query).count();
    check!(n == 300, "{n} of 300 packets are processed");
    for d in &all[100..] {
        p.raw(d);
        settle().await;
    }
    mark(&mut p).await?;
    let n = s.take().iter().filter(|e| !e.query).count();
    check!(n == 0, "{n} packets are processed again");
    Ok(true)
}
