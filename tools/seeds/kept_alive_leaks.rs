async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), everscale_network::adnl::NodeOptions { transfer_timeout_sec: 3, ..opts() })?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    p.connect().await?;
    let parts = Msg::Custom(payload(3, 4500)).split(500);
    for i in 0..5 {
        p.send(false, vec![parts[i].clone()]);
        settle().await;
        advance(1000, 100).await;
    }
    check!(s.node.metrics().incoming_transfers_len == 1, "the transfer is forgotten while its parts come");
    advance(15_000, 100).await;
    let n = s.node.metrics().incoming_transfers_len;
    check!(n == 0, "{n} abandoned transfers stay in memory");
    Ok(true)
}
