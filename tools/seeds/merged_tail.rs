async fn demo() -> CaseResult {
    let s = Sut::new(&Key::nth(1), opts())?;
    let mut p = RefPeer::new(Key::nth(2), &s);
    check!(s.add_peer(p.key(), p.addr()), "a peer is refused");
    for len in (1000..5000usize).step_by(61) {
        s.node.send_custom_message(&s.id(), &p.id(), &payload(len as u64, len)).map_err(|e| Fail::Harness(e.to_string()))?;
        settle().await;
        for g in p.poll() {
            check!(g.len < 1500, "a datagram of {} bytes for a message of {len}", g.len);
        }
    }
    Ok(true)
}
