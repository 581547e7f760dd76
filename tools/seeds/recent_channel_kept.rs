async fn demo() -> CaseResult {
    let a = Sut::new(&Key::nth(1), opts())?;
    let b = Sut::new(&Key::nth(2), opts())?;
    a.add_peer(&Key::nth(2), b.addr);
    b.add_peer(&Key::nth(1), a.addr);
    for _ in 0..2 {
        for (x, y) in [(&a, &b), (&b, &a)] {
            x.node.send_custom_message(&x.id(), &y.id(), &payload(1, 20)).unwrap();
            need!(until(|| !y.take().is_empty()).await, "no channel");
        }
    }
    // b comes back four seconds later, on another port
    b.node.shutdown();
    advance(4000, 500).await;
    let b = Sut::new(&Key::nth(2), opts())?;
    b.add_peer(&Key::nth(1), a.addr);
    for i in 0..3u64 {
        b.node.send_custom_message(&b.id(), &a.id(), &payload(i, 20)).unwrap();
        need!(until(|| !a.take().is_empty()).await, "b is not heard");
        a.node.send_custom_message(&a.id(), &b.id(), &payload(i + 10, 20)).unwrap();
        check!(until(|| !b.take().is_empty()).await, "a restarted peer does not get message {i}");
    }
    Ok(true)
}
