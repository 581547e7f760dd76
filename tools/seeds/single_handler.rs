async fn demo() -> CaseResult {
    let (a, b) = (ov_id(1, 1), ov_id(1, 2));
    let v = Ov::new(&Key::nth(1), &[(a, oopts()), (b, oopts())])?;
    let events = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let r: std::sync::Arc<dyn everscale_network::QuerySubscriber> = Recorder::new(&events, 3, default_reply);
    need!(v.on.add_overlay_subscriber(everscale_network::overlay::IdShort::new(a), r), "a handler is refused");
    let mut p = RefPeer::new(Key::nth(2), &v.s);
    p.connect().await?;
    let mine = p.query(false, &ov::wrap_query(&a, &[1, 2, 3, 4, 5, 6, 7, 8])).await;
    check!(mine.is_some() && events.lock().unwrap().len() == 1, "a query to the first overlay is not answered");
    for other in [b, ov_id(1, 3)] {
        p.send_msg(false, Msg::Query { id: [1; 32], data: ov::wrap_query(&other, &[1, 2, 3, 4, 5, 6, 7, 9]) });
        mark(&mut p).await?;
        check!(events.lock().unwrap().len() == 1, "the handler of one overlay is asked for another");
    }
    Ok(true)
}
