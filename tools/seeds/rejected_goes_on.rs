use std::sync::{Arc, Mutex};
async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let mine = Arc::new(Mutex::new(vec![]));
    let r = Recorder::new(&mine, 7, |_| Reply::Reject);
    check!(ov.on.add_overlay_subscriber(everscale_network::overlay::IdShort::new(idv), r), "no handler is registered");
    let mut p = RefPeer::new(Key::nth(2), &ov.s);
    p.connect().await?;
    mark(&mut p).await?;
    ov.s.take();
    let q = [9u8, 9, 9, 9, 1, 2, 3, 4];
    p.send_msg(false, Msg::Query { id: [3; 32], data: ov::wrap_query(&idv, &q) });
    mark(&mut p).await?;
    check!(mine.lock().unwrap().len() == 1, "the handler of the overlay does not see the query");
    let e: Vec<Ev> = ov.s.take().into_iter().filter(|e| e.data == q).collect();
    check!(e.is_empty(), "a query of the overlay reaches a plain handler");
    Ok(true)
}
