async fn demo() -> CaseResult {
    use std::future::Future;
    use std::sync::{Arc, Mutex};
    let (node, addr) = new_node(&[Key::nth(1)], LOCAL, opts(), None)?;
    let events = Arc::new(Mutex::new(vec![]));
    let o = everscale_network::rldp::NodeOptions { max_peer_queries: 1, ..Default::default() };
    let rl = everscale_network::rldp::Node::new(node.clone(), vec![Recorder::new(&events, 0, default_reply)], o).unwrap();
    node.start().unwrap();
    let s = Sut { node, keys: vec![Key::nth(1)], addr, events };
    let sink = vcore::net::Sock::any();
    let me = s.id();
    let h = tokio::runtime::Handle::current();
    let held: Mutex<Vec<std::pin::Pin<Box<dyn Future<Output = ()> + Send>>>> = Default::default();
    for round in 0..400u64 {
        let k = Key::nth(2 + round);
        s.add_peer(&k, sink.addr);
        let id = short(&k.id);
        let before = rl.metrics().transfers_cache_len;
        let ready = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| {
                    let _g = h.enter();
                    let rl = rl.clone();
                    let mut f: std::pin::Pin<Box<dyn Future<Output = ()> + Send>> = Box::pin(async move {
                        rl.query(&me, &id, vec![1; 20], None).await.ok();
                    });
                    let w = futures_util::task::noop_waker();
                    ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while ready.load(std::sync::atomic::Ordering::SeqCst) < 4 {
                        std::hint::spin_loop();
                    }
                    if f.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_pending() {
                        held.lock().unwrap().push(f);
                    }
                });
            }
        });
        // (a query under way is two entries: its own and the one of its answer)
        let n = rl.metrics().transfers_cache_len - before;
        check!(n <= 2, "round {round}: {} queries are in flight, 1 is allowed", n / 2);
    }
    Ok(true)
}
