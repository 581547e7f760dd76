async fn demo() -> CaseResult {
    use everscale_network::SubscriberContext;
    use std::collections::BTreeMap;
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let sub = ov.on.query_subscriber();
    let (local, peer) = (ov.s.id(), short(&Key::nth(9).id));
    let members: Vec<Key> = (0..4u64).map(|i| Key::nth(10 + i)).collect();
    for round in 0..500u32 {
        let versions: Vec<Vec<u32>> = (0..4u32).map(|t| (0..4u32).map(|m| round * 10 + (t + m) % 4).collect()).collect();
        let queries: Vec<Vec<u8>> = versions
            .iter()
            .map(|v| {
                let l: Vec<ONode> = v.iter().zip(&members).map(|(v, k)| ONode::new(k, &idv, *v)).collect();
                ov::wrap_query(&idv, &W::new().u32(id::get_random_peers()).raw(&ONode::list(&l)[4..]).done())
            })
            .collect();
        let ready = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for q in &queries {
                let (sub, ov, local, peer, ready) = (&sub, &ov, &local, &peer, &ready);
                sc.spawn(move || {
                    let ctx = SubscriberContext { adnl: &ov.s.node, local_id: local, peer_id: peer };
                    let tag = u32::from_le_bytes(q[..4].try_into().unwrap());
                    ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while ready.load(std::sync::atomic::Ordering::SeqCst) < 4 {
                        std::hint::spin_loop();
                    }
                    futures_util::FutureExt::now_or_never(sub.try_consume_query(ctx, tag, std::borrow::Cow::Borrowed(q)));
                });
            }
        });
        let got: BTreeMap<Vec<u8>, u32> = ov.o[0].take_new_peers().into_iter().map(|(_, n)| (everscale_network::tl::serialize(n.id), n.version)).collect();
        check!(got.len() == 4 && got.values().all(|v| *v == round * 10 + 3), "round {round}: versions {:?} are kept instead of {}", got.values().collect::<Vec<_>>(), round * 10 + 3);
    }
    Ok(true)
}
