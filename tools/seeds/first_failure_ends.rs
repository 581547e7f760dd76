use everscale_network::overlay::BroadcastTarget;
async fn demo() -> CaseResult {
    for lost in 0..4usize {
        let idv = ov_id(1, 0);
        let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
        let keys: Vec<Key> = (2..6).map(Key::nth).collect();
        let mut m = ov.members(0, &keys).await?;
        // a neighbour that is unknown to the ADNL node
        let gone = ov.s.node.remove_peer(&ov.s.id(), &m[lost].id());
        check!(matches!(gone, Ok(true)), "a peer is not removed");
        for t in 0..4 {
            ov.o[0].broadcast(&ov.s.node, payload(4 + t, 50), None, BroadcastTarget::RandomNeighbours);
            settle().await;
            for i in 0..4 {
                let n = customs(&mut m[i]).len();
                check!(n == (i != lost) as usize, "the neighbour {i} gets {n} messages while {lost} is unknown");
            }
        }
    }
    Ok(true)
}
