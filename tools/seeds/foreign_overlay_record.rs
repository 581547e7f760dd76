async fn demo() -> CaseResult {
    let k = Key::nth(5);
    let mut a = [7u8; 32];
    for i in 0..32 {
        let mine = everscale_network::overlay::IdShort::new([7u8; 32]);
        a[i] ^= 1;
        let n = ONode::new(&k, &a, 3).tl();
        let n: everscale_network::proto::overlay::Node = everscale_network::tl::deserialize(&n).unwrap();
        check!(mine.verify_overlay_node(&n).is_err(), "a record of an overlay that differs in byte {i} is accepted");
        a[i] ^= 1;
    }
    let n = ONode::new(&k, &a, 3).tl();
    let n: everscale_network::proto::overlay::Node = everscale_network::tl::deserialize(&n).unwrap();
    check!(everscale_network::overlay::IdShort::new(a).verify_overlay_node(&n).is_ok(), "a good record is refused");
    Ok(true)
}
