async fn demo() -> CaseResult {
    let idv = ov_id(1, 0);
    let ov = Ov::new(&Key::nth(1), &[(idv, oopts())])?;
    let n = ONode::new(&Key::nth(2), &idv, 1);
    let id = short(&Key::nth(2).id);
    let addr = std::net::SocketAddrV4::new(ip(7), 4000);
    check!(ov.add(0, &n, addr).is_some() && ov.o[0].is_active_public_peer(&id), "a member is refused");
    check!(ov.o[0].remove_public_peer(&id) && !ov.o[0].is_active_public_peer(&id), "a member is not removed");
    ov.add(0, &ONode::new(&Key::nth(2), &idv, 2), addr);
    check!(ov.o[0].is_active_public_peer(&id), "a member that is added again stays inactive");
    Ok(true)
}
