async fn demo() -> CaseResult {
    for first in 0..2u64 {
        let d = Dht::new(&Key::nth(1 + first), dopts())?;
        let (k, now) = (Key::nth(50), clock::unix());
        let a = std::net::SocketAddrV4::new([10, 0, 0, 9].into(), 99);
        let val = |expire: u32| {
            let l = AddrList::one(a, 1, 0, expire).write(W::new().u32(vcore::tl::crc("adnl.addressList addrs:(vector adnl.Address) version:int reinit_date:int priority:int expire_at:int = adnl.AddressList"))).done();
            Val::signed(&k, b"address", 0, &l, now + 100)
        };
        let mut servers = vec![];
        for i in 0..2u64 {
            let v = val(if i == first { now - 5 } else { 0 }).found();
            let s = Server::new(Key::nth(10 + i), &d, move |_| vec![v.clone()]);
            check!(matches!(d.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a peer is refused");
            servers.push(s);
        }
        let (n, id) = (d.d.clone(), short(&k.id));
        let got = drive(&mut servers, 60_000, async move { n.find_address(&id).await.ok().map(|x| x.0) }).await?;
        check!(got == Some(Some(a)), "the address is hidden by an outdated one: {got:?}");
    }
    Ok(true)
}
