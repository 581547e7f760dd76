use everscale_network::proto;
use futures_util::StreamExt;
async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let v = Val::signed(&Key::nth(3), b"x", 0, &W::new().u32(id::dht_pong()).u64(5).done(), clock::unix() + 100);
    for holder in 0..9u64 {
        let d2 = Dht::new(&Key::nth(100 + holder), dopts())?;
        let mut servers = vec![];
        for i in 0..9u64 {
            let a = if i == holder { v.found() } else { not_found(&[]) };
            let s = Server::new(Key::nth(1000 + holder * 10 + i), &d2, move |_| vec![a.clone()]);
            check!(matches!(d2.d.add_dht_peer(s.rec(1).owned()), Ok(Some(_))), "a peer is refused");
            servers.push(s);
        }
        let (n, id) = (d2.d.clone(), v.key.id);
        let got = drive(&mut servers, 60_000, async move { n.entry(&id, "x").values::<proto::dht::Pong>().use_full_batch().map(|x| x.1.random_id).collect::<Vec<_>>().await }).await?;
        check!(got == Some(vec![5]), "node {holder} holds the value and the lookup gives {got:?}");
    }
    drop(d);
    Ok(true)
}
