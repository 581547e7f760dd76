use std::sync::{Arc, Mutex};
async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let answers = Arc::new(Mutex::new(false));
    let a2 = answers.clone();
    let s = Server::new(Key::nth(2), &d, move |q| {
        let mut r = R(q);
        match r.id(id::dht_ping()).and_then(|_| r.u64()) {
            Some(x) if *a2.lock().unwrap() => vec![W::new().u32(id::dht_pong()).u64(x).done()],
            _ => vec![],
        }
    });
    check!(d.d.add_dht_peer(s.rec(1).owned()).ok().flatten().is_some(), "a node is refused");
    let peer = s.p.id();
    let mut servers = vec![s];
    for i in 0..6 {
        *answers.lock().unwrap() = i > 0;
        let (n, p) = (d.d.clone(), peer);
        let r = drive(&mut servers, 60_000, async move { n.ping(&p).await.ok() }).await?;
        check!(r == Some(Some(i > 0)), "ping {i} gives {r:?}");
        check!(!d.d.is_bad_peer(&peer), "after ping {i} the peer is bad");
    }
    Ok(true)
}
