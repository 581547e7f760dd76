use crate::fx::*;
pub fn run(c: &mut Ctx) {
    c.scenario("refpeer", "always", 200, || 0u64..1000, |n| crate::fx::run(async {
        let s = Sut::new(&Key::nth(*n), opts())?;
        let mut p = RefPeer::new(Key::nth(n + 5000), &s);
        p.connect().await?;
        let a = p.query(true, &payload(*n, 500)).await;
        check!(a == Some(answer_for(&payload(*n, 500))), "answer");
        let evs = s.take();
        check!(evs.len() >= 2, "{}", evs.len());
        // node asks
        let node = s.node.clone();
        let (l, r) = (s.id(), p.id());
        let h = tokio::spawn(async move { node.query_raw(&l, &r, payload(1, 100).into(), None).await });
        let mut done = false;
        until(|| { for m in p.msgs() { if let Msg::Query { id, data } = m {
            p.send(true, vec![Msg::Answer { id, data: answer_for(&data) }]); done = true; } } done }).await;
        let mut res = None;
        until(|| h.is_finished()).await;
        if h.is_finished() { res = h.await.unwrap().unwrap(); }
        check!(res == Some(answer_for(&payload(1, 100))), "node query {:?}", res);
        Ok(true)
    }));
    c.scenario("tap", "always", 200, || 0u64..1000, |n| crate::fx::run(async {
        let a = Sut::with(&[Key::nth(*n)], ip(0), opts(), default_reply)?;
        let b = Sut::with(&[Key::nth(n + 7000)], ip(1), opts(), default_reply)?;
        let (ta, tb) = (Tap::new(a.addr)?, Tap::new(b.addr)?);
        a.add_peer(b.key(), b.addr);
        let node = a.node.clone();
        let (l, r) = (a.id(), b.id());
        let h = tokio::spawn(async move { node.query_raw(&l, &r, payload(1, 100).into(), None).await });
        let mut n = 0;
        check!(until(|| { for (t, p) in [(&ta, b.addr.port()), (&tb, a.addr.port())] { while let Some((d, from)) = t.recv() { assert_eq!(from, p); n += 1; t.forward(&d); } } h.is_finished() }).await, "not done {n}");
        check!(n >= 2, "tapped {n}");
        let r = h.await.unwrap().unwrap();
        check!(r == Some(answer_for(&payload(1, 100))), "answer {r:?}");
        Ok(true)
    }));
}
