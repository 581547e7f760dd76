async fn demo() -> CaseResult {
    let d = Dht::new(&Key::nth(1), dopts())?;
    let mut p = RefPeer::new(Key::nth(2), &d.s);
    p.connect().await?;
    let now = clock::unix();
    for round in 0..400u64 {
        let name = format!("value {round}").into_bytes();
        let vs: Vec<Val> = (0..16u64).map(|i| Val::signed(&Key::nth(3), &name, 0, &i.to_le_bytes(), now + 100 + (i * 7 % 16) as u32)).collect();
        let start = Arc::new(std::sync::Barrier::new(4));
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (vs, d, start) = (vs[t * 4..t * 4 + 4].to_vec(), d.d.clone(), start.clone());
                std::thread::spawn(move || {
                    clock::start();
                    let bytes: Vec<Vec<u8>> = vs.iter().map(|v| v.tl()).collect();
                    start.wait();
                    for b in &bytes {
                        let v: everscale_network::proto::dht::Value = everscale_network::tl::deserialize(b).unwrap();
                        d.store_value(v).unwrap().only_locally();
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let Found::Value(v) = ask_value(&mut p, &vs[0].key.hash(), 4).await? else { viol!("the value is not found") };
        let t = vs.iter().map(|v| v.ttl).max().unwrap();
        check!(v.ttl == t, "round {round}: a value until {} is found, one until {t} was stored", v.ttl);
    }
    Ok(true)
}
use std::sync::Arc;
