async fn demo() -> CaseResult {
    let b = RlSut::new(&Key::nth(1), Default::default())?;
    let mut p = RefPeer::new(Key::nth(2), &b.s);
    p.connect().await?;
    let q = sized_query(7, 3000, 50);
    let out = Out::new([5; 32], &rl::wrap_query(&[9; 32], 10_000, clock::unix() + 20, &q), &[1500, 1500], 768);
    need!(out.parts.len() >= 2, "one part");
    let mut part = 0u32;
    let mut esi = 0u32;
    let mut lost = false;
    // the first acknowledgement of part 0 is lost
    for _ in 0..60 {
        if part as usize >= out.parts.len() {
            break;
        }
        p.rl(&out.msg(part, esi));
        esi += 1;
        settle().await;
        for m in p.poll_rl() {
            if let Rl::Complete { part: x, .. } = m {
                if x == part {
                    if part == 0 && !lost {
                        lost = true;
                    } else {
                        part += 1;
                        esi = 0;
                    }
                }
            }
        }
        advance(10, 10).await;
    }
    check!(lost && part as usize == out.parts.len(), "the transfer does not get beyond part {part}");
    let e = b.take();
    check!(e.len() == 1 && e[0].data == q, "the query is not delivered");
    Ok(true)
}
