use everscale_network::adnl::{NodeIdShort, PeersSet};
async fn demo() -> CaseResult {
    let id = |n: u8| NodeIdShort::new([n; 32]);
    let s = PeersSet::with_peers_and_capacity(&[id(1), id(1), id(2)], 4);
    check!(s.len() == 2, "{} entries", s.len());
    for n in 3..6 {
        check!(s.insert(id(n)), "a new entry is refused");
    }
    // the oldest one had to go
    for n in 1..6 {
        check!(s.contains(&id(n)) == (n != 1), "contains({n}) is {}", s.contains(&id(n)));
    }
    check!(s.len() == 4, "{} entries", s.len());
    let held: Vec<_> = s.iter().copied().collect();
    for n in 2..6 {
        check!(held.contains(&id(n)), "{n} got lost");
    }
    Ok(true)
}
