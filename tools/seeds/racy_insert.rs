use everscale_network::adnl::{NodeIdShort, PeersSet};
use std::sync::Arc;
async fn demo() -> CaseResult {
    for round in 0..300 {
        let set = Arc::new(PeersSet::with_capacity(1000));
        let start = Arc::new(std::sync::Barrier::new(4));
        let hs: Vec<_> = (0..4)
            .map(|_| {
                let (set, start) = (set.clone(), start.clone());
                std::thread::spawn(move || {
                    start.wait();
                    (0..250u8).filter(|i| set.insert(NodeIdShort::new([*i; 32]))).count()
                })
            })
            .collect();
        let n: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
        check!(n == 250 && set.len() == 250, "round {round}: {n} of 250 ids were told to be new");
    }
    Ok(true)
}
