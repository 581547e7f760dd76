async fn demo() -> CaseResult {
    let mut k = everscale_network::adnl::Keystore::default();
    check!(k.add_key([1; 32], 1).is_ok() && k.add_key([2; 32], 2).is_ok() && k.add_key([2; 32], 2).is_ok(), "a key is refused");
    check!(k.add_key([2; 32], 1).is_err(), "a key is added under the tag of another one");
    check!(k.add_key([1; 32], 2).is_err(), "a key is added under the tag of another one");
    check!(k.add_key([3; 32], 1).is_err(), "a key is added under the tag of another one");
    Ok(true)
}
