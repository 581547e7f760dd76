async fn demo() -> CaseResult {
    let mut k = everscale_network::adnl::Keystore::default();
    check!(k.add_key([1; 32], 1).is_ok(), "a key is refused");
    check!(k.add_key([1; 32], 2).is_err(), "a key is added twice");
    check!(k.key_by_tag(2).is_err(), "the refused addition took the tag");
    check!(k.add_key([2; 32], 2).is_ok(), "a new key is refused under an unused tag");
    Ok(true)
}
