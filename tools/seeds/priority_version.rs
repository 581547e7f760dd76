async fn demo() -> CaseResult {
    for v in [None, Some(0u32), Some(5)] {
        for reinit in [None, Some((1, 2))] {
            let p = vcore::adnl::Packet {
                rand1: vec![1; 7],
                from: Some([3; 32]),
                from_short: None,
                single: true,
                no_messages: false,
                messages: vec![Msg::Custom(vec![1; 12])],
                address: None,
                priority_address: None,
                seqno: Some(1),
                confirm: Some(0),
                recv_ver: v,
                recv_prio_ver: v,
                reinit,
                signature: None,
                rand2: vec![2; 7],
                extra_flags: 0,
            };
            let d = p.encode();
            let r = everscale_network::tl::deserialize::<everscale_network::proto::adnl::IncomingPacketContents>(&d);
            check!(r.is_ok(), "a packet with versions {v:?} is not read");
            let r = r.unwrap();
            check!(r.seqno == Some(1) && r.reinit_dates.map(|x| (x.local, x.target)) == reinit, "a packet with versions {v:?} is misread");
        }
    }
    Ok(true)
}
