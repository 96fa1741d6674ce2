pub mod c08 {
    use vstd::prelude::*;
    use serverx::*;
    use server::*;
    use urlx::url_of;
    verus! {
    /// C08 over the contracts: on a connection that is ready for the next request, requests and responses alternate and each response
    /// is the one due to the request before it.
    pub proof fn theorem_c08(router: Router, log: Seq<Ev>)
        requires served(router, log)
        ensures
            log.len() % 2 == 0,
            forall|i: int| 0 <= i < log.len() / 2 ==> answered(router, #[trigger] log[2 * i], log[2 * i + 1]),
        decreases log.len()
    {
        if log.len() >= 2 {
            let before = log.take(log.len() - 2);
            theorem_c08(router, before);
            assert forall|i: int| 0 <= i < log.len() / 2 implies answered(router, #[trigger] log[2 * i], log[2 * i + 1]) by {
                if i < before.len() / 2 {
                    assert(before[2 * i] == log[2 * i] && before[2 * i + 1] == log[2 * i + 1]);
                } else {
                    assert(2 * i == log.len() - 2);
                }
            }
        }
    }
    /// A refused request had its body read, a response to HEAD has nothing after its head, and a response is a refusal only when it is due.
    pub proof fn theorem_refused(router: Router, q: Ev, a: Ev)
        requires answered(router, q, a), url_of(q->Read_head.target) is None
        ensures
            q->Read_body is Some,
            exists|body: Seq<u8>| tells(400, a->Wrote_head, body) && a->Wrote_body == (if q->Read_head.method is Head { Seq::<u8>::empty() } else { body }),
    {
        let body = choose|body: Seq<u8>| #[trigger] due(router, q->Read_head, q->Read_body, a->Wrote_head, body)
            && a->Wrote_body == (if q->Read_head.method is Head { Seq::<u8>::empty() } else { body });
        assert(tells(400, a->Wrote_head, body));
    }
    }
}
