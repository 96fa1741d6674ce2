pub mod c13 {
    use vstd::prelude::*;
    use serde::HasData;
    use embedx::*;
    use problemx::RpcResponse;
    use rfc7807::{Problem, ProblemResponse};
    verus! {
    /// C13 over the contracts: what is sent agrees with the problem, also after it is replaced.
    pub fn drive_send(p: Problem, q: Problem) 
    {
        let mut m = p.into_response();
        assert(m.consistent() && m.the_problem() == p);
        let b = m.body();
        assert(b@ == vstd::utf8::encode_utf8(pretty_text(p.data())->0));
        assert(m.consistent() && m.the_problem() == p);
        m.set_problem(q);
        assert(m.consistent() && m.the_problem() == q);
        let b = m.body();
        assert(b@ == vstd::utf8::encode_utf8(pretty_text(q.data())->0));
    }
    /// What a client makes of a body: the problem it encodes, or nothing changes.
    pub fn drive_read(p: Problem, received: ProblemResponse, other: Vec<u8>) -> (r: ProblemResponse)
        requires
            json_value_of::<Problem>(vstd::utf8::encode_utf8(pretty_text(p.data())->0)) == Some(p),
            json_value_of::<Problem>(other@) is None,
        ensures r.the_problem() == p, r.the_status() == received.the_status()
    {
        let mut m = received;
        m.set_body(other);
        assert(m.the_problem() == received.the_problem());
        let b = p.into_response().body().to_vec();
        m.set_body(b);
        m
    }
    }
}
