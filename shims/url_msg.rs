pub mod url_msg {
    use vstd::prelude::*;
    use url::*;
    use request_theory::*;
    verus! {
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct ParseError { _p: () }
    impl Url {
        // only the address the library itself starts from is pinned down
        #[verifier::external_body]
        pub fn parse(s: &str) -> (r: Result<Url, ParseError>)
            ensures s@ == "http://localhost/"@ ==> r is Ok && r->Ok_0@ == start_url()
        { unimplemented!() }
        /// `&url[Position::BeforePath..]`
        #[verifier::external_body]
        pub fn slice_from(&self, p: Position) -> (r: &str)
            ensures p is BeforePath ==> r@ == target(self@)
        { unimplemented!() }
    }
    }
}
