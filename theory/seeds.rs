pub mod seeds {
    // Recording seeds: what a derived `Deserialize` asks for, keeping what it is given.
    use vstd::prelude::*;
    use serde::de::{DVal, Ask, DeserializeSeed, DeSpec};
    verus! {
    pub struct NameSeed;
    impl<'de> DeserializeSeed<'de> for NameSeed {
        type Value = String;
        open spec fn ask(self) -> Ask { Ask::Identifier }
        open spec fn makes<E>(self, d: DVal, r: Result<String, E>) -> bool {
            match d { DVal::Str(t) => r matches Ok(s) && s@ == t, _ => r is Err }
        }
        #[verifier::prophetic]
        open spec fn ran<D: DeSpec<'de>>(self, d: D, r: Result<String, D::Error>) -> bool { true }
        #[verifier::external_body]
        fn deserialize<D: DeSpec<'de>>(self, d: D) -> (r: Result<String, D::Error>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Kept { _p: () }
    impl Kept { pub uninterp spec fn view(&self) -> DVal; }
    #[verifier::external_body]
    pub struct ValSeed { _p: () }
    impl ValSeed { pub uninterp spec fn asked(self) -> Ask; }
    impl<'de> DeserializeSeed<'de> for ValSeed {
        type Value = Kept;
        open spec fn ask(self) -> Ask { self.asked() }
        open spec fn makes<E>(self, d: DVal, r: Result<Kept, E>) -> bool { r matches Ok(x) && x@ == d }
        #[verifier::prophetic]
        open spec fn ran<D: DeSpec<'de>>(self, d: D, r: Result<Kept, D::Error>) -> bool { true }
        #[verifier::external_body]
        fn deserialize<D: DeSpec<'de>>(self, d: D) -> (r: Result<Kept, D::Error>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn seed_of(a: Ghost<Ask>) -> (r: ValSeed)
        ensures r.asked() == a@
    { unimplemented!() }
    }
}
