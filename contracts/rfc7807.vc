%source src/rfc7807.rs
%skip use -- names come from the prelude of the contract file
%rewrite `Box<dyn AsRef<[u8]> + Send + 'static>` => `DynBody`
%rewrite `Box::new` => `DynBody::new`
%rewrite `Deserializer<'de>` => `Deserializer`
%rewrite `<'de, D>` => `<D>`
%rewrite `map(Some)` => `map(|x: u16| -> (q: Option<u16>) ensures q == Some(x) { Some(x) })`

%prelude
use serde::{Deserialize, Deserializer, HasData, Serialize};
use serdeconv;
use embedx::*;
use problemx::*;
use problemx::fmt::Display;
use vstd::utf8::*;
use miasht_status::Status as HttpStatus;
use status_theory::*;
%fn ProblemResponse::new
    ensures r.consistent(), r.the_problem() == body
%fn ProblemResponse::problem
    ensures *r == self.the_problem()
%fn ProblemResponse::set_problem
    ensures final(self).consistent(), final(self).the_problem() == problem
%fn RpcResponse@ProblemResponse::body
    ensures
        r@ == encode_utf8(pretty_text(old(self).the_problem().data())->0),
        *final(self) == *old(self),
%start
    proof { ax_problem_json(self.body); }
%fn RpcResponse@ProblemResponse::set_body
    ensures
        final(self).the_status() == old(self).the_status(),
        final(self).the_problem() == (match json_value_of::<Problem>(body@) { Some(p) => p, None => old(self).the_problem() }),
%fn deserialize_status
    ensures match deserializer.number() { Some(n) => r is Ok && r->Ok_0 == Some(n), None => r is Err }
%fn ProblemHeader::new
    ensures true
%fn Problem::about_blank
    ensures r.blank(status_code(status), reason(status))
%fn Problem::trackable
    ensures r matches Problem::Trackable(p) && p.of(status_code(status), error)
%fn Problem::into_response
    ensures r.consistent(), r.the_problem() == self
%fn Problem::get_status_code
    ensures r == self.code()
%fn Default@Problem::default
    ensures r.blank(500, reason(HttpStatus::InternalServerError))
%fn AboutBlankProblem::new
    ensures r.status == status_code(status), r.title@ == reason(status)
%fn TrackableProblem::new
    ensures r.of(status_code(status), error)
%closure 0 |c: &Cause| -> (q: String) ensures q@ == c.shown()
%closure 1 |h: &History<E::Event>| -> (q: Vec<String>) ensures texts(q@, h@)
%closure 2 |e: &E::Event| -> (q: String) ensures q@ == e.shown()
%fn From@Problem::from
    ensures true
%extra
impl ProblemResponse {
    /// the status sent is the one the body declares
    pub closed spec fn consistent(&self) -> bool { self.status == Some(self.body.code()) }
    pub closed spec fn the_problem(&self) -> Problem { self.body }
    pub closed spec fn the_status(&self) -> Option<u16> { self.status }
}
impl Problem {
    pub open spec fn code(&self) -> u16 { match *self { Problem::AboutBlank(p) => p.status, Problem::Trackable(p) => p.status } }
    pub open spec fn blank(&self, code: u16, title: Seq<char>) -> bool { *self matches Problem::AboutBlank(p) && p.status == code && p.title@ == title }
}
impl TrackableProblem {
    pub open spec fn of<E: error::Error + Trackable>(&self, code: u16, e: E) -> bool where E::Event: fmt::Display {
        &&& self.title@ == e.shown()
        &&& self.status == code
        &&& match e.source_spec() { Some(c) => self.detail is Some && self.detail->0@ == c.shown(), None => self.detail is None }
        &&& self.instance is None
        &&& match e.history_spec() { Some(h) => self.history is Some && texts(self.history->0@, h), None => self.history is None }
    }
}
impl HasData for Problem { uninterp spec fn data(&self) -> Data; }
impl Serialize for Problem {
    #[verifier::external_body]
    fn serialize<S: ::serde::Serializer>(&self, s: S) -> (r: Result<S::Ok, S::Error>) { unimplemented!() }
}
impl Deserialize for Problem {
    uninterp spec fn obtained<D: Deserializer>(d: D, r: Result<Self, D::Error>) -> bool;
    #[verifier::external_body]
    fn deserialize<D: Deserializer>(d: D) -> (r: Result<Self, D::Error>) { unimplemented!() }
}
/// derived serialisation of texts, numbers and a URL has a JSON form
#[verifier::external_body]
pub proof fn ax_problem_json(p: Problem) ensures pretty_text(p.data()) is Some {}
impl vstd::std_specs::convert::FromSpecImpl<AboutBlankProblem> for Problem {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(f: AboutBlankProblem) -> Self { Problem::AboutBlank(f) }
}
impl vstd::std_specs::convert::FromSpecImpl<TrackableProblem> for Problem {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(f: TrackableProblem) -> Self { Problem::Trackable(f) }
}
