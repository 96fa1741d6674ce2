%source src/procedure.rs
%derive EntryPoint Clone, Copy
%rewrite `self.segments.iter().filter(` => `seg_iter(self.segments).filter(`
%rewrite `s == &&PathSegment::Var` => `same_segment(s, &&PathSegment::Var)`
%rewrite `*s == &PathSegment::Var` => `same_segment(s, &&PathSegment::Var)`
%rewrite `**s == PathSegment::Var` => `same_segment(s, &&PathSegment::Var)`
%skip trait Procedure -- interface of user code
%skip trait HandleRpc -- interface of user code
%skip trait RpcRequest -- interface of user code
%skip trait RpcResponse -- interface of user code
%skip struct NeverFail -- not executable
%skip use futures :: Future -- unused here
%skip use serde :: { Deserialize , Serialize } -- unused here
%skip use types :: HttpMethod -- unused here

%fn EntryPoint::new
    ensures r.segments == segments
%fn EntryPoint::segments
    ensures r == self.segments, r@.len() <= usize::MAX
%start
    proof { assert(vstd::slice::spec_slice_len(self.segments) == self.segments@.len()); }
%fn EntryPoint::var_count
    ensures r == nvars(epv(*self), 0)
%start
    broadcast use lemma_nkept;
%closure 0 |s: &&PathSegment| -> (q: bool) ensures q == (**s is Var)
%fn PathSegment::as_option
    ensures
        r == (match *self { PathSegment::Val(s) => Some(s), PathSegment::Var => None }),
%extra
/// An entry point as data: the constant text of each segment, `None` for a variable.
pub open spec fn seg_const(p: PathSegment) -> Option<Seq<char>> {
    match p { PathSegment::Val(s) => Some(s@), PathSegment::Var => None }
}
pub open spec fn epv(ep: EntryPoint) -> Seq<Option<Seq<char>>> {
    Seq::new(ep.segments@.len(), |i: int| seg_const(ep.segments@[i]))
}
/// The number of variables among the segments from `i` on.
pub open spec fn nvars(ep: Seq<Option<Seq<char>>>, i: int) -> int
    decreases ep.len() - i
{
    if i < 0 || i >= ep.len() { 0 } else { (if ep[i] is None { 1int } else { 0int }) + nvars(ep, i + 1) }
}

// ---- assumed contracts: `slice::iter`, `Iterator::filter`, `Iterator::count`, the derived `==` ----
#[verifier::external_body]
pub struct SegIter { _p: () }
impl SegIter {
    pub uninterp spec fn items(&self) -> Seq<PathSegment>;
    #[verifier::external_body]
    pub fn filter<F: Fn(&&PathSegment) -> bool>(self, f: F) -> (r: SegFilter)
        requires forall|x: &&PathSegment| #[trigger] f.requires((x,))
        ensures
            r.items() == self.items(), r.keeps().len() == self.items().len(),
            forall|i: int| 0 <= i < self.items().len() ==> f.ensures((&&self.items()[i],), #[trigger] r.keeps()[i])
    { unimplemented!() }
}
#[verifier::external_body]
pub fn seg_iter(s: &[PathSegment]) -> (r: SegIter)
    ensures r.items() == s@
{ unimplemented!() }
#[verifier::external_body]
pub struct SegFilter { _p: () }
impl SegFilter {
    pub uninterp spec fn items(&self) -> Seq<PathSegment>;
    /// what the closure answered for each item
    pub uninterp spec fn keeps(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == nkept(self.keeps(), 0)
    { unimplemented!() }
}
pub open spec fn nkept(k: Seq<bool>, i: int) -> int
    decreases k.len() - i
{
    if i < 0 || i >= k.len() { 0 } else { (if k[i] { 1int } else { 0int }) + nkept(k, i + 1) }
}
pub broadcast proof fn lemma_nkept(k: Seq<bool>, ep: Seq<Option<Seq<char>>>, i: int)
    requires k.len() == ep.len(), forall|j: int| 0 <= j < k.len() ==> #[trigger] k[j] == (ep[j] is None)
    ensures #[trigger] nkept(k, i) == #[trigger] nvars(ep, i)
    decreases k.len() - i
{
    if 0 <= i < k.len() { lemma_nkept(k, ep, i + 1); }
}
#[verifier::external_body]
pub fn same_segment(a: &&PathSegment, b: &&PathSegment) -> (r: bool)
    ensures r == (seg_const(**a) == seg_const(**b))
{ unimplemented!() }
