%src rust/pact_models/src/path_exp.rs
%prelude
verus! {
/// mathematical view of a path token
pub enum Tok { Root, Field(Seq<char>), Index(nat), Star, StarIndex }
pub open spec fn tv(t: PathToken) -> Tok {
  match t { PathToken::Root => Tok::Root, PathToken::Field(s) => Tok::Field(s@), PathToken::Index(i) => Tok::Index(i as nat),
    PathToken::Star => Tok::Star, PathToken::StarIndex => Tok::StarIndex }
}
pub open spec fn tvs(s: Seq<PathToken>) -> Seq<Tok> { s.map_values(|t: PathToken| tv(t)) }
// derived traits of PathToken (structural)
impl Clone for PathToken {
  #[verifier::external_body] fn clone(&self) -> (r: Self) ensures tv(r) == tv(*self) { unimplemented!() }
}
impl PartialEq for PathToken {
  #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) ensures r == (tv(*self) == tv(*other)) { unimplemented!() }
}
impl Eq for PathToken {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathToken {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Self) -> bool { tv(*self) == tv(*other) }
}
// derived Clone of DocPath (field-wise)
impl Clone for DocPath {
  #[verifier::external_body] fn clone(&self) -> (r: Self) ensures tvs(r.path_tokens@) == tvs(self.path_tokens@), r.expr@ == self.expr@ { unimplemented!() }
}
}
%enum PathToken
%struct DocPath
