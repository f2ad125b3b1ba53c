%include std.rs
%include vxmap.rs
%include hash_std.rs
%src rust/pact_models/src/path_exp.rs
%prelude
verus! {
#[verifier::external_body] pub struct PathToken { _p: () }
}
%struct DocPath
%prelude
verus! {
impl VxKey for DocPath { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self.expr@ } }
impl VxKeyOrd for DocPath { open spec fn kle(a: Seq<char>, b: Seq<char>) -> bool { str_le(a, b) } proof fn kle_order(a: Seq<char>, b: Seq<char>, c: Seq<char>) { broadcast use str_order; let _ = (str_le(a, b), str_le(b, a), str_le(b, c)); } }
impl VxEq for DocPath { type Q = Seq<char>; open spec fn q(&self) -> Seq<char> { self.expr@ } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for DocPath { open spec fn feed(q: Seq<char>) -> Seq<Tk> { feed_of(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
}
%fn PartialEq for DocPath::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%fn Hash for DocPath::hash
%rename hash_
%sig
  ensures final(state).fed() == old(state).fed() + DocPath::feed(self.q())
%prelude
verus! {
// a part of a larger value, with its own equality (proved for the type itself in its own unit: induction on nesting depth)
#[allow(unused_macros)] macro_rules! vx_part { ($t:ident, $q:ident, $s:ident) => { verus! { #[verifier::external_body] pub struct $t { _p: () } pub ghost struct $q { x: int } pub uninterp spec fn $s(x: $t) -> $q;
  impl VxEq for $t { type Q = $q; open spec fn q(&self) -> $q { $s(*self) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
  impl Hash for $t { open spec fn feed(q: $q) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } } } } }
// an enum without fields, PartialEq/Hash derived
#[allow(unused_macros)] macro_rules! vx_plain { ($t:ident) => { verus! {
  impl VxEq for $t { type Q = $t; open spec fn q(&self) -> $t { *self } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
  impl Hash for $t { open spec fn feed(q: $t) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } } } } }
}
