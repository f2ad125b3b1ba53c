verus! {
/// logos::Lexer: the texts still to come (None: something that is no token) and whether the last `next` found one
pub ghost struct Lx<T> { pub rest: Seq<Option<T>>, pub last: bool }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Lexer<T> { _p: std::marker::PhantomData<T> }
impl<T> Lexer<T> {
  pub uninterp spec fn view(&self) -> Lx<T>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<T, ()>>)
    ensures r is None == (old(self)@.rest.len() == 0), final(self)@ == lx_next(old(self)@),
      r is Some ==> r->0 is Ok == old(self)@.rest[0] is Some, r is Some && r->0 is Ok ==> (r->0)->Ok_0 == old(self)@.rest[0]->0 { unimplemented!() }
  #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
}
pub open spec fn lx_next<T>(l: Lx<T>) -> Lx<T> { if l.rest.len() == 0 { Lx { rest: l.rest, last: false } } else { Lx { rest: l.rest.skip(1), last: true } } }
/// `lex.remainder().trim().is_empty()`: what logos skips is white space for trim as well
#[verifier::external_body] pub fn vx_no_remainder<T>(l: &Lexer<T>) -> (r: bool) ensures l@.rest.len() == 0 ==> r { unimplemented!() }
/// `lex.slice().is_empty()`: no token is empty
#[verifier::external_body] pub fn vx_slice_empty<T>(l: &Lexer<T>) -> (r: bool) ensures r == !l@.last { unimplemented!() }
#[verifier::external_body] pub struct Span { _p: () }
impl Clone for Span { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
/// the report of an error: not modelled
#[verifier::external_body] pub fn error(exp: &str, expected: &str, span: Option<Span>) -> (r: VxError) { unimplemented!() }
/// extend_from_slice of a derived-Clone type: an equal copy of every element
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, s: &Vec<T>) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
}
