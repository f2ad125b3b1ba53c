// ---- nom 7: the combinators by contract (trusted); a parser is a function of the text that is left ----
verus! {
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ErrorKind { _p: () }
pub enum NomErr<E> { Error(E), Failure(E) }
pub use NomErr::{Error, Failure};
pub type IResult<I, O, E> = Result<(I, O), NomErr<E>>;
/// an error that lets alt go on
pub open spec fn nx<I, O, E>(r: IResult<I, O, E>) -> bool { r is Err && r->Err_0 is Error }
pub open spec fn gives<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, i: I, r: IResult<I, O, E>) -> bool { f.ensures((i,), r) }
pub open spec fn goes<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, i: I, r: IResult<I, O, E>) -> bool { !nx(r) && f.ensures((i,), r) }
pub open spec fn fails<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, i: I) -> bool { exists|q: IResult<I, O, E>| nx(q) && #[trigger] f.ensures((i,), q) }
/// the characters of l the text starts with
pub open spec fn run(s: Seq<char>, l: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && l.contains(s[0]) { 1 + run(s.skip(1), l) } else { 0 } }
pub open spec fn takes(s: Seq<char>, n: nat, rest: Seq<char>, t: Seq<char>) -> bool { n <= s.len() && t == s.take(n as int) && rest == s.skip(n as int) }
pub open spec fn took<'a, E>(s: &'a str, n: nat, r: IResult<&'a str, &'a str, E>) -> bool { match r { Ok(p) => n > 0 && takes(s@, n, p.0@, p.1@), Err(e) => n == 0 && e is Error } }
#[verifier::external_body] pub fn is_a<'a, E>(l: &str) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> took(s, run(s@, l@), r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
/// the characters of the text before the first one of l
pub open spec fn upto(s: Seq<char>, l: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && !l.contains(s[0]) { 1 + upto(s.skip(1), l) } else { 0 } }
#[verifier::external_body] pub fn is_not<'a, E>(l: &str) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> took(s, upto(s@, l@), r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
pub open spec fn begins(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub open spec fn tagged<'a, E>(s: &'a str, yes: bool, n: nat, r: IResult<&'a str, &'a str, E>) -> bool { match r { Ok(p) => yes && takes(s@, n, p.0@, p.1@), Err(e) => !yes && e is Error } }
#[verifier::external_body] pub fn tag<'a, E>(t: &str) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> tagged(s, begins(s@, t@), t@.len(), r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
/// the same letter, whatever its case (for ASCII letters; other characters only with themselves or as Unicode says)
pub uninterp spec fn same_letter(a: char, b: char) -> bool;
pub open spec fn begins_nc(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && forall|i: int| 0 <= i < t.len() ==> same_letter(#[trigger] s[i], t[i]) }
#[verifier::external_body] pub fn tag_no_case<'a, E>(t: &str) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> tagged(s, begins_nc(s@, t@), t@.len(), r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
#[verifier::external_body] pub fn char<'a, E>(c: char) -> (p: impl Fn(&'a str) -> IResult<&'a str, char, E>)
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, char, E>| #[trigger] p.ensures((s,), r) ==> match r { Ok(q) => s@.len() > 0 && s@[0] == c && q.1 == c && q.0@ == s@.skip(1), Err(e) => !(s@.len() > 0 && s@[0] == c) && e is Error }
{ |s: &'a str| -> IResult<&'a str, char, E> { unimplemented!() } }
/// the first n characters satisfy f, and the next one, unless n is the most allowed, does not
pub open spec fn prefix_of<F: Fn(char) -> bool>(f: F, s: Seq<char>, most: nat, n: nat) -> bool { n <= s.len() && n <= most && (forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] s[i],), true)) && (n < s.len() && n < most ==> f.ensures((s[n as int],), false)) }
#[verifier::external_body] pub fn take_while_m_n<'a, E, F: Fn(char) -> bool>(m: usize, n: usize, f: F) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  requires m <= n, forall|c: char| #[trigger] f.requires((c,))
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> exists|k: nat| #[trigger] prefix_of(f, s@, n as nat, k) && tagged(s, k >= m, k, r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
#[verifier::external_body] pub fn take_while1<'a, E, F: Fn(char) -> bool>(f: F) -> (p: impl Fn(&'a str) -> IResult<&'a str, &'a str, E>)
  requires forall|c: char| #[trigger] f.requires((c,))
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, &'a str, E>| #[trigger] p.ensures((s,), r) ==> exists|k: nat| #[trigger] prefix_of(f, s@, s@.len(), k) && tagged(s, k >= 1, k, r)
{ |s: &'a str| -> IResult<&'a str, &'a str, E> { unimplemented!() } }
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
/// the digits the text starts with, at most `most`
pub open spec fn digs(s: Seq<char>, most: nat) -> nat decreases most { if most > 0 && s.len() > 0 && is_dig(s[0]) { 1 + digs(s.skip(1), (most - 1) as nat) } else { 0 } }
#[verifier::external_body] pub fn digit1<'a, E>(s: &'a str) -> (r: IResult<&'a str, &'a str, E>) ensures took(s, digs(s@, s@.len()), r) { unimplemented!() }

pub trait Alt<I, O, E> { spec fn pre(self, i: I) -> bool; spec fn post(self, i: I, r: IResult<I, O, E>) -> bool; }
#[verifier::external_body] pub fn alt<I, O, E, L: Alt<I, O, E>>(l: L) -> (p: impl Fn(I) -> IResult<I, O, E>)
  ensures forall|s: I| #[trigger] p.requires((s,)) == l.pre(s), forall|s: I, r: IResult<I, O, E>| #[trigger] p.ensures((s,), r) ==> l.post(s, r)
{ |s: I| -> IResult<I, O, E> { unimplemented!() } }
pub trait Tup<I, O, E> { spec fn tpre(self) -> bool; spec fn tpost(self, i: I, r: IResult<I, O, E>) -> bool; }
#[verifier::external_body] pub fn tuple<I, O, E, L: Tup<I, O, E>>(l: L) -> (p: impl Fn(I) -> IResult<I, O, E>)
  requires l.tpre() ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, O, E>| #[trigger] p.ensures((s,), r) ==> l.tpost(s, r)
{ |s: I| -> IResult<I, O, E> { unimplemented!() } }
pub open spec fn total<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F) -> bool { forall|i: I| #[trigger] f.requires((i,)) }
/// first a, then b
pub open spec fn then<I, A, B, O, E, F: Fn(I) -> IResult<I, A, E>, G: Fn(I) -> IResult<I, B, E>>(f: F, g: G, s: I, out: spec_fn(A, B) -> O, r: IResult<I, O, E>) -> bool {
  exists|p: IResult<I, A, E>| #[trigger] f.ensures((s,), p) && (if p is Err { r == Err::<(I, O), NomErr<E>>(p->Err_0) } else { exists|q: IResult<I, B, E>| #[trigger] g.ensures(((p->Ok_0).0,), q) && (if q is Err { r == Err::<(I, O), NomErr<E>>(q->Err_0) } else { r == Ok::<(I, O), NomErr<E>>(((q->Ok_0).0, out((p->Ok_0).1, (q->Ok_0).1))) }) }) }
#[verifier::external_body] pub fn preceded<I, A, B, E, F: Fn(I) -> IResult<I, A, E>, G: Fn(I) -> IResult<I, B, E>>(f: F, g: G) -> (p: impl Fn(I) -> IResult<I, B, E>)
  requires total(f), total(g) ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, B, E>| #[trigger] p.ensures((s,), r) ==> then(f, g, s, |a: A, b: B| b, r)
{ |s: I| -> IResult<I, B, E> { unimplemented!() } }
#[verifier::external_body] pub fn terminated<I, A, B, E, F: Fn(I) -> IResult<I, A, E>, G: Fn(I) -> IResult<I, B, E>>(f: F, g: G) -> (p: impl Fn(I) -> IResult<I, A, E>)
  requires total(f), total(g) ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, A, E>| #[trigger] p.ensures((s,), r) ==> then(f, g, s, |a: A, b: B| a, r)
{ |s: I| -> IResult<I, A, E> { unimplemented!() } }
pub open spec fn maybe<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, s: I, r: IResult<I, Option<O>, E>) -> bool {
  exists|p: IResult<I, O, E>| #[trigger] f.ensures((s,), p) && match p { Ok(x) => r == Ok::<(I, Option<O>), NomErr<E>>((x.0, Some(x.1))), Err(NomErr::Error(_)) => r == Ok::<(I, Option<O>), NomErr<E>>((s, None)), Err(e) => r == Err::<(I, Option<O>), NomErr<E>>(e) } }
#[verifier::external_body] pub fn opt<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F) -> (p: impl Fn(I) -> IResult<I, Option<O>, E>)
  requires total(f) ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, Option<O>, E>| #[trigger] p.ensures((s,), r) ==> maybe(f, s, r)
{ |s: I| -> IResult<I, Option<O>, E> { unimplemented!() } }
/// what a parser makes of the text: the end of the run of Ok results; `rs` are the texts that were left
pub open spec fn steps_of<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, s: I, rs: Seq<I>, v: Seq<O>) -> bool { rs.len() == v.len() + 1 && rs[0] == s && forall|k: int| 0 <= k < v.len() ==> f.ensures((rs[k],), #[trigger] step_ok::<I, O, E>(rs, v, k)) }
pub open spec fn step_ok<I, O, E>(rs: Seq<I>, v: Seq<O>, k: int) -> IResult<I, O, E> { Ok((rs[k + 1], v[k])) }
pub open spec fn many_ok<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, s: I, rs: Seq<I>, v: Seq<O>, rest: I) -> bool { v.len() > 0 && steps_of(f, s, rs, v) && rs.last() == rest && fails(f, rest) }
pub open spec fn many_fail<I, O, E, F: Fn(I) -> IResult<I, O, E>>(f: F, s: I, rs: Seq<I>, v: Seq<O>, e: E) -> bool { steps_of(f, s, rs, v) && f.ensures((rs.last(),), Err(NomErr::Failure(e))) }
}
verus! {
/// many1 (nom refuses a parser that takes nothing: `moves` excludes that)
#[verifier::external_body] pub fn many1<'a, O, E, F: Fn(&'a str) -> IResult<&'a str, O, E>>(f: F) -> (p: impl Fn(&'a str) -> IResult<&'a str, Vec<O>, E>)
  requires total(f), forall|i: &'a str, r: IResult<&'a str, O, E>| #[trigger] f.ensures((i,), r) && r is Ok ==> (r->Ok_0).0@.len() < i@.len()
  ensures forall|s: &'a str| #[trigger] p.requires((s,)), forall|s: &'a str, r: IResult<&'a str, Vec<O>, E>| #[trigger] p.ensures((s,), r) ==> match r {
    Ok(q) => exists|rs: Seq<&'a str>| #[trigger] many_ok(f, s, rs, q.1@, q.0), Err(NomErr::Failure(e)) => exists|rs: Seq<&'a str>, v: Seq<O>| #[trigger] many_fail(f, s, rs, v, e), Err(NomErr::Error(_)) => fails(f, s) }
{ |s: &'a str| -> IResult<&'a str, Vec<O>, E> { unimplemented!() } }
}
verus! {
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && gives(self.1, i, r))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && gives(self.2, i, r))))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>, P3: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2, P3) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) && self.3.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && (goes(self.2, i, r) || (fails(self.2, i) && gives(self.3, i, r))))))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>, P3: Fn(I) -> IResult<I, O, E>, P4: Fn(I) -> IResult<I, O, E>, P5: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2, P3, P4, P5) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) && self.3.requires((i,)) && self.4.requires((i,)) && self.5.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && (goes(self.2, i, r) || (fails(self.2, i) && (goes(self.3, i, r) || (fails(self.3, i) && (goes(self.4, i, r) || (fails(self.4, i) && gives(self.5, i, r))))))))))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>, P3: Fn(I) -> IResult<I, O, E>, P4: Fn(I) -> IResult<I, O, E>, P5: Fn(I) -> IResult<I, O, E>, P6: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2, P3, P4, P5, P6) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) && self.3.requires((i,)) && self.4.requires((i,)) && self.5.requires((i,)) && self.6.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && (goes(self.2, i, r) || (fails(self.2, i) && (goes(self.3, i, r) || (fails(self.3, i) && (goes(self.4, i, r) || (fails(self.4, i) && (goes(self.5, i, r) || (fails(self.5, i) && gives(self.6, i, r))))))))))))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>, P3: Fn(I) -> IResult<I, O, E>, P4: Fn(I) -> IResult<I, O, E>, P5: Fn(I) -> IResult<I, O, E>, P6: Fn(I) -> IResult<I, O, E>, P7: Fn(I) -> IResult<I, O, E>, P8: Fn(I) -> IResult<I, O, E>, P9: Fn(I) -> IResult<I, O, E>, P10: Fn(I) -> IResult<I, O, E>, P11: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) && self.3.requires((i,)) && self.4.requires((i,)) && self.5.requires((i,)) && self.6.requires((i,)) && self.7.requires((i,)) && self.8.requires((i,)) && self.9.requires((i,)) && self.10.requires((i,)) && self.11.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && (goes(self.2, i, r) || (fails(self.2, i) && (goes(self.3, i, r) || (fails(self.3, i) && (goes(self.4, i, r) || (fails(self.4, i) && (goes(self.5, i, r) || (fails(self.5, i) && (goes(self.6, i, r) || (fails(self.6, i) && (goes(self.7, i, r) || (fails(self.7, i) && (goes(self.8, i, r) || (fails(self.8, i) && (goes(self.9, i, r) || (fails(self.9, i) && (goes(self.10, i, r) || (fails(self.10, i) && gives(self.11, i, r))))))))))))))))))))))) } }
impl<I, O, E, P0: Fn(I) -> IResult<I, O, E>, P1: Fn(I) -> IResult<I, O, E>, P2: Fn(I) -> IResult<I, O, E>, P3: Fn(I) -> IResult<I, O, E>, P4: Fn(I) -> IResult<I, O, E>, P5: Fn(I) -> IResult<I, O, E>, P6: Fn(I) -> IResult<I, O, E>, P7: Fn(I) -> IResult<I, O, E>, P8: Fn(I) -> IResult<I, O, E>, P9: Fn(I) -> IResult<I, O, E>, P10: Fn(I) -> IResult<I, O, E>, P11: Fn(I) -> IResult<I, O, E>, P12: Fn(I) -> IResult<I, O, E>, P13: Fn(I) -> IResult<I, O, E>, P14: Fn(I) -> IResult<I, O, E>, P15: Fn(I) -> IResult<I, O, E>, P16: Fn(I) -> IResult<I, O, E>, P17: Fn(I) -> IResult<I, O, E>, P18: Fn(I) -> IResult<I, O, E>, P19: Fn(I) -> IResult<I, O, E>, P20: Fn(I) -> IResult<I, O, E>> Alt<I, O, E> for (P0, P1, P2, P3, P4, P5, P6, P7, P8, P9, P10, P11, P12, P13, P14, P15, P16, P17, P18, P19, P20) { open spec fn pre(self, i: I) -> bool { self.0.requires((i,)) && self.1.requires((i,)) && self.2.requires((i,)) && self.3.requires((i,)) && self.4.requires((i,)) && self.5.requires((i,)) && self.6.requires((i,)) && self.7.requires((i,)) && self.8.requires((i,)) && self.9.requires((i,)) && self.10.requires((i,)) && self.11.requires((i,)) && self.12.requires((i,)) && self.13.requires((i,)) && self.14.requires((i,)) && self.15.requires((i,)) && self.16.requires((i,)) && self.17.requires((i,)) && self.18.requires((i,)) && self.19.requires((i,)) && self.20.requires((i,)) }
  open spec fn post(self, i: I, r: IResult<I, O, E>) -> bool { (goes(self.0, i, r) || (fails(self.0, i) && (goes(self.1, i, r) || (fails(self.1, i) && (goes(self.2, i, r) || (fails(self.2, i) && (goes(self.3, i, r) || (fails(self.3, i) && (goes(self.4, i, r) || (fails(self.4, i) && (goes(self.5, i, r) || (fails(self.5, i) && (goes(self.6, i, r) || (fails(self.6, i) && (goes(self.7, i, r) || (fails(self.7, i) && (goes(self.8, i, r) || (fails(self.8, i) && (goes(self.9, i, r) || (fails(self.9, i) && (goes(self.10, i, r) || (fails(self.10, i) && (goes(self.11, i, r) || (fails(self.11, i) && (goes(self.12, i, r) || (fails(self.12, i) && (goes(self.13, i, r) || (fails(self.13, i) && (goes(self.14, i, r) || (fails(self.14, i) && (goes(self.15, i, r) || (fails(self.15, i) && (goes(self.16, i, r) || (fails(self.16, i) && (goes(self.17, i, r) || (fails(self.17, i) && (goes(self.18, i, r) || (fails(self.18, i) && (goes(self.19, i, r) || (fails(self.19, i) && gives(self.20, i, r))))))))))))))))))))))))))))))))))))))))) } }
impl<I, O0, O1, E, P0: Fn(I) -> IResult<I, O0, E>, P1: Fn(I) -> IResult<I, O1, E>> Tup<I, (O0, O1), E> for (P0, P1) { open spec fn tpre(self) -> bool { forall|i: I| #[trigger] self.0.requires((i,)) && #[trigger] self.1.requires((i,)) }
  open spec fn tpost(self, i: I, r: IResult<I, (O0, O1), E>) -> bool { (exists|q0: IResult<I, O0, E>| #[trigger] self.0.ensures((i,), q0) && (if q0 is Err { r == Err::<(I, (O0, O1)), NomErr<E>>(q0->Err_0) } else { (exists|q1: IResult<I, O1, E>| #[trigger] self.1.ensures(((q0->Ok_0).0,), q1) && (if q1 is Err { r == Err::<(I, (O0, O1)), NomErr<E>>(q1->Err_0) } else { r == Ok::<(I, (O0, O1)), NomErr<E>>(((q1->Ok_0).0, ((q0->Ok_0).1, (q1->Ok_0).1))) })) })) } }
impl<I, O0, O1, O2, E, P0: Fn(I) -> IResult<I, O0, E>, P1: Fn(I) -> IResult<I, O1, E>, P2: Fn(I) -> IResult<I, O2, E>> Tup<I, (O0, O1, O2), E> for (P0, P1, P2) { open spec fn tpre(self) -> bool { forall|i: I| #[trigger] self.0.requires((i,)) && #[trigger] self.1.requires((i,)) && #[trigger] self.2.requires((i,)) }
  open spec fn tpost(self, i: I, r: IResult<I, (O0, O1, O2), E>) -> bool { (exists|q0: IResult<I, O0, E>| #[trigger] self.0.ensures((i,), q0) && (if q0 is Err { r == Err::<(I, (O0, O1, O2)), NomErr<E>>(q0->Err_0) } else { (exists|q1: IResult<I, O1, E>| #[trigger] self.1.ensures(((q0->Ok_0).0,), q1) && (if q1 is Err { r == Err::<(I, (O0, O1, O2)), NomErr<E>>(q1->Err_0) } else { (exists|q2: IResult<I, O2, E>| #[trigger] self.2.ensures(((q1->Ok_0).0,), q2) && (if q2 is Err { r == Err::<(I, (O0, O1, O2)), NomErr<E>>(q2->Err_0) } else { r == Ok::<(I, (O0, O1, O2)), NomErr<E>>(((q2->Ok_0).0, ((q0->Ok_0).1, (q1->Ok_0).1, (q2->Ok_0).1))) })) })) })) } }
impl<I, O0, O1, O2, O3, E, P0: Fn(I) -> IResult<I, O0, E>, P1: Fn(I) -> IResult<I, O1, E>, P2: Fn(I) -> IResult<I, O2, E>, P3: Fn(I) -> IResult<I, O3, E>> Tup<I, (O0, O1, O2, O3), E> for (P0, P1, P2, P3) { open spec fn tpre(self) -> bool { forall|i: I| #[trigger] self.0.requires((i,)) && #[trigger] self.1.requires((i,)) && #[trigger] self.2.requires((i,)) && #[trigger] self.3.requires((i,)) }
  open spec fn tpost(self, i: I, r: IResult<I, (O0, O1, O2, O3), E>) -> bool { (exists|q0: IResult<I, O0, E>| #[trigger] self.0.ensures((i,), q0) && (if q0 is Err { r == Err::<(I, (O0, O1, O2, O3)), NomErr<E>>(q0->Err_0) } else { (exists|q1: IResult<I, O1, E>| #[trigger] self.1.ensures(((q0->Ok_0).0,), q1) && (if q1 is Err { r == Err::<(I, (O0, O1, O2, O3)), NomErr<E>>(q1->Err_0) } else { (exists|q2: IResult<I, O2, E>| #[trigger] self.2.ensures(((q1->Ok_0).0,), q2) && (if q2 is Err { r == Err::<(I, (O0, O1, O2, O3)), NomErr<E>>(q2->Err_0) } else { (exists|q3: IResult<I, O3, E>| #[trigger] self.3.ensures(((q2->Ok_0).0,), q3) && (if q3 is Err { r == Err::<(I, (O0, O1, O2, O3)), NomErr<E>>(q3->Err_0) } else { r == Ok::<(I, (O0, O1, O2, O3)), NomErr<E>>(((q3->Ok_0).0, ((q0->Ok_0).1, (q1->Ok_0).1, (q2->Ok_0).1, (q3->Ok_0).1))) })) })) })) })) } }
}
