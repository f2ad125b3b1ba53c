%unit path_weight
%include std.rs
%include path_types.vx
%src rust/pact_models/src/path_exp.rs
%prelude
verus! {
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dval(s: Seq<char>) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + ((s.last() as u32 - 48) as nat) }
}
pub open spec fn usize_val(s: Seq<char>) -> Option<nat> {
  let d = if s.len() > 1 && s[0] == '+' { s.drop_first() } else { s };
  if d.len() > 0 && all_digits(d) && dval(d) <= usize::MAX as nat { Some(dval(d)) } else { None }
}
#[verifier::external_body]
pub struct ParseErr { _p: () }
#[verifier::external_body]
pub fn vx_parse_usize(s: &str) -> (r: Result<usize, ParseErr>)
  ensures r is Ok == (usize_val(s@) is Some), r matches Ok(v) ==> usize_val(s@) == Some(v as nat)
{ unimplemented!() }

/// does one path element match one token: 2 exactly, 1 through a wildcard, 0 not at all
pub open spec fn tok_weight(f: Seq<char>, t: Tok) -> nat {
  match t {
    Tok::Root => if f == seq!['$'] { 2 } else { 0 },
    Tok::Field(n) => if f == n { 2 } else { 0 },
    Tok::Index(i) => if usize_val(f) == Some(i) { 2 } else { 0 },
    Tok::Star => 1,
    Tok::StarIndex => if f == seq!['[', '*', ']'] || usize_val(f) is Some { 1 } else { 0 },
  }
}
pub open spec fn min_nat(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// product over the tokens of the path
pub open spec fn wprod(ts: Seq<Tok>, p: Seq<Seq<char>>) -> nat decreases ts.len() {
  if ts.len() == 0 { 1 } else { wprod(ts.drop_last(), p) * tok_weight(p[ts.len() - 1], ts.last()) }
}
pub open spec fn strs(p: Seq<&str>) -> Seq<Seq<char>> { p.map_values(|s: &str| s@) }
pub open spec fn all_match(ts: Seq<Tok>, p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] tok_weight(p[i], ts[i]) > 0 }
pub open spec fn weight(ts: Seq<Tok>, p: Seq<Seq<char>>) -> nat { if p.len() >= ts.len() { min_nat(wprod(ts, p), usize::MAX as nat) } else { 0 } }
/// the saturated product is positive exactly when every token matches its element
pub proof fn theorem_positive(ts: Seq<Tok>, p: Seq<Seq<char>>)
  requires p.len() >= ts.len() ensures (wprod(ts, p) > 0) == all_match(ts, p) decreases ts.len()
{
  if ts.len() > 0 {
    let d = ts.drop_last();
    theorem_positive(d, p);
    let a = wprod(d, p); let b = tok_weight(p[ts.len() - 1], ts.last());
    assert(ts.last() == ts[ts.len() - 1]);
    assert((a * b > 0) == (a > 0 && b > 0)) by(nonlinear_arith);
    if all_match(ts, p) { assert forall|i: int| 0 <= i < d.len() implies #[trigger] tok_weight(p[i], d[i]) > 0 by { assert(d[i] == ts[i]); } }
    if all_match(d, p) && b > 0 { assert forall|i: int| 0 <= i < ts.len() implies #[trigger] tok_weight(p[i], ts[i]) > 0 by { if i < d.len() { assert(d[i] == ts[i]); } } }
  }
}
/// replacing a wildcard by the element it stands for never lowers the weight
pub proof fn theorem_exact_beats_wildcard(ts: Seq<Tok>, us: Seq<Tok>, p: Seq<Seq<char>>)
  requires ts.len() == us.len(), p.len() >= ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] tok_weight(p[i], ts[i]) <= tok_weight(p[i], us[i])
  ensures wprod(ts, p) <= wprod(us, p) decreases ts.len()
{
  if ts.len() > 0 {
    let t = ts.drop_last(); let u = us.drop_last();
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] tok_weight(p[i], t[i]) <= tok_weight(p[i], u[i]) by { assert(t[i] == ts[i] && u[i] == us[i]); }
    theorem_exact_beats_wildcard(t, u, p);
    let n = ts.len() - 1; assert(tok_weight(p[n], ts[n]) <= tok_weight(p[n], us[n]));
    let a = wprod(t, p); let b = wprod(u, p); let c = tok_weight(p[n], ts.last()); let d = tok_weight(p[n], us.last());
    assert(a * c <= b * d) by(nonlinear_arith) requires a <= b, c <= d;
  }
}
}
%fn matches_token
%sub `path_fragment == name` => `vx_str_eq(path_fragment, name.as_str())`
%sub `path_fragment == "$"` => `vx_str_eq(path_fragment, "$")`
%sub `path_fragment == "[*]"` => `vx_str_eq(path_fragment, "[*]")`
%sub 2 `path_fragment.parse::<usize>()` => `vx_parse_usize(path_fragment)`
%sig
  ensures r as nat == tok_weight(path_fragment@, tv(*path_token))
%body_start
  proof { reveal_strlit("$"); reveal_strlit("[*]"); assert("$"@ =~= seq!['$']); assert("[*]"@ =~= seq!['[', '*', ']']); }
%fn DocPath::len
%sig
  ensures r == self.path_tokens@.len()
%fn DocPath::path_weight
%loop 0 it
  invariant it.seq().len() == self.path_tokens@.len(), path@.len() >= self.path_tokens@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == self.path_tokens@[i] && *it.seq()[i].1 == path@[i],
    acc as nat == min_nat(wprod(tvs(self.path_tokens@).take(it.index@), strs(path@)), usize::MAX as nat)
%loop_start 0
  let ghost a0 = acc;
  proof { let s = tvs(self.path_tokens@); let k = it.index@; assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); assert(strs(path@)[k] == path@[k]@);
    let w = wprod(s.take(k), strs(path@)); let f = tok_weight(strs(path@)[k], s[k]);
    assert(min_nat(w, usize::MAX as nat) * f <= usize::MAX ==> w * f <= usize::MAX || f == 0 || w > usize::MAX) by(nonlinear_arith);
    assert(f == 0 ==> w * f == 0) by(nonlinear_arith);
    assert(f >= 1 ==> w * f >= w) by(nonlinear_arith);
    assert(f >= 1 ==> min_nat(w, usize::MAX as nat) * f >= min_nat(w, usize::MAX as nat)) by(nonlinear_arith);
    assert(f == 0 ==> min_nat(w, usize::MAX as nat) * f == 0) by(nonlinear_arith);
    assert(w > usize::MAX && f >= 2 ==> min_nat(w, usize::MAX as nat) * f > usize::MAX) by(nonlinear_arith);
  }
%after_loop 0
  proof { let s = tvs(self.path_tokens@); assert(s.take(s.len() as int) =~= s); }
%sig
  ensures r.0 as nat == weight(tvs(self.path_tokens@), strs(path@)), r.1 == self.path_tokens@.len()
%fn DocPath::matches_path
%sig
  ensures r == (path@.len() >= self.path_tokens@.len() && all_match(tvs(self.path_tokens@), strs(path@)))
%body_start
  proof { if path@.len() >= self.path_tokens@.len() { theorem_positive(tvs(self.path_tokens@), strs(path@)); } }
%fn DocPath::matches_path_exactly
%sig
  ensures r == (path@.len() == self.path_tokens@.len() && all_match(tvs(self.path_tokens@), strs(path@)))
