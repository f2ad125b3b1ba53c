%unit path_parse
%include std.rs
%include path_types.vx
%include path_spec.rs
%src rust/pact_models/src/path_exp.rs
%prelude
verus! {
// ---- std::iter::Peekable over (index, char) pairs: the sequence still to come ----
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(Peekable<I>);
pub uninterp spec fn pk<I: Iterator>(p: Peekable<I>) -> Seq<I::Item>;
pub assume_specification<I: Iterator>[Peekable::<I>::peek](p: &mut Peekable<I>) -> (r: Option<&I::Item>)
  ensures pk(*final(p)) == pk(*old(p)), r is Some == (pk(*old(p)).len() > 0), r matches Some(x) ==> *x == pk(*old(p))[0];
pub assume_specification<I: Iterator>[<Peekable<I> as Iterator>::next](p: &mut Peekable<I>) -> (r: Option<I::Item>)
  ensures r is Some == (pk(*old(p)).len() > 0), r matches Some(x) ==> x == pk(*old(p))[0] && pk(*final(p)) == pk(*old(p)).drop_first(),
   r is None ==> pk(*final(p)) == pk(*old(p));
pub open spec fn chs(s: Seq<(usize, char)>) -> Seq<char> { s.map_values(|p: (usize, char)| p.1) }
pub open spec fn rem<I: Iterator<Item = (usize, char)>>(p: Peekable<I>) -> Seq<char> { chs(pk(p)) }
pub broadcast proof fn lemma_chs_tail(s: Seq<(usize, char)>) requires s.len() > 0 ensures #[trigger] chs(s.drop_first()) == chs(s).drop_first(), chs(s)[0] == s[0].1
{ assert(chs(s.drop_first()) =~= chs(s).drop_first()); }
pub open spec fn tok_step(old_toks: Seq<PathToken>, new_toks: Seq<PathToken>, t: Tok) -> bool { tvs(new_toks) =~= tvs(old_toks).push(t) }

pub struct EnumChars { _p: () }
impl Iterator for EnumChars { type Item = (usize, char); #[verifier::external_body] fn next(&mut self) -> Option<(usize, char)> { unimplemented!() } }
/// path.chars().enumerate().peekable()
#[verifier::external_body]
pub fn vx_enum_chars(path: &str) -> (r: Peekable<EnumChars>) ensures rem(r) == path@ { unimplemented!() }
}
%fn peek
%closure 0 |tup: &(usize, char)| -> (r: (usize, char)) ensures r == *tup
%sig
  ensures pk(*final(chars)) == pk(*old(chars)), r == (if pk(*old(chars)).len() > 0 { Some(pk(*old(chars))[0]) } else { None })
%fn is_identifier_char
%sig
  ensures r == idc(ch)
%fn identifier
%sig
  ensures r is Ok == (p_ident(seq![ch], rem(*old(chars))) is Some),
    r is Ok ==> tok_step(old(tokens)@, final(tokens)@, Tok::Field(o0(p_ident(seq![ch], rem(*old(chars)))))) && rem(*final(chars)) == o1(p_ident(seq![ch], rem(*old(chars))))
%loop 0
    invariant_except_break next_char == (if pk(*chars).len() > 0 { Some(pk(*chars)[0]) } else { None })
    invariant tokens@ == old(tokens)@,
      p_ident(id@, rem(*chars)) == p_ident(seq![ch], rem(*old(chars)))
    ensures p_ident(id@, rem(*chars)) == Some((id@, rem(*chars)))
    decreases rem(*chars).len()
%loop_start 0
  proof { broadcast use lemma_chs_tail; lemma_chs_tail(pk(*chars)); }
%before `while next_char.is_some()`
  proof { assert(id@ =~= seq![ch]); }
%fn path_identifier
%sig
  ensures r is Ok == (p_dot(rem(*old(chars))) is Some),
    r is Ok ==> tok_step(old(tokens)@, final(tokens)@, o0(p_dot(rem(*old(chars))))) && rem(*final(chars)) == o1(p_dot(rem(*old(chars))))
%body_start
  proof { if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } }
%fn string_path
%sig
  ensures r is Ok == (p_str(seq![], rem(*old(chars))) is Some),
    r is Ok ==> tok_step(old(tokens)@, final(tokens)@, Tok::Field(o0(p_str(seq![], rem(*old(chars)))))) && rem(*final(chars)) == o1(p_str(seq![], rem(*old(chars))))
%body_start
  proof { if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } }
%before `let mut escaped`
  proof { if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } assert(id@ =~= seq![]); let s = chs(pk(*old(chars))); assert(s =~= seq![ch.1] + rem(*chars)); }
%loop 0
    invariant next_char == (if pk(*chars).len() > 0 { Some(pk(*chars)[0]) } else { None }), tokens@ == old(tokens)@,
      escaped ==> (ch.1 == '\'' || ch.1 == '\\'),
      p_str(seq![], rem(*old(chars))) == (if escaped { p_str(id@.push(ch.1), rem(*chars)) } else { p_str(id@, seq![ch.1] + rem(*chars)) })
    decreases rem(*chars).len()
%loop_start 0
  proof { lemma_chs_tail(pk(*chars)); let s = seq![ch.1] + rem(*chars); assert(s.drop_first() =~= rem(*chars)); assert(s[0] == ch.1); assert(s[1] == rem(*chars)[0]); let n = pk(*chars)[0].1;
    assert(rem(*chars) =~= seq![n] + rem(*chars).drop_first()); assert(s.drop_first().drop_first() =~= rem(*chars).drop_first()); }
%before `if ch.1 == '\'' && !escaped`
  proof { let s = seq![ch.1] + rem(*chars); assert(s.drop_first() =~= rem(*chars)); assert(s[0] == ch.1); }
%fn index_path
%sub `next_char.unwrap().1` => `next_char.unwrap().1`
%sub `id.parse()` => `vx_parse_usize(id.as_str())`
%closure 0 |err: ParseErr| -> (r: String)
%sig
  requires pk(*old(chars)).len() > 0, numeric(rem(*old(chars))[0])
  ensures r is Ok == (p_index(rem(*old(chars))) is Some),
    r is Ok ==> tok_step(old(tokens)@, final(tokens)@, o0(p_index(rem(*old(chars))))) && rem(*final(chars)) == o1(p_index(rem(*old(chars))))
%body_start
  proof { lemma_chs_tail(pk(*chars)); }
  let ghost first = rem(*chars)[0];
%before `while next_char.is_some()`
  proof { broadcast use char_axioms; assert(id@ =~= seq![first]); }
%loop 0
    invariant_except_break next_char == (if pk(*chars).len() > 0 { Some(pk(*chars)[0]) } else { None })
    invariant tokens@ == old(tokens)@,
      p_digits(id@, rem(*chars)) == p_digits(seq![first], rem(*old(chars)).drop_first()), id@.len() > 0, id@[0] == first
    ensures next_char == (if pk(*chars).len() > 0 { Some(pk(*chars)[0]) } else { None }), rem(*chars).len() > 0 ==> !numeric(rem(*chars)[0])
    decreases rem(*chars).len()
%loop_start 0
  proof { lemma_chs_tail(pk(*chars)); }
%fn bracket_path
%fmt args
%sig
  requires path@.len() > 0
  ensures r is Ok == (p_bracket(rem(*old(chars))) is Some),
    r is Ok ==> tok_step(old(tokens)@, final(tokens)@, o0(p_bracket(rem(*old(chars))))) && rem(*final(chars)) == o1(p_bracket(rem(*old(chars))))
%body_start
  proof { lemma_str_nonempty(path); broadcast use lemma_chs_tail; broadcast use char_axioms; if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } }
%before @last `ch = peek(chars);\n      match ch`
  proof { broadcast use char_axioms; if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } }
%fn path_exp
%fmt args
%sig
  requires path@.len() > 0
  ensures r is Ok == (p_exp(tvs(old(tokens)@), rem(*old(chars))) is Some),
    r is Ok ==> tvs(final(tokens)@) =~= p_exp(tvs(old(tokens)@), rem(*old(chars)))->0
%body_start
  let ghost mut s = rem(*chars);
  proof { if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } }
%loop 0
    invariant path@.len() > 0, next_char is None ==> s.len() == 0 , next_char is Some ==> s.len() > 0 && s[0] == (next_char->0).1 && s.drop_first() =~= rem(*chars),
      p_exp(tvs(tokens@), s) == p_exp(tvs(old(tokens)@), rem(*old(chars)))
    decreases s.len()
%loop_start 0
  let ghost t0 = tokens@;
  proof { if s[0] == '.' && p_dot(s.drop_first()) is Some { lemma_p_dot_ext(s.drop_first(), seq![]); } if s[0] == '[' && p_bracket(s.drop_first()) is Some { lemma_p_bracket_ext(s.drop_first(), seq![]); } }
%before `next_char = chars.next();\n  }`
  proof { if pk(*chars).len() > 0 { lemma_chs_tail(pk(*chars)); } s = rem(*chars); }
%fn parse_path_exp
%sub `path.chars().enumerate().peekable()` => `vx_enum_chars(path)`
%sig
  ensures r is Ok == (parse(path@) is Some), r matches Ok(v) ==> tvs(v@) == parse(path@)->0
%before `match chars.next()`
  proof { if pk(chars).len() > 0 { lemma_chs_tail(pk(chars)); } assert(tvs(tokens@) =~= seq![]); }
%before `path_exp(&mut chars, &mut tokens, path)?;\n          Ok(tokens)\n        }\n        c if`
  proof { assert(tvs(tokens@) =~= seq![Tok::Root]); }
%before `identifier(c, &mut chars`
  proof { broadcast use char_axioms; assert(tvs(tokens@) =~= seq![Tok::Root]); if pk(chars).len() > 0 { lemma_chs_tail(pk(chars)); } }
%after `identifier(c, &mut chars, &mut tokens, path)?;`
  proof { assert(tvs(tokens@) =~= seq![Tok::Root, Tok::Field(o0(p_ident(seq![c], path@.drop_first())))]); }
%fn DocPath::new
%sub `expr: impl Into<String>` => `expr: String`
%sub `let expr = expr.into();` => ``
%sub `anyhow::Result<Self>` => `Result<Self, VxError>`
%closure 0 |e: String| -> (r: VxError)
%sig
  ensures r is Ok == (parse(expr@) is Some), r matches Ok(d) ==> d.expr@ == expr@ && tvs(d.path_tokens@) == parse(expr@)->0
