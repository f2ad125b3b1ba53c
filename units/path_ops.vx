%unit path_ops
%include std.rs
%include path_types.vx
%include path_spec.rs
%src rust/pact_models/src/path_exp.rs
%pin `static ref IDENT: Regex = Regex::new(r#"^[_A-Za-z][_A-Za-z0-9]*$"#)`
%pin `static ref ESCAPE: Regex = Regex::new(r#"\\|'"#)`
%prelude
verus! {
// regular expressions (regex crate), pinned below by text
#[verifier::external_body]
pub fn vx_ident_is_match(key: &str) -> (r: bool) ensures r == plain_ident(key@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_escape(key: &str) -> (r: String) ensures r@ == esc(key@) { unimplemented!() }

#[verifier::external_body]
pub fn vx_lit_root() -> (r: String) ensures r@ == seq!['$'] { unimplemented!() }
pub open spec fn no_root(s: Seq<Tok>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { seq![] } else if s.last() == Tok::Root { no_root(s.drop_last()) } else { no_root(s.drop_last()).push(s.last()) } }
pub open spec fn join_tok(p: Seq<char>) -> Tok { if p == seq!['*'] { Tok::Star } else if p == seq!['[', '*', ']'] { Tok::StarIndex } else { match usize_val(p) { Some(n) => Tok::Index(n), None => Tok::Field(p) } } }
/// Vec<PathToken> == [PathToken; 1]: element-wise comparison with the derived PartialEq
#[verifier::external_body]
pub fn vx_tokens_eq(v: &Vec<PathToken>, w: &[PathToken; 1]) -> (r: bool) ensures r == (tvs(v@) =~= tvs(w@)) { unimplemented!() }
/// itertools: iter().dropping_back(n).cloned().collect_vec()
#[verifier::external_body]
pub fn vx_drop_back(v: &Vec<PathToken>, n: usize) -> (r: Vec<PathToken>) ensures r@.len() == (if n < v@.len() { v@.len() - n } else { 0 }), tvs(r@) == tvs(v@).take(r@.len() as int) { unimplemented!() }
/// representation invariant: the expression text denotes exactly the tokens
pub open spec fn inv(d: DocPath) -> bool { parse(d.expr@) == Some(tvs(d.path_tokens@)) }
pub open spec fn live(d: DocPath) -> bool { inv(d) && d.expr@.len() > 0 }
}
%fn write_obj_key_for_path
%fmt exact
%sub `mut out: impl Write` => `out: &mut String`
%sub `IDENT.is_match(key)` => `vx_ident_is_match(key)`
%sub `ESCAPE.replace_all(key, |caps: &Captures| format!(r#"\{}"#, &caps[0]))` => `vx_escape(key)`
%sig
  ensures final(out)@ =~= old(out)@ + render_key(key@)
%fn DocPath::empty
%sub `"".into()` => `String::new()`
%tail
  proof { assert(tvs(seq![]) =~= seq![]); }
%sig
  ensures inv(r), r.path_tokens@.len() == 0, r.expr@.len() == 0
%fn DocPath::root
%sub `"$".into()` => `vx_lit_root()`
%sig
  ensures live(r), tvs(r.path_tokens@) =~= seq![Tok::Root], r.expr@ == seq!['$']
%tail
  proof { theorem_round_trip(seq![Tok::Root]); reveal_with_fuel(render_all, 3); assert(seq![Tok::Root].drop_last() =~= seq![]); assert(render_all(seq![Tok::Root]) =~= seq!['$']); }
%tail_after
  proof { assert(tvs(vx_ret.path_tokens@) =~= seq![Tok::Root]); }
%fn DocPath::len
%sig
  ensures r == self.path_tokens@.len()
%fn DocPath::tokens
%sig
  ensures r@ == self.path_tokens@
%fn DocPath::last
%sig
  ensures self.path_tokens@.len() == 0 ==> r is None, self.path_tokens@.len() > 0 ==> (r matches Some(t) && tv(t) == tvs(self.path_tokens@).last())
%fn DocPath::push_field
%sub `field: impl Into<String>` => `field: String`
%sub `let field = field.into();` => ``
%sig
  requires live(*old(self)), field@.len() > 0
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Field(field@)),
    r.expr@ =~= old(self).expr@ + render(Tok::Field(field@))
%body_start
  proof { theorem_append(self.expr@, Tok::Field(field@)); }
  let ghost f = field@;
%tail
  proof { assert(self.expr@ =~= old(self).expr@ + render(Tok::Field(f))); assert(tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Field(f))); }
%fn DocPath::push_index
%fmt exact
%sig
  requires live(*old(self))
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Index(index as nat)),
    r.expr@ =~= old(self).expr@ + render(Tok::Index(index as nat))
%body_start
  proof { theorem_append(self.expr@, Tok::Index(index as nat)); }
%tail
  proof { assert(self.expr@ =~= old(self).expr@ + render(Tok::Index(index as nat))); assert(tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Index(index as nat))); }
%fn DocPath::push_star
%sig
  requires live(*old(self))
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Star),
    r.expr@ =~= old(self).expr@ + render(Tok::Star)
%body_start
  proof { theorem_append(self.expr@, Tok::Star); reveal_strlit(".*"); }
%tail
  proof { assert(self.expr@ =~= old(self).expr@ + render(Tok::Star)); assert(tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::Star)); }
%fn DocPath::push_star_index
%sig
  requires live(*old(self))
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::StarIndex),
    r.expr@ =~= old(self).expr@ + render(Tok::StarIndex)
%body_start
  proof { theorem_append(self.expr@, Tok::StarIndex); reveal_strlit("[*]"); }
%tail
  proof { assert(self.expr@ =~= old(self).expr@ + render(Tok::StarIndex)); assert(tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@).push(Tok::StarIndex)); }
%fn DocPath::push
%fmt exact
%sig
  requires live(*old(self)), wf_tok(tv(path_token))
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@).push(tv(path_token)),
    r.expr@ =~= old(self).expr@ + render(tv(path_token))
%body_start
  let ghost t = tv(path_token);
  proof { theorem_append(self.expr@, t); reveal_strlit("[*]"); reveal_strlit(".*"); reveal_strlit("$"); }
%tail
  proof { assert(self.expr@ =~= old(self).expr@ + render(t)); assert(tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@).push(t)); }
%fn DocPath::push_path
%sig
  requires live(*old(self)), forall|i: int| 0 <= i < path.path_tokens@.len() ==> #[trigger] tvs(path.path_tokens@)[i] == Tok::Root || wf_tok(tvs(path.path_tokens@)[i])
  ensures *final(self) == *final(r), live(*r), tvs(r.path_tokens@) =~= tvs(old(self).path_tokens@) + no_root(tvs(path.path_tokens@))
%loop 0 it
  invariant live(*self), it.seq().len() == path.path_tokens@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == path.path_tokens@[i],
   tvs(self.path_tokens@) =~= tvs(old(self).path_tokens@) + no_root(tvs(path.path_tokens@).take(it.index@)),
   forall|i: int| 0 <= i < path.path_tokens@.len() ==> #[trigger] tvs(path.path_tokens@)[i] == Tok::Root || wf_tok(tvs(path.path_tokens@)[i])
%loop_start 0
  proof { let s = tvs(path.path_tokens@); let k = it.index@; assert(s[k] == tv(*token)); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
%tail
  proof { assert(tvs(path.path_tokens@).take(path.path_tokens@.len() as int) =~= tvs(path.path_tokens@)); }
%fn DocPath::build_expr
%fmt exact
%sig
  ensures r@ =~= render_all(tvs(self.path_tokens@))
%loop 0 it
  invariant it.seq().len() == self.path_tokens@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.path_tokens@[i],
   buffer@ =~= render_all(tvs(self.path_tokens@).take(it.index@))
%loop_start 0
  let ghost b0 = buffer@;
  proof { let s = tvs(self.path_tokens@); let k = it.index@; assert(s[k] == tv(*token)); assert(s.take(k + 1) =~= s.take(k).push(s[k])); lemma_render_push(s.take(k), s[k]); }
%loop_end 0
  proof { assert(buffer@ =~= b0 + render(tv(*token))); }
%tail
  proof { let s = tvs(self.path_tokens@); assert(s.take(s.len() as int) =~= s); }
%fn DocPath::parent
%sub `"".to_string()` => `String::new()`
%sig
  requires inv(*self)
  ensures self.path_tokens@.len() <= 1 ==> r is None,
    self.path_tokens@.len() > 1 ==> (r matches Some(p) && live(p) && tvs(p.path_tokens@) =~= tvs(self.path_tokens@).drop_last() && p.expr@ == render_all(tvs(p.path_tokens@)))
%body_start
  proof { theorem_parse_wf(self.expr@); }
%before `Some(path)`
  proof { assert(tvs(path.path_tokens@) =~= tvs(self.path_tokens@).drop_last()); theorem_round_trip(tvs(path.path_tokens@)); }
%fn DocPath::drop
%sub `self.path_tokens.iter()\n      .dropping_back(n)\n      .cloned()\n      .collect_vec()` => `vx_drop_back(&self.path_tokens, n)`
%sub `"".to_string()` => `String::new()`
%sig
  requires inv(*self)
  ensures live(r), n < self.path_tokens@.len() ==> tvs(r.path_tokens@) =~= tvs(self.path_tokens@).take(self.path_tokens@.len() - n),
    n >= self.path_tokens@.len() ==> tvs(r.path_tokens@) =~= seq![Tok::Root]
%body_start
  proof { theorem_parse_wf(self.expr@); }
%before `path.expr = path.build_expr();`
  proof { assert(tvs(path.path_tokens@) =~= tvs(self.path_tokens@).take(self.path_tokens@.len() - n)); theorem_round_trip(tvs(path.path_tokens@)); }
%fn DocPath::from_tokens
%sub `<I>(tokens: I)` => `(tokens: Vec<PathToken>)`
%sub `where I: IntoIterator<Item = PathToken> ` => ``
%sub `tokens.into_iter().collect()` => `tokens`
%sub `"".into()` => `String::new()`
%sig
  requires wf_toks(tvs(tokens@))
  ensures inv(r), r.path_tokens@ == tokens@, r.expr@ == render_all(tvs(tokens@))
%tail
  proof { theorem_round_trip(tvs(tokens@)); }
%fn DocPath::is_root
%sub `&self.path_tokens == &[PathToken::Root]` => `vx_tokens_eq(&self.path_tokens, &[PathToken::Root])`
%sig
  ensures r == (tvs(self.path_tokens@) =~= seq![Tok::Root])
%fn DocPath::is_wildcard
%sig
  ensures r == (self.path_tokens@.len() > 0 && tvs(self.path_tokens@).last() == Tok::Star)
%fn DocPath::join
%sub `part: impl Into<String>` => `part: String`
%sub `let part = part.into();` => ``
%sub `part == "*"` => `vx_str_eq(part.as_str(), "*")`
%sub `part == "[*]"` => `vx_str_eq(part.as_str(), "[*]")`
%sub `part.parse()` => `vx_parse_usize(part.as_str())`
%sig
  requires live(*self), part@.len() > 0
  ensures live(r), tvs(r.path_tokens@) =~= tvs(self.path_tokens@).push(join_tok(part@)), r.expr@ =~= self.expr@ + render(join_tok(part@))
%body_start
  proof { reveal_strlit("*"); reveal_strlit("[*]"); assert("*"@ =~= seq!['*']); assert("[*]"@ =~= seq!['[', '*', ']']); }
%fn DocPath::join_index
%sig
  requires live(*self)
  ensures live(r), ({ let ts = tvs(self.path_tokens@); let i = Tok::Index(index as nat);
    tvs(r.path_tokens@) =~= (if ts.last() == Tok::Star || ts.last() == Tok::StarIndex { ts.drop_last().push(i) } else { ts.push(i) })
    && r.expr@ =~= (if ts.last() == Tok::Star || ts.last() == Tok::StarIndex { render_all(tvs(r.path_tokens@)) } else { self.expr@ + render(i) }) })
%body_start
  proof { theorem_parse_wf(self.expr@); }
%before `path.expr = path.build_expr();`
  proof { let ts = tvs(self.path_tokens@); assert(tvs(path.path_tokens@) =~= ts.drop_last().push(Tok::Index(index as nat))); theorem_round_trip(tvs(path.path_tokens@)); }
%fn DocPath::join_field
%sub `<S: Into<String>>(&self, name: S)` => `(&self, name: String)`
%sub 7 `name.into()` => `name`
%sig
  requires live(*self), name@.len() > 0
  ensures live(r), ({ let ts = tvs(self.path_tokens@); let i = Tok::Field(name@);
    tvs(r.path_tokens@) =~= (if ts.last() == Tok::Star { ts.drop_last().push(i) } else { ts.push(i) })
    && r.expr@ =~= (if ts.last() == Tok::Star { render_all(tvs(r.path_tokens@)) } else { self.expr@ + render(i) }) })
%body_start
  proof { theorem_parse_wf(self.expr@); }
  let ghost f = name@;
%before `path.expr = path.build_expr();`
  proof { let ts = tvs(self.path_tokens@); assert(tvs(path.path_tokens@) =~= ts.drop_last().push(Tok::Field(f))); theorem_round_trip(tvs(path.path_tokens@)); }
%fn DocPath::first_field
%sig
  ensures r is None ==> forall|i: int| 0 <= i < self.path_tokens@.len() ==> !(#[trigger] self.path_tokens@[i] is Field),
    r matches Some(s) ==> exists|i: int| 0 <= i < self.path_tokens@.len() && tv(#[trigger] self.path_tokens@[i]) == Tok::Field(s@) && forall|j: int| 0 <= j < i ==> !(#[trigger] self.path_tokens@[j] is Field)
%loop 0 it
  invariant it.seq().len() == self.path_tokens@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.path_tokens@[i],
    forall|i: int| 0 <= i < it.index@ ==> !(#[trigger] self.path_tokens@[i] is Field)
%loop_start 0
  proof { assert(*token == self.path_tokens@[it.index@]); }
%fn DocPath::last_field
%sig
  ensures r is None ==> forall|i: int| 0 <= i < self.path_tokens@.len() ==> !(#[trigger] self.path_tokens@[i] is Field),
    r matches Some(s) ==> exists|i: int| 0 <= i < self.path_tokens@.len() && tv(#[trigger] self.path_tokens@[i]) == Tok::Field(s@) && forall|j: int| i < j < self.path_tokens@.len() ==> !(#[trigger] self.path_tokens@[j] is Field)
%loop 0 it
  invariant it.seq().len() == self.path_tokens@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.path_tokens@[self.path_tokens@.len() - 1 - i],
    forall|i: int| self.path_tokens@.len() - it.index@ <= i < self.path_tokens@.len() ==> !(#[trigger] self.path_tokens@[i] is Field)
%loop_start 0
  proof { assert(*token == self.path_tokens@[self.path_tokens@.len() - 1 - it.index@]); }
