// ---- printing ----
verus! {
pub open spec fn ident_start(c: char) -> bool { c == '_' || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') }
pub open spec fn ident_cont(c: char) -> bool { ident_start(c) || ('0' <= c && c <= '9') }
/// ^[_A-Za-z][_A-Za-z0-9]*$
pub open spec fn plain_ident(s: Seq<char>) -> bool {
  s.len() > 0 && ident_start(s[0]) && forall|i: int| 0 <= i < s.len() ==> ident_cont(#[trigger] s[i])
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { seq![] } else if s[0] == '\\' || s[0] == '\'' { seq!['\\', s[0]] + esc(s.drop_first()) } else { seq![s[0]] + esc(s.drop_first()) }
}
pub open spec fn render_key(k: Seq<char>) -> Seq<char> { if plain_ident(k) { seq!['.'] + k } else { seq!['[', '\''] + esc(k) + seq!['\'', ']'] } }
pub open spec fn render(t: Tok) -> Seq<char> {
  match t { Tok::Root => seq!['$'], Tok::Field(k) => render_key(k), Tok::Index(i) => seq!['['] + dec(i) + seq![']'],
    Tok::Star => seq!['.', '*'], Tok::StarIndex => seq!['[', '*', ']'] }
}
pub open spec fn render_all(ts: Seq<Tok>) -> Seq<char> decreases ts.len() {
  if ts.len() == 0 { seq![] } else { render_all(ts.drop_last()) + render(ts.last()) }
}
// ---- character classes (std: char::is_alphabetic / is_numeric) ----
pub uninterp spec fn alphabetic(c: char) -> bool;
pub uninterp spec fn numeric(c: char) -> bool;
pub assume_specification[char::is_alphabetic](c: char) -> (r: bool) ensures r == alphabetic(c);
pub assume_specification[char::is_numeric](c: char) -> (r: bool) ensures r == numeric(c);
pub broadcast axiom fn axiom_alpha(c: char) ensures (('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z')) ==> #[trigger] alphabetic(c);
pub broadcast axiom fn axiom_alpha_not(c: char) ensures (c == '.' || c == '[' || c == ']' || c == '\'' || c == '\\' || c == '*' || c == '$') ==> !#[trigger] alphabetic(c);
pub broadcast axiom fn axiom_num(c: char) ensures ('0' <= c && c <= '9') ==> #[trigger] numeric(c);
pub broadcast axiom fn axiom_num_not(c: char) ensures (c == '.' || c == '[' || c == ']' || c == '\'' || c == '\\' || c == '*' || c == '$' || c == '+') ==> !#[trigger] numeric(c);
pub broadcast group char_axioms { axiom_alpha, axiom_alpha_not, axiom_num, axiom_num_not }
pub open spec fn idc(ch: char) -> bool { alphabetic(ch) || numeric(ch) || ch == '_' || ch == '-' || ch == ':' || ch == '#' || ch == '@' }

// ---- number parsing (std: <usize as FromStr>::from_str) ----
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn decval(s: Seq<char>) -> nat decreases s.len() {
  if s.len() == 0 { 0 } else { decval(s.drop_last()) * 10 + ((s.last() as u32 - 48) as nat) }
}
/// what str::parse::<usize>() accepts: an optional '+', one or more ASCII digits, value in range
pub open spec fn usize_val(s: Seq<char>) -> Option<nat> {
  let d = if s.len() > 1 && s[0] == '+' { s.drop_first() } else { s };
  if d.len() > 0 && all_digits(d) && decval(d) <= usize::MAX as nat { Some(decval(d)) } else { None }
}
#[verifier::external_body]
pub struct ParseErr { _p: () }
#[verifier::external_body]
pub fn vx_parse_usize(s: &str) -> (r: Result<usize, ParseErr>)
  ensures r is Ok == (usize_val(s@) is Some), r matches Ok(v) ==> usize_val(s@) == Some(v as nat)
{ unimplemented!() }

// ---- grammar of path expressions ----
pub open spec fn p_ident(acc: Seq<char>, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
  if s.len() == 0 { Some((acc, s)) }
  else if idc(s[0]) { p_ident(acc.push(s[0]), s.drop_first()) }
  else if s[0] == '.' || s[0] == '\'' || s[0] == '[' { Some((acc, s)) }
  else { None }
}
pub open spec fn p_str(acc: Seq<char>, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
  if s.len() == 0 { None }
  else if s[0] == '\'' { if acc.len() == 0 { None } else { Some((acc, s.drop_first())) } }
  else if s[0] == '\\' && s.len() > 1 && (s[1] == '\'' || s[1] == '\\') { p_str(acc.push(s[1]), s.drop_first().drop_first()) }
  else { p_str(acc.push(s[0]), s.drop_first()) }
}
pub open spec fn p_digits(acc: Seq<char>, s: Seq<char>) -> (Seq<char>, Seq<char>) decreases s.len() {
  if s.len() > 0 && numeric(s[0]) { p_digits(acc.push(s[0]), s.drop_first()) } else { (acc, s) }
}
pub open spec fn p_index(s: Seq<char>) -> Option<(Tok, Seq<char>)> {
  let (d, rest) = p_digits(seq![s[0]], s.drop_first());
  if rest.len() > 0 && rest[0] != ']' { None }
  else { match usize_val(d) { Some(n) => Some((Tok::Index(n), rest)), None => None } }
}
/// after '.'
pub open spec fn p_dot(s: Seq<char>) -> Option<(Tok, Seq<char>)> {
  if s.len() == 0 { None }
  else if s[0] == '*' { Some((Tok::Star, s.drop_first())) }
  else if idc(s[0]) { match p_ident(seq![s[0]], s.drop_first()) { Some((id, r)) => Some((Tok::Field(id), r)), None => None } }
  else { None }
}
/// after '['
pub open spec fn p_bracket(s: Seq<char>) -> Option<(Tok, Seq<char>)> {
  let inner = if s.len() == 0 { None }
    else if s[0] == '\'' { match p_str(seq![], s.drop_first()) { Some((id, r)) => Some((Tok::Field(id), r)), None => None } }
    else if numeric(s[0]) { p_index(s) }
    else if s[0] == '*' { Some((Tok::StarIndex, s.drop_first())) }
    else { None };
  match inner { Some((t, r)) => if r.len() > 0 && r[0] == ']' { Some((t, r.drop_first())) } else { None }, None => None }
}
pub open spec fn p_exp(toks: Seq<Tok>, s: Seq<char>) -> Option<Seq<Tok>> decreases s.len() {
  if s.len() == 0 { Some(toks) }
  else {
    let step = if s[0] == '.' { p_dot(s.drop_first()) } else if s[0] == '[' { p_bracket(s.drop_first()) } else { None };
    match step { Some((t, r)) => if r.len() < s.len() { p_exp(toks.push(t), r) } else { None }, None => None }
  }
}
pub open spec fn parse(s: Seq<char>) -> Option<Seq<Tok>> {
  if s.len() == 0 { Some(seq![]) }
  else if s[0] == '$' { p_exp(seq![Tok::Root], s.drop_first()) }
  else if alphabetic(s[0]) || numeric(s[0]) {
    match p_ident(seq![s[0]], s.drop_first()) { Some((id, r)) => p_exp(seq![Tok::Root, Tok::Field(id)], r), None => None }
  } else { None }
}
/// a token list a path may hold: the root token first, and only there; field names not empty
pub open spec fn wf_toks(ts: Seq<Tok>) -> bool {
  &&& ts.len() > 0 ==> ts[0] == Tok::Root
  &&& forall|i: int| 1 <= i < ts.len() ==> wf_tok(#[trigger] ts[i])
}
pub open spec fn wf_tok(t: Tok) -> bool { t != Tok::Root && (t matches Tok::Field(f) ==> f.len() > 0) && (t matches Tok::Index(i) ==> i <= usize::MAX as nat) }

pub open spec fn o0<A, B>(o: Option<(A, B)>) -> A { (o->0).0 }
pub open spec fn o1<A, B>(o: Option<(A, B)>) -> B { (o->0).1 }
// ---- lemmas ----
pub proof fn lemma_dec_val(n: nat) ensures all_digits(dec(n)), decval(dec(n)) == n, dec(n).len() > 0 decreases n {
  if n < 10 {
    assert(dec(n).drop_last() =~= Seq::<char>::empty());
    assert(decval(Seq::<char>::empty()) == 0) by { reveal_with_fuel(decval, 1); }
    assert(dec(n).last() == digit(n));
  } else {
    lemma_dec_val(n / 10);
    assert(dec(n).drop_last() =~= dec(n / 10));
    assert(dec(n).last() == digit(n % 10));
    assert forall|i: int| 0 <= i < dec(n).len() implies is_digit(#[trigger] dec(n)[i]) by {
      if i < dec(n).len() - 1 { assert(dec(n)[i] == dec(n / 10)[i]); }
    }
  }
}
pub proof fn lemma_p_digits_all(acc: Seq<char>, s: Seq<char>, rest: Seq<char>)
  requires all_digits(s), rest.len() > 0, !numeric(rest[0])
  ensures p_digits(acc, s + rest) == (acc + s, rest) decreases s.len()
{
  broadcast use char_axioms;
  if s.len() == 0 { assert(s + rest =~= rest); assert(acc + s =~= acc); }
  else {
    assert((s + rest)[0] == s[0]); assert(is_digit(s[0]));
    assert((s + rest).drop_first() =~= s.drop_first() + rest);
    assert forall|i: int| 0 <= i < s.drop_first().len() implies is_digit(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); }
    lemma_p_digits_all(acc.push(s[0]), s.drop_first(), rest);
    assert(acc.push(s[0]) + s.drop_first() =~= acc + s);
  }
}
pub proof fn lemma_p_str_esc(acc: Seq<char>, k: Seq<char>, rest: Seq<char>)
  requires acc.len() + k.len() > 0
  ensures p_str(acc, esc(k) + (seq!['\''] + rest)) == Some((acc + k, rest)) decreases k.len()
{
  let t = seq!['\''] + rest;
  if k.len() == 0 {
    assert(esc(k) + t =~= t); assert(t.drop_first() =~= rest); assert(acc + k =~= acc);
  } else {
    let s = esc(k) + t;
    lemma_p_str_esc(acc.push(k[0]), k.drop_first(), rest);
    assert(acc.push(k[0]) + k.drop_first() =~= acc + k);
    if k[0] == '\\' || k[0] == '\'' {
      assert(s[0] == '\\' && s[1] == k[0]);
      assert(s.drop_first().drop_first() =~= esc(k.drop_first()) + t);
    } else {
      assert(s[0] == k[0]);
      assert(s.drop_first() =~= esc(k.drop_first()) + t);
    }
  }
}
pub open spec fn stop(s: Seq<char>) -> bool { s.len() == 0 || s[0] == '.' || s[0] == '[' }
pub proof fn lemma_p_ident_plain(acc: Seq<char>, k: Seq<char>, rest: Seq<char>)
  requires forall|i: int| 0 <= i < k.len() ==> ident_cont(#[trigger] k[i]), stop(rest)
  ensures p_ident(acc, k + rest) == Some((acc + k, rest)) decreases k.len()
{
  broadcast use char_axioms;
  if k.len() == 0 { assert(k + rest =~= rest); assert(acc + k =~= acc); }
  else {
    assert(ident_cont(k[0])); assert((k + rest)[0] == k[0]);
    assert((k + rest).drop_first() =~= k.drop_first() + rest);
    assert forall|i: int| 0 <= i < k.drop_first().len() implies ident_cont(#[trigger] k.drop_first()[i]) by { assert(k.drop_first()[i] == k[i + 1]); }
    lemma_p_ident_plain(acc.push(k[0]), k.drop_first(), rest);
    assert(acc.push(k[0]) + k.drop_first() =~= acc + k);
  }
}
// appending a suffix that starts a new path step does not disturb what was parsed before it
pub proof fn lemma_p_ident_ext(acc: Seq<char>, s: Seq<char>, x: Seq<char>)
  requires p_ident(acc, s) is Some, stop(x)
  ensures p_ident(acc, s + x) == Some((o0(p_ident(acc, s)), o1(p_ident(acc, s)) + x)), o1(p_ident(acc, s)).len() <= s.len() decreases s.len()
{
  broadcast use char_axioms;
  if s.len() == 0 { assert(s + x =~= x); }
  else { assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
    if idc(s[0]) { lemma_p_ident_ext(acc.push(s[0]), s.drop_first(), x); } }
}
pub proof fn lemma_p_str_ext(acc: Seq<char>, s: Seq<char>, x: Seq<char>)
  requires p_str(acc, s) is Some
  ensures p_str(acc, s + x) == Some((o0(p_str(acc, s)), o1(p_str(acc, s)) + x)), o1(p_str(acc, s)).len() < s.len(), o0(p_str(acc, s)).len() > 0 decreases s.len()
{
  if s.len() > 0 {
    assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
    if s[0] == '\'' {}
    else if s[0] == '\\' && s.len() > 1 && (s[1] == '\'' || s[1] == '\\') {
      assert((s + x)[1] == s[1]);
      assert((s + x).drop_first().drop_first() =~= s.drop_first().drop_first() + x);
      lemma_p_str_ext(acc.push(s[1]), s.drop_first().drop_first(), x);
    } else {
      if s[0] == '\\' && s.len() == 1 { assert(p_str(acc.push(s[0]), s.drop_first()) is None); }
      else { assert(s.len() > 1 ==> (s + x)[1] == s[1]); 
        if s.len() == 1 { assert(p_str(acc.push(s[0]), s.drop_first()) is None); }
        lemma_p_str_ext(acc.push(s[0]), s.drop_first(), x); }
    }
  }
}
pub proof fn lemma_p_digits_ext(acc: Seq<char>, s: Seq<char>, x: Seq<char>)
  requires p_digits(acc, s).1.len() > 0
  ensures p_digits(acc, s + x) == (p_digits(acc, s).0, p_digits(acc, s).1 + x), p_digits(acc, s).1.len() <= s.len() decreases s.len()
{
  if s.len() > 0 {
    assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
    if numeric(s[0]) { lemma_p_digits_ext(acc.push(s[0]), s.drop_first(), x); }
  }
}
pub proof fn lemma_p_dot_ext(s: Seq<char>, x: Seq<char>)
  requires p_dot(s) is Some, stop(x)
  ensures p_dot(s + x) == Some((o0(p_dot(s)), o1(p_dot(s)) + x)), o1(p_dot(s)).len() < s.len(), wf_tok(o0(p_dot(s)))
{
  broadcast use char_axioms;
  assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
  if s[0] != '*' { lemma_p_ident_ext(seq![s[0]], s.drop_first(), x); lemma_p_ident_len(seq![s[0]], s.drop_first()); }
}
pub proof fn lemma_p_ident_len(acc: Seq<char>, s: Seq<char>)
  requires p_ident(acc, s) is Some ensures o0(p_ident(acc, s)).len() >= acc.len() decreases s.len()
{ if s.len() > 0 && idc(s[0]) { lemma_p_ident_len(acc.push(s[0]), s.drop_first()); } }
pub proof fn lemma_p_bracket_ext(s: Seq<char>, x: Seq<char>)
  requires p_bracket(s) is Some
  ensures p_bracket(s + x) == Some((o0(p_bracket(s)), o1(p_bracket(s)) + x)), o1(p_bracket(s)).len() < s.len(), wf_tok(o0(p_bracket(s)))
{
  broadcast use char_axioms;
  assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
  if s[0] == '\'' { lemma_p_str_ext(seq![], s.drop_first(), x);
    let r = o1(p_str(seq![], s.drop_first())); assert((r + x)[0] == r[0]); assert((r + x).drop_first() =~= r.drop_first() + x); }
  else if numeric(s[0]) {
    let (d, r) = p_digits(seq![s[0]], s.drop_first());
    lemma_p_digits_ext(seq![s[0]], s.drop_first(), x);
    assert((r + x)[0] == r[0]); assert((r + x).drop_first() =~= r.drop_first() + x);
  } else { let r = s.drop_first(); assert((r + x)[0] == r[0]); assert((r + x).drop_first() =~= r.drop_first() + x); }
}
pub proof fn lemma_p_exp_ext(toks: Seq<Tok>, s: Seq<char>, x: Seq<char>)
  requires p_exp(toks, s) is Some, stop(x)
  ensures p_exp(toks, s + x) == p_exp(p_exp(toks, s)->0, x) decreases s.len()
{
  if s.len() == 0 { assert(s + x =~= x); }
  else {
    assert((s + x)[0] == s[0]); assert((s + x).drop_first() =~= s.drop_first() + x);
    if s[0] == '.' { lemma_p_dot_ext(s.drop_first(), x); let (t, r) = p_dot(s.drop_first())->0; lemma_p_exp_ext(toks.push(t), r, x); }
    else { lemma_p_bracket_ext(s.drop_first(), x); let (t, r) = p_bracket(s.drop_first())->0; lemma_p_exp_ext(toks.push(t), r, x); }
  }
}
/// one printed step parses back to the token it was printed from
pub proof fn lemma_step(toks: Seq<Tok>, t: Tok)
  requires wf_tok(t)
  ensures stop(render(t)), p_exp(toks, render(t)) == Some(toks.push(t))
{
  broadcast use char_axioms;
  let s = render(t);
  let e = Seq::<char>::empty();
  assert(p_exp(toks.push(t), e) == Some(toks.push(t)));
  match t {
    Tok::Field(k) => {
      if plain_ident(k) {
        assert(s.drop_first() =~= k);
        assert forall|i: int| 0 <= i < k.drop_first().len() implies ident_cont(#[trigger] k.drop_first()[i]) by { assert(k.drop_first()[i] == k[i + 1]); }
        lemma_p_ident_plain(seq![k[0]], k.drop_first(), e);
        assert(k.drop_first() + e =~= k.drop_first());
        assert(seq![k[0]] + k.drop_first() =~= k);
        assert(ident_cont(k[0]));
        assert(p_dot(k) == Some((t, e)));
      } else {
        let b = s.drop_first();
        assert(b.drop_first() =~= esc(k) + (seq!['\''] + seq![']']));
        lemma_p_str_esc(seq![], k, seq![']']);
        assert(seq![] + k =~= k);
        assert(seq![']'].drop_first() =~= e);
        assert(p_bracket(b) == Some((t, e)));
      }
    }
    Tok::Index(i) => {
      lemma_dec_val(i);
      let d = dec(i); let b = s.drop_first();
      assert(b =~= d + seq![']']);
      assert(b[0] == d[0]); assert(is_digit(d[0]));
      assert(b.drop_first() =~= d.drop_first() + seq![']']);
      assert forall|j: int| 0 <= j < d.drop_first().len() implies is_digit(#[trigger] d.drop_first()[j]) by { assert(d.drop_first()[j] == d[j + 1]); }
      lemma_p_digits_all(seq![d[0]], d.drop_first(), seq![']']);
      assert(seq![d[0]] + d.drop_first() =~= d);
      assert(usize_val(d) == Some(i));
      assert(seq![']'].drop_first() =~= e);
      assert(p_bracket(b) == Some((t, e)));
    }
    Tok::Star => { assert(s.drop_first().drop_first() =~= e); assert(s.drop_first()[0] == '*'); assert(p_dot(s.drop_first()) == Some((t, e))); }
    Tok::StarIndex => { let b = s.drop_first(); assert(b[0] == '*'); assert(b.drop_first() =~= seq![']']); assert(seq![']'].drop_first() =~= e); assert(p_bracket(b) == Some((t, e))); }
    Tok::Root => {}
  }
}
/// THEOREM: appending a printed step to any non-empty expression appends that token to what it parses to
pub proof fn theorem_append(e: Seq<char>, t: Tok)
  requires parse(e) is Some, e.len() > 0, wf_tok(t)
  ensures parse(e + render(t)) == Some((parse(e)->0).push(t))
{
  let x = render(t);
  assert((e + x)[0] == e[0]); assert((e + x).drop_first() =~= e.drop_first() + x);
  if e[0] == '$' {
    let ts = p_exp(seq![Tok::Root], e.drop_first())->0;
    lemma_step(ts, t);
    lemma_p_exp_ext(seq![Tok::Root], e.drop_first(), x);
  } else {
    let (id, r) = p_ident(seq![e[0]], e.drop_first())->0;
    let ts = p_exp(seq![Tok::Root, Tok::Field(id)], r)->0;
    lemma_step(ts, t);
    lemma_p_ident_ext(seq![e[0]], e.drop_first(), x);
    lemma_p_exp_ext(seq![Tok::Root, Tok::Field(id)], r, x);
  }
}
/// THEOREM: printing a well-formed token list and parsing the text gives the same token list
pub proof fn theorem_round_trip(ts: Seq<Tok>)
  requires wf_toks(ts)
  ensures parse(render_all(ts)) == Some(ts), ts.len() > 0 ==> render_all(ts).len() > 0 decreases ts.len()
{
  if ts.len() == 0 { assert(ts =~= seq![]); }
  else if ts.len() == 1 {
    assert(ts.drop_last() =~= seq![]);
    assert(render_all(ts.drop_last()) =~= Seq::<char>::empty());
    assert(render_all(ts) =~= seq!['$']);
    assert(seq!['$'].drop_first() =~= Seq::<char>::empty());
    assert(ts =~= seq![Tok::Root]);
    assert(p_exp(seq![Tok::Root], Seq::<char>::empty()) == Some(seq![Tok::Root]));
  } else {
    let p = ts.drop_last();
    theorem_round_trip(p);
    theorem_append(render_all(p), ts.last());
    assert(p.push(ts.last()) =~= ts);
  }
}

/// THEOREM: whatever parses is a well-formed token list
pub proof fn lemma_p_exp_wf(toks: Seq<Tok>, s: Seq<char>)
  requires p_exp(toks, s) is Some, toks.len() > 0, wf_toks(toks)
  ensures wf_toks(p_exp(toks, s)->0), (p_exp(toks, s)->0).len() > 0 decreases s.len()
{
  if s.len() > 0 {
    if s[0] == '.' { lemma_p_dot_ext(s.drop_first(), seq![]); let (t, r) = p_dot(s.drop_first())->0; lemma_p_exp_wf(toks.push(t), r); }
    else { lemma_p_bracket_ext(s.drop_first(), seq![]); let (t, r) = p_bracket(s.drop_first())->0; lemma_p_exp_wf(toks.push(t), r); }
  }
}
pub proof fn theorem_parse_wf(s: Seq<char>)
  requires parse(s) is Some
  ensures wf_toks(parse(s)->0), s.len() > 0 ==> (parse(s)->0).len() > 0, s.len() == 0 ==> (parse(s)->0).len() == 0
{
  if s.len() > 0 {
    if s[0] == '$' { lemma_p_exp_wf(seq![Tok::Root], s.drop_first()); }
    else { let (id, r) = p_ident(seq![s[0]], s.drop_first())->0; lemma_p_ident_len(seq![s[0]], s.drop_first());
      lemma_p_exp_wf(seq![Tok::Root, Tok::Field(id)], r); }
  }
}
pub proof fn lemma_render_push(ts: Seq<Tok>, t: Tok) ensures render_all(ts.push(t)) == render_all(ts) + render(t) { assert(ts.push(t).drop_last() =~= ts); }
}
