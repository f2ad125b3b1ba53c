// ---- searching and slicing str by byte offset ----
verus! {
pub open spec fn blen(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
/// byte offset b of s is where character i starts
pub open spec fn at_char(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && b == blen(s.take(i)) }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len() as int) =~= p }
/// the first occurrence of p in s
pub open spec fn first_occ(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs(s, p, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs(s, p, j) }
pub open spec fn no_occ(s: Seq<char>, p: Seq<char>) -> bool { forall|j: int| !#[trigger] occurs(s, p, j) }
#[verifier::external_body] pub fn vx_find_str(s: &str, p: &str) -> (r: Option<usize>)
  ensures r is None ==> no_occ(s@, p@), r is Some ==> exists|i: int| at_char(s@, r->0 as int, i) && #[trigger] first_occ(s@, p@, i) { unimplemented!() }
#[verifier::external_body] pub fn vx_find_char(s: &str, c: char) -> (r: Option<usize>)
  ensures r is None ==> !s@.contains(c), r is Some ==> exists|i: int| at_char(s@, r->0 as int, i) && #[trigger] first_char(s@, c, i) { unimplemented!() }
pub open spec fn first_char(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != c }
#[verifier::external_body] pub fn vx_contains_str(s: &str, p: &str) -> (r: bool) ensures r == !no_occ(s@, p@) { unimplemented!() }
/// &s[a..b]: panics unless both are character boundaries, in order
#[verifier::external_body] pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
  requires a <= b, exists|i: int| at_char(s@, a as int, i), exists|j: int| at_char(s@, b as int, j)
  ensures forall|i: int, j: int| at_char(s@, a as int, i) && at_char(s@, b as int, j) ==> r@ == #[trigger] s@.subrange(i, j) { unimplemented!() }
#[verifier::external_body] pub fn vx_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
  requires exists|i: int| at_char(s@, a as int, i)
  ensures forall|i: int| at_char(s@, a as int, i) ==> r@ == #[trigger] s@.skip(i) { unimplemented!() }
pub proof fn lemma_blen_split(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures blen(s.take(j)) == blen(s.take(i)) + blen(s.subrange(i, j)), blen(s.subrange(i, j)) >= j - i, blen(s.take(j)) <= blen(s) {
  vstd::utf8::encode_utf8_concat(s.take(i), s.subrange(i, j)); assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
  vstd::utf8::encode_utf8_concat(s.take(j), s.skip(j)); assert(s.take(j) + s.skip(j) =~= s);
  lemma_blen_ge(s.subrange(i, j)); }
pub proof fn lemma_blen_ge(s: Seq<char>) ensures blen(s) >= s.len() decreases s.len() { reveal_with_fuel(vstd::utf8::encode_utf8, 2); if s.len() > 0 { lemma_blen_ge(s.drop_first()); } }
pub proof fn lemma_ascii_blen(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 ensures blen(s) == s.len() decreases s.len() { reveal_with_fuel(vstd::utf8::encode_utf8, 2);
  if s.len() > 0 { lemma_ascii_blen(s.drop_first()); broadcast use vstd::utf8::group_utf8_lib; assert(s =~= seq![s[0]] + s.drop_first()); vstd::utf8::encode_utf8_concat(seq![s[0]], s.drop_first()); assert(vstd::utf8::is_ascii_chars(seq![s[0]])); } }
/// one character of one byte further on
pub proof fn lemma_ascii_step(s: Seq<char>, b: int, i: int, n: int) requires at_char(s, b, i), 0 <= n, i + n <= s.len(), forall|k: int| i <= k < i + n ==> (#[trigger] s[k] as u32) < 128 ensures at_char(s, b + n, i + n) {
  lemma_blen_split(s, i, i + n); lemma_ascii_blen(s.subrange(i, i + n)); }
/// joined with a separator
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() } }
#[verifier::external_body] pub fn vx_join<T: VxDisp>(v: Vec<T>, sep: &str) -> (r: String) ensures r@ == joined(v@.map_values(|x: T| x.disp()), sep@) { unimplemented!() }
}
