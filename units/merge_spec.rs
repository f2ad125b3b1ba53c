verus! {
// ---- what merging goes by ----
#[verifier::external_body] pub struct VxNone { _p: () }
/// description and names of the provider states
pub type MK = (Seq<char>, Seq<Seq<char>>);
pub open spec fn names(s: Seq<ProviderState>) -> Seq<Seq<char>> { s.map_values(|p: ProviderState| p.name@) }
pub uninterp spec fn rdesc(r: RV) -> Seq<char>;
pub uninterp spec fn mdesc(m: MV) -> Seq<char>;
pub open spec fn ddesc(d: DV) -> Seq<char> { match d { DV::V4(i) => desc(i), DV::Rr(r) => rdesc(r), DV::Msg(m) => mdesc(m) } }
pub uninterp spec fn dstates(d: DV) -> Seq<Seq<char>>;
pub open spec fn mkey(d: DV) -> MK { (ddesc(d), dstates(d)) }
/// an interaction of any kind
pub trait VxInt { spec fn dvv(&self) -> DV; fn description(&self) -> (r: String) ensures r@ == ddesc(self.dvv()); fn provider_states(&self) -> (r: Vec<ProviderState>) ensures names(r@) == dstates(self.dvv()); }
impl VxInt for V4I { open spec fn dvv(&self) -> DV { DV::V4(iv(*self)) } #[verifier::external_body] fn description(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn provider_states(&self) -> (r: Vec<ProviderState>) { unimplemented!() } }
impl VxInt for RequestResponseInteraction { open spec fn dvv(&self) -> DV { DV::Rr(rv(*self)) } #[verifier::external_body] fn description(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn provider_states(&self) -> (r: Vec<ProviderState>) { unimplemented!() } }
impl VxInt for Message { open spec fn dvv(&self) -> DV { DV::Msg(mv(*self)) } #[verifier::external_body] fn description(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn provider_states(&self) -> (r: Vec<ProviderState>) { unimplemented!() } }
impl VxInt for DynI { open spec fn dvv(&self) -> DV { dv(*self) } #[verifier::external_body] fn description(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn provider_states(&self) -> (r: Vec<ProviderState>) { unimplemented!() } }
/// the contracts of the conversions of an interaction to its own kind (C20)
pub axiom fn axiom_own_kind() ensures forall|r: RV| #[trigger] as_rr(DV::Rr(r)) == Some(r), forall|m: MV| #[trigger] as_msg(DV::Msg(m)) == Some(m);
pub uninterp spec fn ikey(i: IV) -> Option<Seq<char>>;
pub uninterp spec fn itype(i: IV) -> Seq<char>;
impl V4I {
  #[verifier::external_body] pub fn key(&self) -> (r: Option<String>) ensures r is Some == ikey(iv(*self)) is Some, r is Some ==> Some(r->0@) == ikey(iv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn vx_type_of(&self) -> (r: String) ensures r@ == itype(iv(*self)) { unimplemented!() }
  pub fn to_super(&self) -> (r: &V4I) ensures r == self { self }
}
impl DynI { pub fn as_ref(&self) -> (r: &DynI) ensures r == self { self } #[verifier::external_body] pub fn type_of(&self) -> (r: String) { unimplemented!() } }
// ---- order: texts, lists and pairs of them have the total order of std ----
pub trait VxKeyed { type K; spec fn kq(&self) -> Self::K; }
impl VxKeyed for String { type K = Seq<char>; open spec fn kq(&self) -> Seq<char> { self@ } }
impl<T: VxKeyed> VxKeyed for Vec<T> { type K = Seq<T::K>; open spec fn kq(&self) -> Seq<T::K> { self@.map_values(|x: T| x.kq()) } }
impl<A: VxKeyed, B: VxKeyed> VxKeyed for (A, B) { type K = (A::K, B::K); open spec fn kq(&self) -> (A::K, B::K) { (self.0.kq(), self.1.kq()) } }
pub uninterp spec fn ord<K>(a: K, b: K) -> Ordering;
pub axiom fn axiom_ord<K>() ensures forall|a: K, b: K| (#[trigger] ord(a, b) == Ordering::Equal) == (a == b), forall|a: K, b: K| (#[trigger] ord(a, b) == Ordering::Less) == (ord(b, a) == Ordering::Greater), forall|a: K, b: K, c: K| #[trigger] ord(a, b) != Ordering::Greater && #[trigger] ord(b, c) != Ordering::Greater ==> ord(a, c) != Ordering::Greater;
#[verifier::external_body] pub fn vx_cmp<T: VxKeyed>(a: &T, b: &T) -> (r: Ordering) ensures r == ord(a.kq(), b.kq()) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_key<T: VxKeyed>(a: &T, b: &T) -> (r: bool) ensures r == (a.kq() == b.kq()) { unimplemented!() }
pub open spec fn le<K>(a: K, b: K) -> bool { ord(a, b) != Ordering::Greater }
pub open spec fn sorted<K>(s: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
// ---- itertools ----
/// sorted_by_key: the same items, ordered by a function of each
#[verifier::external_body] pub fn vx_sorted_by_key<T, K: VxKeyed, F: Fn(&T) -> K>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|x: &T| f.requires((x,)), forall|x: &T, a: K, b: K| f.ensures((x,), a) && f.ensures((x,), b) ==> a.kq() == b.kq()
    ensures r@.to_multiset() == v@.to_multiset(), forall|i: int, j: int, a: K, b: K| 0 <= i < j < r@.len() && f.ensures((&#[trigger] r@[i],), a) && f.ensures((&#[trigger] r@[j],), b) ==> le(a.kq(), b.kq()), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> exists|a: K| #[trigger] f.ensures((&r@[i],), a) { unimplemented!() }
/// merge_join_by
#[verifier::external_body] pub fn vx_merge_join_by<A, B, F: Fn(&A, &B) -> Ordering>(a: Vec<A>, o: Vec<B>, f: F) -> (r: Vec<EitherOrBoth<A, B>>)
    requires forall|x: &A, y: &B| f.requires((x, y)) ensures mj_by(a@, o@, f, r@) { unimplemented!() }
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
pub open spec fn mj_by<A, B, F: Fn(&A, &B) -> Ordering>(a: Seq<A>, b: Seq<B>, f: F, r: Seq<EitherOrBoth<A, B>>) -> bool decreases a.len() + b.len() {
  if a.len() == 0 { r.len() == b.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == EitherOrBoth::<A, B>::Right(b[i]) } else if b.len() == 0 { r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == EitherOrBoth::<A, B>::Left(a[i]) }
  else { r.len() > 0 && ((f.ensures((&a[0], &b[0]), Ordering::Less) && r[0] == EitherOrBoth::<A, B>::Left(a[0]) && mj_by(a.drop_first(), b, f, r.drop_first()))
    || (f.ensures((&a[0], &b[0]), Ordering::Greater) && r[0] == EitherOrBoth::<A, B>::Right(b[0]) && mj_by(a, b.drop_first(), f, r.drop_first()))
    || (f.ensures((&a[0], &b[0]), Ordering::Equal) && r[0] == EitherOrBoth::<A, B>::Both(a[0], b[0]) && mj_by(a.drop_first(), b.drop_first(), f, r.drop_first()))) } }
/// the items of two lists in step, the second list's where both have one
pub open spec fn mj(a: Seq<DV>, b: Seq<DV>) -> Seq<DV> decreases a.len() + b.len() {
  if a.len() == 0 { b } else if b.len() == 0 { a } else { match ord(mkey(a[0]), mkey(b[0])) { Ordering::Less => seq![a[0]] + mj(a.drop_first(), b), Ordering::Greater => seq![b[0]] + mj(a, b.drop_first()), Ordering::Equal => seq![b[0]] + mj(a.drop_first(), b.drop_first()) } } }
pub open spec fn either<A, B>(e: EitherOrBoth<A, B>, va: spec_fn(A) -> DV, vb: spec_fn(B) -> DV) -> DV { match e { EitherOrBoth::Left(x) => va(x), EitherOrBoth::Right(y) => vb(y), EitherOrBoth::Both(_, y) => vb(y) } }
pub proof fn lemma_mj<A, B, F: Fn(&A, &B) -> Ordering>(a: Seq<A>, b: Seq<B>, f: F, r: Seq<EitherOrBoth<A, B>>, va: spec_fn(A) -> DV, vb: spec_fn(B) -> DV)
  requires mj_by(a, b, f, r), forall|x: &A, y: &B, o: Ordering| #[trigger] f.ensures((x, y), o) ==> o == ord(mkey(va(*x)), mkey(vb(*y)))
  ensures r.map_values(|e: EitherOrBoth<A, B>| either(e, va, vb)) == mj(a.map_values(va), b.map_values(vb)) decreases a.len() + b.len() {
  let g = |e: EitherOrBoth<A, B>| either(e, va, vb); let (x, y) = (a.map_values(va), b.map_values(vb));
  if a.len() == 0 { assert(r.map_values(g) =~= y); } else if b.len() == 0 { assert(r.map_values(g) =~= x); } else {
    let t = r.drop_first(); assert(x.drop_first() =~= a.drop_first().map_values(va)); assert(y.drop_first() =~= b.drop_first().map_values(vb)); assert(r.map_values(g) =~= seq![g(r[0])] + t.map_values(g));
    if f.ensures((&a[0], &b[0]), Ordering::Less) && r[0] == EitherOrBoth::<A, B>::Left(a[0]) && mj_by(a.drop_first(), b, f, t) { lemma_mj(a.drop_first(), b, f, t, va, vb); }
    else if f.ensures((&a[0], &b[0]), Ordering::Greater) && r[0] == EitherOrBoth::<A, B>::Right(b[0]) && mj_by(a, b.drop_first(), f, t) { lemma_mj(a, b.drop_first(), f, t, va, vb); } else { lemma_mj(a.drop_first(), b.drop_first(), f, t, va, vb); } } }
// ---- what merging gives ----
pub open spec fn keys(s: Seq<DV>) -> Seq<MK> { s.map_values(|d: DV| mkey(d)) }
/// m: the interactions of both lists in step, both in order
pub open spec fn is_merge(a: Seq<DV>, b: Seq<DV>, m: Seq<DV>) -> bool { exists|x: Seq<DV>, y: Seq<DV>| #[trigger] merge_via(a, b, m, x, y) }
pub open spec fn merge_via(a: Seq<DV>, b: Seq<DV>, m: Seq<DV>, x: Seq<DV>, y: Seq<DV>) -> bool { x.to_multiset() == a.to_multiset() && y.to_multiset() == b.to_multiset() && sorted(keys(x)) && sorted(keys(y)) && m == mj(x, y) }
pub open spec fn dvr<T: VxInt>(s: Seq<&T>) -> Seq<DV> { s.map_values(|x: &T| x.dvv()) }
/// x: the interactions of a, in order
pub open spec fn sorted_of(a: Seq<DV>, x: Seq<DV>) -> bool { x.to_multiset() == a.to_multiset() && sorted(keys(x)) }
pub open spec fn joined<A: VxInt, B: VxInt>(r: Seq<EitherOrBoth<&A, &B>>) -> Seq<DV> { r.map_values(|e: EitherOrBoth<&A, &B>| either(e, |x: &A| x.dvv(), |x: &B| x.dvv())) }
pub trait VxSorted<'a, T: VxInt>: Sized { spec fn items(self) -> Seq<&'a T>;
  fn sorted_by_key<K: VxKeyed<K = MK>, F: Fn(&&'a T) -> K>(self, f: F) -> (r: Vec<&'a T>) requires forall|x: &&'a T| f.requires((x,)), forall|x: &&'a T, a: K| #[trigger] f.ensures((x,), a) ==> a.kq() == mkey(x.dvv()) ensures sorted_of(dvr(self.items()), dvr(r@));
  fn merge_join_by<B: VxInt, F: Fn(&&'a T, &&'a B) -> Ordering>(self, o: Vec<&'a B>, f: F) -> (r: Vec<EitherOrBoth<&'a T, &'a B>>) requires forall|x: &&'a T, y: &&'a B| f.requires((x, y)), forall|x: &&'a T, y: &&'a B, c: Ordering| #[trigger] f.ensures((x, y), c) ==> c == ord(mkey(x.dvv()), mkey(y.dvv()))
    ensures forall|a: Seq<DV>, b: Seq<DV>| sorted_of(a, dvr(self.items())) && sorted_of(b, dvr(o@)) ==> #[trigger] is_merge(a, b, joined(r@)); }
impl<'a, T: VxInt> VxSorted<'a, T> for Vec<&'a T> { open spec fn items(self) -> Seq<&'a T> { self@ }
  fn sorted_by_key<K: VxKeyed<K = MK>, F: Fn(&&'a T) -> K>(self, f: F) -> (r: Vec<&'a T>) { let r = vx_sorted_by_key(self, f); proof { lemma_map_bag(r@, self@, |x: &T| x.dvv()); let k = keys(dvr(r@)); assert forall|i: int, j: int| 0 <= i < j < k.len() implies le(#[trigger] k[i], #[trigger] k[j]) by { let a = choose|a: K| #[trigger] f.ensures((&r@[i],), a); let b = choose|b: K| #[trigger] f.ensures((&r@[j],), b); assert(k[i] == a.kq()); assert(k[j] == b.kq()); } } r }
  fn merge_join_by<B: VxInt, F: Fn(&&'a T, &&'a B) -> Ordering>(self, o: Vec<&'a B>, f: F) -> (r: Vec<EitherOrBoth<&'a T, &'a B>>) { let ghost y = o@; let r = vx_merge_join_by(self, o, f); proof { lemma_mj(self@, y, f, r@, |x: &T| x.dvv(), |x: &B| x.dvv()); assert forall|a: Seq<DV>, b: Seq<DV>| sorted_of(a, dvr(self.items())) && sorted_of(b, dvr(y)) implies #[trigger] is_merge(a, b, joined(r@)) by { assert(merge_via(a, b, joined(r@), dvr(self@), dvr(y))); } } r } }
pub open spec fn times(s: Seq<DV>, k: MK) -> nat { keys(s).to_multiset().count(k) }
pub proof fn lemma_map_bag<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B) requires a.to_multiset() == b.to_multiset() ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset() decreases a.len() {
  broadcast use vstd::seq_lib::group_to_multiset_ensures; a.to_multiset_ensures(); b.to_multiset_ensures();
  assert(a.to_multiset().len() == b.to_multiset().len()); assert(a.len() == b.len());
  if a.len() == 0 { assert(a.map_values(f) =~= b.map_values(f)); } else { let x = a.last(); assert(a[a.len() - 1] == x); assert(a.contains(x)); assert(a.to_multiset().count(x) > 0); assert(b.to_multiset().count(x) > 0); assert(b.contains(x)); let j = b.index_of(x); let (a1, b1) = (a.drop_last(), b.remove(j)); assert(a1 =~= a.remove(a.len() - 1)); assert(a1.to_multiset() =~= b1.to_multiset()); lemma_map_bag(a1, b1, f);
    assert(a.map_values(f) =~= a1.map_values(f).push(f(x))); assert(b1.map_values(f) =~= b.map_values(f).remove(j)); assert(b.map_values(f)[j] == f(x)); assert(b.map_values(f).contains(f(x))); assert(b.map_values(f).to_multiset() =~= b1.map_values(f).to_multiset().insert(f(x))); assert(a.map_values(f).to_multiset() =~= a1.map_values(f).to_multiset().insert(f(x))); } }
pub proof fn lemma_first(s: Seq<DV>, k: MK) requires s.len() > 0 ensures times(s, k) == times(s.drop_first(), k) + (if mkey(s[0]) == k { 1nat } else { 0 }), sorted(keys(s)) ==> sorted(keys(s.drop_first())) {
  broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(keys(s) =~= seq![mkey(s[0])] + keys(s.drop_first())); vstd::seq_lib::lemma_multiset_commutative(seq![mkey(s[0])], keys(s.drop_first())); assert(seq![mkey(s[0])] =~= Seq::<MK>::empty().push(mkey(s[0])));
  assert(keys(s.drop_first()) =~= keys(s).drop_first()); }
pub proof fn lemma_cons(x: DV, t: Seq<DV>, k: MK) ensures times(seq![x] + t, k) == times(t, k) + (if mkey(x) == k { 1nat } else { 0 }), keys(seq![x] + t) =~= seq![mkey(x)] + keys(t) { let s = seq![x] + t; assert(s.drop_first() =~= t); lemma_first(s, k); }
pub proof fn lemma_none(s: Seq<DV>, k: MK) requires forall|i: int| 0 <= i < s.len() ==> mkey(#[trigger] s[i]) != k ensures times(s, k) == 0 decreases s.len() { broadcast use vstd::seq_lib::group_to_multiset_ensures; if s.len() > 0 { lemma_first(s, k); lemma_none(s.drop_first(), k); } else { assert(keys(s) =~= Seq::<MK>::empty()); } }
pub proof fn lemma_some(s: Seq<DV>, k: MK) requires times(s, k) > 0 ensures exists|i: int| 0 <= i < s.len() && mkey(#[trigger] s[i]) == k { if forall|i: int| 0 <= i < s.len() ==> mkey(#[trigger] s[i]) != k { lemma_none(s, k); } }
pub open spec fn max(a: nat, b: nat) -> nat { if a > b { a } else { b } }
/// in the order of the keys; every key as often as in the list that has it more often; nothing that was in neither list; everything of the second list, everything of the first that the second has no other for
pub open spec fn merged(a: Seq<DV>, b: Seq<DV>, m: Seq<DV>) -> bool { &&& sorted(keys(m)) &&& forall|k: MK| #[trigger] times(m, k) == max(times(a, k), times(b, k)) &&& forall|d: DV| #[trigger] m.contains(d) ==> a.contains(d) || b.contains(d) &&& forall|d: DV| #[trigger] b.contains(d) ==> m.contains(d) &&& forall|d: DV| #[trigger] a.contains(d) && times(b, mkey(d)) == 0 ==> m.contains(d) }
proof fn lemma_in(x: DV, t: Seq<DV>) ensures forall|d: DV| #[trigger] (seq![x] + t).contains(d) == (d == x || t.contains(d)) { assert forall|d: DV| #[trigger] (seq![x] + t).contains(d) == (d == x || t.contains(d)) by { let s = seq![x] + t; if d == x { assert(s[0] == x); } if t.contains(d) { let i = choose|i: int| 0 <= i < t.len() && t[i] == d; assert(s[i + 1] == d); } if s.contains(d) { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; if i > 0 { assert(t[i - 1] == d); } } } }
proof fn lemma_keys_in(s: Seq<DV>, i: int) requires 0 <= i < s.len() ensures times(s, mkey(s[i])) > 0 { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(keys(s)[i] == mkey(s[i])); assert(keys(s).contains(mkey(s[i]))); }
pub proof fn lemma_merged(a: Seq<DV>, b: Seq<DV>) requires sorted(keys(a)), sorted(keys(b)) ensures merged(a, b, mj(a, b)) decreases a.len() + b.len() {
  axiom_ord::<MK>(); let m = mj(a, b);
  if a.len() == 0 { assert forall|k: MK| times(a, k) == 0 by { lemma_none(a, k); } } else if b.len() == 0 { assert forall|k: MK| times(b, k) == 0 by { lemma_none(b, k); } }
  else { let (a1, b1) = (a.drop_first(), b.drop_first()); let (ka, kb) = (mkey(a[0]), mkey(b[0])); lemma_first(a, ka); lemma_first(b, kb); assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1); lemma_in(a[0], a1); lemma_in(b[0], b1);
    let (h, ra, rb) = match ord(ka, kb) { Ordering::Less => (a[0], a1, b), Ordering::Greater => (b[0], a, b1), Ordering::Equal => (b[0], a1, b1) }; let t = mj(ra, rb); lemma_merged(ra, rb); assert(m == seq![h] + t); lemma_in(h, t);
    assert forall|i: int| 0 <= i < a.len() implies le(ka, mkey(#[trigger] a[i])) by { assert(keys(a)[i] == mkey(a[i])); assert(keys(a)[0] == ka); } assert forall|i: int| 0 <= i < b.len() implies le(kb, mkey(#[trigger] b[i])) by { assert(keys(b)[i] == mkey(b[i])); assert(keys(b)[0] == kb); }
    assert forall|k: MK| #[trigger] times(m, k) == max(times(a, k), times(b, k)) by { lemma_cons(h, t, k); lemma_first(a, k); lemma_first(b, k); assert(times(t, k) == max(times(ra, k), times(rb, k)));
      if ord(ka, kb) == Ordering::Less && k == ka && times(b, k) > 0 { lemma_some(b, k); let i = choose|i: int| 0 <= i < b.len() && mkey(#[trigger] b[i]) == k; assert(le(kb, mkey(b[i]))); assert(false); }
      if ord(ka, kb) == Ordering::Greater && k == kb && times(a, k) > 0 { lemma_some(a, k); let i = choose|i: int| 0 <= i < a.len() && mkey(#[trigger] a[i]) == k; assert(le(ka, mkey(a[i]))); assert(false); } }
    lemma_cons(h, t, mkey(h));
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies le(#[trigger] keys(m)[i], #[trigger] keys(m)[j]) by { if i == 0 { let d = t[j - 1]; assert(t.contains(d)); assert(keys(m)[j] == mkey(d)); assert(ra.contains(d) || rb.contains(d)); if a.contains(d) { let q = choose|q: int| 0 <= q < a.len() && a[q] == d; assert(le(ka, mkey(a[q]))); assert(le(mkey(h), ka)); assert(le(mkey(h), mkey(d))); } else { assert(b.contains(d)); let q = choose|q: int| 0 <= q < b.len() && b[q] == d; assert(le(kb, mkey(b[q]))); assert(le(mkey(h), kb)); assert(le(mkey(h), mkey(d))); } } else { assert(keys(m)[i] == keys(t)[i - 1]); assert(keys(m)[j] == keys(t)[j - 1]); } }
    assert forall|d: DV| #[trigger] a.contains(d) && times(b, mkey(d)) == 0 implies m.contains(d) by { lemma_first(b, mkey(d)); if d == a[0] && !ra.contains(d) { if ord(ka, kb) == Ordering::Equal { lemma_keys_in(b, 0); } } else { assert(ra.contains(d)); } }
    assert forall|d: DV| #[trigger] b.contains(d) implies m.contains(d) by { if d != b[0] || ord(ka, kb) == Ordering::Less { assert(rb.contains(d)); } }
  } }
pub proof fn theorem_merged(a: Seq<DV>, b: Seq<DV>, m: Seq<DV>) requires is_merge(a, b, m) ensures merged(a, b, m) {
  let (x, y) = choose|x: Seq<DV>, y: Seq<DV>| #[trigger] merge_via(a, b, m, x, y); lemma_merged(x, y); let f = |d: DV| mkey(d); lemma_map_bag(x, a, f); lemma_map_bag(y, b, f); assert forall|k: MK| #[trigger] times(m, k) == max(times(a, k), times(b, k)) by { assert(times(x, k) == times(a, k)); assert(times(y, k) == times(b, k)); }
  broadcast use vstd::seq_lib::group_to_multiset_ensures; assert forall|d: DV| x.contains(d) == a.contains(d) by { assert(x.to_multiset().count(d) == a.to_multiset().count(d)); } assert forall|d: DV| y.contains(d) == b.contains(d) by { assert(y.to_multiset().count(d) == b.to_multiset().count(d)); }
  assert forall|d: DV| #[trigger] m.contains(d) implies a.contains(d) || b.contains(d) by { assert(x.contains(d) || y.contains(d)); } assert forall|d: DV| #[trigger] b.contains(d) implies m.contains(d) by { assert(y.contains(d)); }
  assert forall|d: DV| #[trigger] a.contains(d) && times(b, mkey(d)) == 0 implies m.contains(d) by { assert(x.contains(d)); assert(times(y, mkey(d)) == times(b, mkey(d))); } }
// ---- V4: the interactions of the other pact that are not the same as one of this pact ----
pub open spec fn same_int(a: IV, b: IV) -> bool { match (ikey(a), ikey(b)) { (Some(x), Some(y)) => x == y, _ => mkey(DV::V4(a)) == mkey(DV::V4(b)) && itype(a) == itype(b) } }
pub open spec fn first_same(a: IV, s: Seq<IV>, i: int) -> bool { 0 <= i < s.len() && same_int(a, s[i]) && forall|j: int| 0 <= j < i ==> !same_int(a, #[trigger] s[j]) }
pub open spec fn without(s: Seq<IV>, a: IV) -> Seq<IV> { if exists|i: int| first_same(a, s, i) { s.remove(choose|i: int| first_same(a, s, i)) } else { s } }
pub open spec fn rest(a: Seq<IV>, b: Seq<IV>) -> Seq<IV> decreases a.len() { if a.len() == 0 { b } else { without(rest(a.drop_last(), b), a.last()) } }
pub open spec fn v4key(i: IV) -> (MK, Seq<char>) { (mkey(DV::V4(i)), itype(i)) }
pub open spec fn merged4(a: Seq<IV>, b: Seq<IV>, m: Seq<IV>) -> bool { sorted(m.map_values(|i: IV| v4key(i))) && m.to_multiset() == (a + rest(a, b)).to_multiset() }
pub proof fn lemma_some_first(a: IV, s: Seq<IV>, k: int) requires 0 <= k < s.len(), same_int(a, s[k]) ensures exists|i: int| first_same(a, s, i) decreases k { if forall|j: int| 0 <= j < k ==> !same_int(a, #[trigger] s[j]) { assert(first_same(a, s, k)); } else { let j = choose|j: int| 0 <= j < k && same_int(a, #[trigger] s[j]); lemma_some_first(a, s, j); } }
/// everything of this pact; of the other pact, every interaction as often as there unless this pact has the same one, and, if no two of its interactions are the same as one of this pact, only those
pub proof fn theorem_merged4(a: Seq<IV>, b: Seq<IV>, m: Seq<IV>) requires merged4(a, b, m)
  ensures forall|i: IV| #[trigger] m.to_multiset().count(i) >= a.to_multiset().count(i), forall|e: IV| (forall|i: int| 0 <= i < a.len() ==> !same_int(#[trigger] a[i], e)) ==> #[trigger] m.to_multiset().count(e) == a.to_multiset().count(e) + b.to_multiset().count(e),
    (forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() ==> !(same_int(#[trigger] a[i], #[trigger] b[j]) && same_int(a[i], #[trigger] b[k]))) ==> forall|j: int, i: int| 0 <= j < rest(a, b).len() && 0 <= i < a.len() ==> !same_int(#[trigger] a[i], #[trigger] rest(a, b)[j]) {
  vstd::seq_lib::lemma_multiset_commutative(a, rest(a, b)); lemma_rest(a, b); }
/// t: items of s, in the order they have there
pub open spec fn part(t: Seq<IV>, s: Seq<IV>, p: Seq<int>) -> bool { p.len() == t.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len() && t[i] == s[p[i]]) && forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] < p[j] }
pub proof fn lemma_rest(a: Seq<IV>, b: Seq<IV>) ensures exists|p: Seq<int>| part(rest(a, b), b, p), forall|e: IV| (forall|i: int| 0 <= i < a.len() ==> !same_int(#[trigger] a[i], e)) ==> #[trigger] rest(a, b).to_multiset().count(e) == b.to_multiset().count(e),
    (forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() ==> !(same_int(#[trigger] a[i], #[trigger] b[j]) && same_int(a[i], #[trigger] b[k]))) ==> forall|j: int, i: int| 0 <= j < rest(a, b).len() && 0 <= i < a.len() ==> !same_int(#[trigger] a[i], #[trigger] rest(a, b)[j])
  decreases a.len() {
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  if a.len() == 0 { assert(part(b, b, Seq::new(b.len(), |i: int| i))); } else { let a0 = a.drop_last(); let x = a.last(); let r0 = rest(a0, b); let r = rest(a, b); lemma_rest(a0, b); let p = choose|p: Seq<int>| part(r0, b, p);
    if exists|i: int| first_same(x, r0, i) { let c = choose|i: int| first_same(x, r0, i); assert(r == r0.remove(c)); assert(part(r, b, p.remove(c)));
      assert forall|e: IV| (forall|i: int| 0 <= i < a.len() ==> !same_int(#[trigger] a[i], e)) implies #[trigger] r.to_multiset().count(e) == b.to_multiset().count(e) by { assert(forall|i: int| 0 <= i < a0.len() ==> a0[i] == a[i]); assert(a[a.len() - 1] == x); assert(e != r0[c]); assert(r0.to_multiset().count(e) == b.to_multiset().count(e)); }
      if forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() ==> !(same_int(#[trigger] a[i], #[trigger] b[j]) && same_int(a[i], #[trigger] b[k])) { assert(forall|i: int| 0 <= i < a0.len() ==> a0[i] == a[i]); assert forall|j: int, i: int| 0 <= j < r.len() && 0 <= i < a.len() implies !same_int(#[trigger] a[i], #[trigger] r[j]) by { let q = if j < c { j } else { j + 1 }; assert(r[j] == r0[q]); if i < a0.len() { assert(a0[i] == a[i]); assert(!same_int(a0[i], r0[q])); } else { assert(a[i] == x); assert(r0[q] == b[p[q]] && r0[c] == b[p[c]]); if same_int(x, r0[q]) { if q < c { assert(p[q] < p[c]); } else { assert(p[c] < p[q]); } assert(a[a.len() - 1] == x); } } } }
    } else { assert(r == r0);
      assert forall|e: IV| (forall|i: int| 0 <= i < a.len() ==> !same_int(#[trigger] a[i], e)) implies #[trigger] r.to_multiset().count(e) == b.to_multiset().count(e) by { assert(forall|i: int| 0 <= i < a0.len() ==> a0[i] == a[i]); }
      if forall|i: int, j: int, k: int| 0 <= i < a.len() && 0 <= j < k < b.len() ==> !(same_int(#[trigger] a[i], #[trigger] b[j]) && same_int(a[i], #[trigger] b[k])) { assert(forall|i: int| 0 <= i < a0.len() ==> a0[i] == a[i]); assert forall|j: int, i: int| 0 <= j < r.len() && 0 <= i < a.len() implies !same_int(#[trigger] a[i], #[trigger] r[j]) by { if i < a0.len() { assert(a0[i] == a[i]); assert(!same_int(a0[i], r0[j])); } else { if same_int(x, r0[j]) { lemma_some_first(x, r0, j); } } } } } } }
pub open spec fn plug_add(s: Seq<PLQ>, p: PLQ) -> Seq<PLQ> { if exists|i: int| plug_at(s, p, i) { let i = choose|i: int| plug_at(s, p, i); s.update(i, PLQ { configuration: conf_merge(s[i].configuration, p.configuration), ..s[i] }) } else { s.push(p) } }
pub proof fn lemma_plug_add(s: Seq<PLQ>, p: PLQ, t: Seq<PLQ>) requires plug_added(s, p, t) ensures t == plug_add(s, p) { if exists|i: int| plug_at(s, p, i) { let a = choose|i: int| #[trigger] plug_at(s, p, i) && t == s.update(i, PLQ { configuration: conf_merge(s[i].configuration, p.configuration), ..s[i] }); let b = choose|i: int| plug_at(s, p, i); assert(a == b) by { if a < b { assert(!same_plugin(s[a], p)); } else if b < a { assert(!same_plugin(s[b], p)); } } } }
/// the plugins of the first list with those of the second added one by one
pub open spec fn plugs_merged(s: Seq<PLQ>, t: Seq<PLQ>) -> Seq<PLQ> decreases t.len() { if t.len() == 0 { s } else { plug_add(plugs_merged(s, t.drop_last()), t.last()) } }
// ---- pacts, by the contracts of their own functions ----
pub open spec fn consumer_of(p: AP) -> Seq<char> { match p { AP::V4(p) => p.consumer, AP::Rr(p) => p.consumer, AP::Msg(p) => p.consumer } }
pub open spec fn provider_of(p: AP) -> Seq<char> { match p { AP::V4(p) => p.provider, AP::Rr(p) => p.provider, AP::Msg(p) => p.provider } }
pub open spec fn v4s(s: Seq<IV>) -> Seq<DV> { s.map_values(|i: IV| DV::V4(i)) }
pub open spec fn rrs(s: Seq<RV>) -> Seq<DV> { s.map_values(|i: RV| DV::Rr(i)) }
pub open spec fn msgs(s: Seq<MV>) -> Seq<DV> { s.map_values(|i: MV| DV::Msg(i)) }
pub open spec fn ints_of(p: AP) -> Seq<DV> { match p { AP::V4(p) => v4s(p.ints), AP::Rr(p) => rrs(p.ints), AP::Msg(p) => msgs(p.ints) } }
impl AnyPact {
  #[verifier::external_body] pub fn consumer(&self) -> (r: Consumer) ensures r.name@ == consumer_of(ap(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn provider(&self) -> (r: Provider) ensures r.name@ == provider_of(ap(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn interactions(&self) -> (r: Vec<DynI>) ensures dvs(r@) == ints_of(ap(*self)) { unimplemented!() }
  pub fn is_v4(&self) -> (r: bool) ensures r == (ap(*self) is V4) { matches!(self, AnyPact::V4(_)) }
  #[verifier::external_body] pub fn as_v4_pact(&self) -> (r: Result<V4Pact, VxError>) ensures ap(*self) matches AP::V4(p) ==> r is Ok && v4p(r->Ok_0) == p { unimplemented!() }
}
/// every interaction has a V4 form (C20)
pub axiom fn axiom_as_v4(d: DV) ensures as_v4(d) is Some, d matches DV::V4(i) ==> as_v4(d) == Some(i);
pub open spec fn as_v4s(s: Seq<DV>) -> Seq<IV> { s.map_values(|d: DV| as_v4(d)->0) }
#[verifier::external_body] pub fn vx_or_default(x: Result<V4Pact, VxError>) -> (r: V4Pact) ensures x is Ok ==> r == x->Ok_0 { unimplemented!() }
/// conflicts_with: unit conflicts
pub uninterp spec fn clashes(a: RV, b: DV) -> bool;
#[verifier::external_body] pub struct PactConflict { _p: () }
impl RequestResponseInteraction { #[verifier::external_body] pub fn conflicts_with(&self, o: &DynI) -> (r: Vec<PactConflict>) ensures (r@.len() > 0) == clashes(rv(*self), dv(*o)) { unimplemented!() } }
pub open spec fn conflict(a: Seq<RV>, b: Seq<DV>) -> bool { exists|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && clashes(#[trigger] a[i], #[trigger] b[j]) }
pub fn vx_err_text<T>(i: &Result<T, String>) -> (r: String) requires *i is Err { match i { Err(e) => e.clone(), Ok(_) => vx_panic() } }
impl<K, V> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub open spec fn same_parties(c: Seq<char>, p: Seq<char>, b: AP) -> bool { c == consumer_of(b) && p == provider_of(b) }
/// whether a pact of request/response interactions, a message pact, takes in another pact, and what then comes out
pub open spec fn rr_takes(a: RRP, b: AP) -> bool { same_parties(a.consumer, a.provider, b) && !conflict(a.ints, ints_of(b)) && forall|i: int| 0 <= i < ints_of(b).len() ==> as_rr(#[trigger] ints_of(b)[i]) is Some }
pub open spec fn msg_takes(a: MSP, b: AP) -> bool { same_parties(a.consumer, a.provider, b) && forall|i: int| 0 <= i < ints_of(b).len() ==> as_msg(#[trigger] ints_of(b)[i]) is Some }
pub open spec fn rr_with(a: RRP, b: AP, r: RRP) -> bool { exists|m: Seq<DV>| #[trigger] is_merge(rrs(a.ints), ints_of(b), m) && r == (RRP { ints: m.map_values(|d: DV| as_rr(d)->0), ..a }) }
pub open spec fn msg_with(a: MSP, b: AP, r: MSP) -> bool { exists|m: Seq<DV>| #[trigger] is_merge(msgs(a.ints), ints_of(b), m) && r == (MSP { ints: m.map_values(|d: DV| as_msg(d)->0), ..a }) }
pub proof fn lemma_without(x: IV, l: Seq<V4I>, t: Seq<V4I>, k: Option<usize>) requires k is None ==> t == l && forall|i: int| 0 <= i < l.len() ==> !same_int(x, iv(#[trigger] l[i])), k matches Some(k) ==> k < l.len() && same_int(x, iv(l[k as int])) && t == l.remove(k as int) && forall|j: int| 0 <= j < k ==> !same_int(x, iv(#[trigger] l[j])) ensures ivs(t) == without(ivs(l), x) {
  let s = ivs(l); match k { Some(k) => { assert(first_same(x, s, k as int)) by { assert forall|j: int| 0 <= j < k implies !same_int(x, #[trigger] s[j]) by { assert(s[j] == iv(l[j])); } } let i = choose|i: int| first_same(x, s, i); assert(i == k) by { if i < k { assert(!same_int(x, s[i])); } else if k < i { assert(!same_int(x, s[k as int])); } } assert(ivs(t) =~= s.remove(k as int)); } None => { assert forall|i: int| !first_same(x, s, i) by { if first_same(x, s, i) { assert(s[i] == iv(l[i])); } } } } }
pub open spec fn v4_with(a: V4P, b: AP, r: V4P) -> bool { merged4(a.ints, as_v4s(ints_of(b)), r.ints) && r.consumer == a.consumer && r.provider == a.provider && r.meta == a.meta && match b { AP::V4(q) => r.plugins == plugs_merged(a.plugins, q.plugins), _ => r.plugins == a.plugins } }
impl<T: VxSame> VxSame for Vec<T> { type Q = Seq<T::Q>; open spec fn sq(&self) -> Seq<T::Q> { self@.map_values(|x: T| x.sq()) } }
impl<A: VxSame, B: VxSame> VxSame for (A, B) { type Q = (A::Q, B::Q); open spec fn sq(&self) -> (A::Q, B::Q) { (self.0.sq(), self.1.sq()) } }
impl V4Pact {
  /// unit pacts
  #[verifier::external_body] pub fn add_plugin_data(&mut self, d: &PluginData) ensures v4p(*final(self)) == (V4P { plugins: v4p(*final(self)).plugins, ..v4p(*old(self)) }), plug_added(v4p(*old(self)).plugins, plq(*d), v4p(*final(self)).plugins) { unimplemented!() } }
pub trait VxSorted4: Sized { spec fn items4(self) -> Seq<V4I>; fn vx_sorted<K: VxKeyed<K = (MK, Seq<char>)>, F: Fn(&V4I) -> K>(self, f: F) -> (r: Vec<V4I>) requires forall|x: &V4I| f.requires((x,)), forall|x: &V4I, a: K| #[trigger] f.ensures((x,), a) ==> a.kq() == v4key(iv(*x))
    ensures ivs(r@).to_multiset() == ivs(self.items4()).to_multiset(), sorted(ivs(r@).map_values(|i: IV| v4key(i))); }
impl VxSorted4 for Vec<V4I> { open spec fn items4(self) -> Seq<V4I> { self@ }
  fn vx_sorted<K: VxKeyed<K = (MK, Seq<char>)>, F: Fn(&V4I) -> K>(self, f: F) -> (r: Vec<V4I>) { let r = vx_sorted_by_key(self, f); proof { lemma_map_bag(r@, self@, |i: V4I| iv(i)); let k = ivs(r@).map_values(|i: IV| v4key(i)); assert forall|i: int, j: int| 0 <= i < j < k.len() implies le(#[trigger] k[i], #[trigger] k[j]) by { let a = choose|a: K| #[trigger] f.ensures((&r@[i],), a); let b = choose|b: K| #[trigger] f.ensures((&r@[j],), b); assert(k[i] == a.kq()); assert(k[j] == b.kq()); } } r } }
pub open spec fn some_err<T>(s: Seq<Result<T, String>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err }
pub open spec fn conv_rr(r: Result<RequestResponseInteraction, String>, d: DV) -> bool { match r { Ok(x) => as_rr(d) == Some(rv(x)), Err(_) => as_rr(d) is None } }
pub open spec fn conv_msg(r: Result<Message, String>, d: DV) -> bool { match r { Ok(x) => as_msg(d) == Some(mv(x)), Err(_) => as_msg(d) is None } }
pub proof fn lemma_some_err<T>(s: Seq<Result<T, String>>, n: int) requires 0 <= n < s.len() ensures some_err(s.take(n + 1)) == (some_err(s.take(n)) || s[n] is Err) { let t = s.take(n + 1); if some_err(s.take(n)) { let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]) is Err; assert(t[i] is Err); } if s[n] is Err { assert(t[n] is Err); } if some_err(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Err; if i < n { assert(s.take(n)[i] is Err); } } }
// ---- iterating ----
pub open spec fn dvl<T: VxInt>(v: Seq<T>) -> Seq<DV> { v.map_values(|x: T| x.dvv()) }
pub fn vx_refs<'a, T: VxInt>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures dvr(r@) == dvl(v@) { let mut r: Vec<&'a T> = Vec::new(); for i in 0..v.len() invariant r@.len() == i, forall|j: int| 0 <= j < r@.len() ==> *(#[trigger] r@[j]) == v@[j] { r.push(&v[i]); } proof { assert(dvr(r@) =~= dvl(v@)); } r }
pub proof fn lemma_rr_takes(a: RRP, b: AP, m: Seq<DV>) requires is_merge(rrs(a.ints), ints_of(b), m) ensures (forall|i: int| 0 <= i < m.len() ==> as_rr(#[trigger] m[i]) is Some) == (forall|i: int| 0 <= i < ints_of(b).len() ==> as_rr(#[trigger] ints_of(b)[i]) is Some) {
  axiom_own_kind(); let (x, y) = (rrs(a.ints), ints_of(b)); theorem_merged(x, y, m);
  if forall|i: int| 0 <= i < m.len() ==> as_rr(#[trigger] m[i]) is Some { assert forall|i: int| 0 <= i < y.len() implies as_rr(#[trigger] y[i]) is Some by { assert(y.contains(y[i])); assert(m.contains(y[i])); let k = choose|k: int| 0 <= k < m.len() && m[k] == y[i]; assert(as_rr(m[k]) is Some); } }
  if forall|i: int| 0 <= i < y.len() ==> as_rr(#[trigger] y[i]) is Some { assert forall|i: int| 0 <= i < m.len() implies as_rr(#[trigger] m[i]) is Some by { assert(m.contains(m[i])); if x.contains(m[i]) { let k = choose|k: int| 0 <= k < x.len() && x[k] == m[i]; assert(x[k] == DV::Rr(a.ints[k])); } else { assert(y.contains(m[i])); let k = choose|k: int| 0 <= k < y.len() && y[k] == m[i]; assert(as_rr(y[k]) is Some); } } } }
pub proof fn lemma_msg_takes(a: MSP, b: AP, m: Seq<DV>) requires is_merge(msgs(a.ints), ints_of(b), m) ensures (forall|i: int| 0 <= i < m.len() ==> as_msg(#[trigger] m[i]) is Some) == (forall|i: int| 0 <= i < ints_of(b).len() ==> as_msg(#[trigger] ints_of(b)[i]) is Some) {
  axiom_own_kind(); let (x, y) = (msgs(a.ints), ints_of(b)); theorem_merged(x, y, m);
  if forall|i: int| 0 <= i < m.len() ==> as_msg(#[trigger] m[i]) is Some { assert forall|i: int| 0 <= i < y.len() implies as_msg(#[trigger] y[i]) is Some by { assert(y.contains(y[i])); assert(m.contains(y[i])); let k = choose|k: int| 0 <= k < m.len() && m[k] == y[i]; assert(as_msg(m[k]) is Some); } }
  if forall|i: int| 0 <= i < y.len() ==> as_msg(#[trigger] y[i]) is Some { assert forall|i: int| 0 <= i < m.len() implies as_msg(#[trigger] m[i]) is Some by { assert(m.contains(m[i])); if x.contains(m[i]) { let k = choose|k: int| 0 <= k < x.len() && x[k] == m[i]; assert(x[k] == DV::Msg(a.ints[k])); } else { assert(y.contains(m[i])); let k = choose|k: int| 0 <= k < y.len() && y[k] == m[i]; assert(as_msg(y[k]) is Some); } } } }
pub fn vx_cat(a: &Vec<V4I>, b: Vec<V4I>) -> (r: Vec<V4I>) ensures ivs(r@) == ivs(a@) + ivs(b@) { let mut r: Vec<V4I> = Vec::new(); for i in 0..a.len() invariant r@.len() == i, forall|j: int| 0 <= j < r@.len() ==> iv(#[trigger] r@[j]) == iv(a@[j]) { let x = a[i].clone(); r.push(x); } let mut b = b; let ghost o = b@; r.append(&mut b); proof { assert(ivs(r@) =~= ivs(a@) + ivs(o)); } r }
#[verifier::external_body] pub fn vx_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>) requires forall|x: &T| f.requires((x,))
  ensures r is None ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false), r matches Some(k) ==> k < v@.len() && f.ensures((&v@[k as int],), true) && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] v@[j],), false) { unimplemented!() }
}
