%unit merge
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/lib.rs
%enum PactSpecification
%include pacts_spec.rs
%struct Consumer
%struct Provider
%src rust/pact_models/src/provider_states.rs
%struct ProviderState
%src rust/pact_models/src/plugins.rs
%struct PluginData
%src rust/pact_models/src/v4/mod.rs
%enum V4InteractionType
%src rust/pact_models/src/v4/pact.rs
%struct V4Pact
%sub `Vec<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Vec<V4I>`
%src rust/pact_models/src/sync_pact.rs
%struct RequestResponsePact
%src rust/pact_models/src/message_pact.rs
%struct MessagePact
%include pacts_spec2.rs
%prelude
use std::cmp::Ordering;
use EitherOrBoth::{Both, Left, Right};
%include merge_spec.rs
%src rust/pact_models/src/iterator_utils.rs
%struct CartesianProductIterator
%prelude
verus! {
/// how many pairs an iterator has given; wf: not past its end
pub open spec fn cp_wf<I1, I2>(c: CartesianProductIterator<I1, I2>) -> bool { c.v1@.len() > 0 && c.v2@.len() > 0 ==> c.v1_idx < c.v1@.len() && c.v2_idx <= c.v2@.len() }
pub open spec fn cp_pos<I1, I2>(c: CartesianProductIterator<I1, I2>) -> int { if c.v1@.len() == 0 || c.v2@.len() == 0 { 0 } else { c.v1_idx * c.v2@.len() + c.v2_idx } }
proof fn lemma_cp(i: int, j: int, m: int, n: int) requires m >= 0, n >= 0, m > 0 && n > 0 ==> 0 <= i < m && 0 <= j <= n ensures m == 0 || n == 0 ==> m * n == 0, m > 0 && n > 0 ==> (i * n + j == m * n) == (i == m - 1 && j == n), (i + 1) * n + 1 == i * n + n + 1 {
  assert((i + 1) * n == i * n + n) by (nonlinear_arith); if m > 0 && n > 0 { if i < m - 1 { assert((i + 1) * n < m * n) by (nonlinear_arith) requires i + 1 < m, n > 0; } else { assert((i + 1) * n == m * n); } } else { assert(m * n == 0) by (nonlinear_arith) requires m == 0 || n == 0; } }
pub open spec fn pair_at<I1, I2>(x: (&I1, &I2), a: Seq<I1>, b: Seq<I2>, i: int, j: int) -> bool { 0 <= i < a.len() && 0 <= j < b.len() && *x.0 == a[i] && *x.1 == b[j] }
pub open spec fn has_pair<I1, I2>(r: Seq<(&I1, &I2)>, a: Seq<I1>, b: Seq<I2>, i: int, j: int) -> bool { exists|k: int| 0 <= k < r.len() && #[trigger] pair_at(r[k], a, b, i, j) }
pub open spec fn is_pair<I1, I2>(x: (&I1, &I2), a: Seq<I1>, b: Seq<I2>) -> bool { exists|i: int, j: int| pair_at(x, a, b, i, j) }
/// all the pairs an iterator gives, up to the first None
pub fn vx_drain<'a, I1, I2>(c: CartesianProductIterator<'a, I1, I2>) -> (r: Vec<(&'a I1, &'a I2)>) requires cp_wf(c), cp_pos(c) == 0
  ensures forall|i: int, j: int| 0 <= i < c.v1@.len() && 0 <= j < c.v2@.len() ==> #[trigger] has_pair(r@, c.v1@, c.v2@, i, j), forall|k: int| 0 <= k < r@.len() ==> #[trigger] is_pair(r@[k], c.v1@, c.v2@) {
  let ghost a = c.v1@; let ghost b = c.v2@; let ghost n = b.len() as int; let mut t = c; let mut r: Vec<(&'a I1, &'a I2)> = Vec::new();
  loop
    invariant_except_break cp_wf(t), cp_pos(t) == r@.len()
    invariant t.v1@ == a, t.v2@ == b, n == b.len(), r@.len() <= a.len() * n, a.len() == 0 || n == 0 ==> r@.len() == 0, a.len() > 0 && n > 0 ==> forall|k: int| 0 <= k < r@.len() ==> pair_at(#[trigger] r@[k], a, b, k / n, k % n)
    ensures r@.len() == a.len() * n
    decreases a.len() * n - r@.len() {
    proof { lemma_cp(t.v1_idx as int, t.v2_idx as int, a.len() as int, n); }
    match t.next() { Some(x) => { proof { let k = r@.len() as int; lemma_cp(t.v1_idx as int, t.v2_idx as int, a.len() as int, n); let (i, j) = (t.v1_idx as int, t.v2_idx - 1); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, i, j); assert(a.len() > 0 && n > 0); assert(k / n == i && k % n == j); assert(*x.0 == a[i]); assert(*x.1 == b[j]); } r.push(x); } None => { break; } }
  }
  proof { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies #[trigger] has_pair(r@, a, b, i, j) by { let k = i * n + j; lemma_cp(i, j, a.len() as int, n); lemma_cp(i, n, a.len() as int, n); assert((i + 1) * n <= a.len() * n) by (nonlinear_arith) requires i + 1 <= a.len(), n >= 0; assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n >= 0; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, n, i, j); assert(0 <= k < r@.len()); assert(pair_at(r@[k], a, b, i, j)); }
    if n == 0 { assert(a.len() * n == 0) by (nonlinear_arith) requires n == 0; } if a.len() == 0 { assert(a.len() * n == 0) by (nonlinear_arith) requires a.len() == 0; }
    assert forall|k: int| 0 <= k < r@.len() implies #[trigger] is_pair(r@[k], a, b) by { let (i, j) = (k / n, k % n); assert(pair_at(r@[k], a, b, i, j)); } }
  proof { assert(a == c.v1@ && b == c.v2@); } r }
}
%fn CartesianProductIterator::new
%sig
  ensures r.v1 == v1, r.v2 == v2, cp_wf(r), cp_pos(r) == 0
%fn Iterator for CartesianProductIterator::next
%sub `Option<Self::Item>` => `Option<(&'a I1, &'a I2)>`
%sig
  requires cp_wf(*old(self))
  ensures final(self).v1 == old(self).v1, final(self).v2 == old(self).v2, r is None == (cp_pos(*old(self)) == old(self).v1@.len() * old(self).v2@.len()),
    r matches Some(x) ==> cp_wf(*final(self)) && cp_pos(*final(self)) == cp_pos(*old(self)) + 1 && final(self).v2_idx > 0 && *x.0 == old(self).v1@[final(self).v1_idx as int] && *x.1 == old(self).v2@[final(self).v2_idx - 1]
%body_start
  proof { lemma_cp(self.v1_idx as int, self.v2_idx as int, self.v1@.len() as int, self.v2@.len() as int); }
%src rust/pact_models/src/interaction.rs
%fn merge_key
%attr #[verifier::loop_isolation(false)]
%chain
%fngen <I: VxInt>
%sub `&dyn Interaction` => `&I`
%sub `interaction.provider_states().iter()` => `interaction.provider_states()`
%base 0
%sig
  ensures r.kq() == mkey(interaction.dvv()), r.sq() == mkey(interaction.dvv())
%bty 0 Vec<String>
%loop 0 it
  invariant it.seq() == vx_s0@, vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b0@[i])@ == vx_s0@[i].name@
%after_loop 0
  proof { assert(vx_b0.kq() =~= names(vx_s0@)); assert(vx_b0.sq() =~= names(vx_s0@)); assert(vx_b0.kq() == dstates(interaction.dvv())); }
%src rust/pact_models/src/sync_pact.rs
%fn ReadWritePact for RequestResponsePact::merge
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `&dyn Pact` => `&AnyPact`
%sub `Box<dyn Pact + Send + Sync + RefUnwindSafe>` => `AnyPact`
%sub `Box::new(` => `vx_box(`
%sub `CartesianProductIterator::new(&self.interactions, &pact.interactions())` => `vx_drain(CartesianProductIterator::new(self.interactions.as_slice(), vx_ints.as_slice()))`
%sub `self.interactions.iter().sorted_by_key(` => `vx_refs(&self.interactions).sorted_by_key(`
%sub `pact.interactions().iter()` => `vx_refs(&vx_ints)`
%sub `Ord::cmp(` => `vx_cmp(`
%sub `i.as_ref().unwrap_err().to_string()` => `vx_err_text(i)`
%base 0
%base 3
%closure 2 |i: &&RequestResponseInteraction| -> (o: (String, Vec<String>)) ensures o.kq() == mkey(i.dvv())
%closure 3 |i: &&DynI| -> (o: (String, Vec<String>)) ensures o.kq() == mkey(i.dvv())
%closure 4 |a: &&RequestResponseInteraction, b: &&DynI| -> (o: Ordering) ensures o == ord(mkey(a.dvv()), mkey(b.dvv()))
%sig
  ensures r is Ok == rr_takes(rrp(*self), ap(*pact)), r is Ok ==> (ap(r->Ok_0) matches AP::Rr(p) && rr_with(rrp(*self), ap(*pact), p))
%bty 3 Vec<Result<RequestResponseInteraction, String>>
%bty 4 Vec<String>
%bty 5 Vec<RequestResponseInteraction>
%body_start
  let vx_ints = pact.interactions();
  let ghost vx_a = rvs(self.interactions@); let ghost vx_o = ints_of(ap(*pact)); let ghost mut vx_m: Seq<DV> = seq![];
  proof { assert(dvl(self.interactions@) =~= rrs(vx_a)); assert(dvl(vx_ints@) =~= vx_o); }
%loop 0 it0
  invariant it0.seq() == vx_s0@, (vx_b0@.len() > 0) == (exists|k: int| 0 <= k < it0.index@ && clashes(rv(*(#[trigger] vx_s0@[k]).0), dv(*vx_s0@[k].1)))
%after_loop 0
  proof {
    if vx_b0@.len() > 0 { let k = choose|k: int| 0 <= k < vx_s0@.len() && clashes(rv(*(#[trigger] vx_s0@[k]).0), dv(*vx_s0@[k].1)); assert(is_pair(vx_s0@[k], self.interactions@, vx_ints@)); let (i, j) = choose|i: int, j: int| pair_at(vx_s0@[k], self.interactions@, vx_ints@, i, j); assert(clashes(vx_a[i], vx_o[j])); }
    if conflict(vx_a, vx_o) { let (i, j) = choose|i: int, j: int| 0 <= i < vx_a.len() && 0 <= j < vx_o.len() && clashes(#[trigger] vx_a[i], #[trigger] vx_o[j]); assert(has_pair(vx_s0@, self.interactions@, vx_ints@, i, j)); let k = choose|k: int| 0 <= k < vx_s0@.len() && #[trigger] pair_at(vx_s0@[k], self.interactions@, vx_ints@, i, j); assert(clashes(rv(*vx_s0@[k].0), dv(*vx_s0@[k].1))); }
    assert((vx_b0@.len() > 0) == conflict(vx_a, vx_o)); }
%loop 3 it3
  invariant it3.seq() == vx_s3@, vx_b3@.len() == it3.index@, forall|k: int| 0 <= k < it3.index@ ==> conv_rr(#[trigger] vx_b3@[k], joined(vx_s3@)[k])
%loop_start 3
  proof { axiom_own_kind(); assert(joined(vx_s3@)[it3.index@ as int] == either(vx_s3@[it3.index@ as int], |x: &RequestResponseInteraction| x.dvv(), |x: &DynI| x.dvv())); }
%after_loop 3
  proof { vx_m = joined(vx_s3@); assert(is_merge(rrs(vx_a), vx_o, vx_m)); lemma_rr_takes(rrp(*self), ap(*pact), vx_m); }
%loop 4 it4
  invariant its_of(it4.seq(), interactions@), (vx_b4@.len() > 0) == some_err(interactions@.take(it4.index@ as int))
%loop_end 4
  proof { lemma_some_err(interactions@, it4.index@ as int); }
%after_loop 4
  proof { assert(interactions@.take(interactions@.len() as int) =~= interactions@); if some_err(interactions@) { let i = choose|i: int| 0 <= i < interactions@.len() && (#[trigger] interactions@[i]) is Err; assert(conv_rr(interactions@[i], vx_m[i])); } else { assert forall|i: int| 0 <= i < vx_m.len() implies as_rr(#[trigger] vx_m[i]) is Some by { assert(conv_rr(interactions@[i], vx_m[i])); } } }
%loop 5 it5
  invariant its_of(it5.seq(), interactions@), vx_b5@.len() == it5.index@, forall|k: int| 0 <= k < it5.index@ ==> rv(#[trigger] vx_b5@[k]) == rv(interactions@[k]->Ok_0)
%loop_start 5
  proof { assert(!some_err(interactions@)); assert(interactions@[it5.index@ as int] is Ok); }
%after_loop 5
  proof { assert forall|k: int| 0 <= k < vx_m.len() implies rvs(vx_b5@)[k] == as_rr(#[trigger] vx_m[k])->0 by { assert(conv_rr(interactions@[k], vx_m[k])); } assert(rvs(vx_b5@) =~= vx_m.map_values(|d: DV| as_rr(d)->0)); }
%src rust/pact_models/src/message_pact.rs
%fn ReadWritePact for MessagePact::merge
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `&dyn Pact` => `&AnyPact`
%sub `Box<dyn Pact + Send + Sync + RefUnwindSafe>` => `AnyPact`
%sub `Box::new(` => `vx_box(`
%sub `self.messages.iter().sorted_by_key(` => `vx_refs(&self.messages).sorted_by_key(`
%sub `pact.interactions().iter()` => `vx_refs(&vx_ints)`
%sub `Ord::cmp(` => `vx_cmp(`
%sub `i.as_ref().unwrap_err().to_string()` => `vx_err_text(i)`
%base 0
%closure 0 |i: &&Message| -> (o: (String, Vec<String>)) ensures o.kq() == mkey(i.dvv())
%closure 1 |i: &&DynI| -> (o: (String, Vec<String>)) ensures o.kq() == mkey(i.dvv())
%closure 2 |a: &&Message, b: &&DynI| -> (o: Ordering) ensures o == ord(mkey(a.dvv()), mkey(b.dvv()))
%sig
  ensures r is Ok == msg_takes(msp(*self), ap(*pact)), r is Ok ==> (ap(r->Ok_0) matches AP::Msg(p) && msg_with(msp(*self), ap(*pact), p))
%bty 0 Vec<Result<Message, String>>
%bty 1 Vec<String>
%bty 2 Vec<Message>
%body_start
  let vx_ints = pact.interactions();
  let ghost vx_a = mvs(self.messages@); let ghost vx_o = ints_of(ap(*pact)); let ghost mut vx_m: Seq<DV> = seq![];
  proof { assert(dvl(self.messages@) =~= msgs(vx_a)); assert(dvl(vx_ints@) =~= vx_o); }
%loop 0 it0
  invariant it0.seq() == vx_s0@, vx_b0@.len() == it0.index@, forall|k: int| 0 <= k < it0.index@ ==> conv_msg(#[trigger] vx_b0@[k], joined(vx_s0@)[k])
%loop_start 0
  proof { axiom_own_kind(); assert(joined(vx_s0@)[it0.index@ as int] == either(vx_s0@[it0.index@ as int], |x: &Message| x.dvv(), |x: &DynI| x.dvv())); }
%after_loop 0
  proof { vx_m = joined(vx_s0@); assert(is_merge(msgs(vx_a), vx_o, vx_m)); lemma_msg_takes(msp(*self), ap(*pact), vx_m); }
%loop 1 it1
  invariant its_of(it1.seq(), messages@), (vx_b1@.len() > 0) == some_err(messages@.take(it1.index@ as int))
%loop_end 1
  proof { lemma_some_err(messages@, it1.index@ as int); }
%after_loop 1
  proof { assert(messages@.take(messages@.len() as int) =~= messages@); if some_err(messages@) { let i = choose|i: int| 0 <= i < messages@.len() && (#[trigger] messages@[i]) is Err; assert(conv_msg(messages@[i], vx_m[i])); } else { assert forall|i: int| 0 <= i < vx_m.len() implies as_msg(#[trigger] vx_m[i]) is Some by { assert(conv_msg(messages@[i], vx_m[i])); } } }
%loop 2 it2
  invariant its_of(it2.seq(), messages@), vx_b2@.len() == it2.index@, forall|k: int| 0 <= k < it2.index@ ==> mv(#[trigger] vx_b2@[k]) == mv(messages@[k]->Ok_0)
%loop_start 2
  proof { assert(!some_err(messages@)); assert(messages@[it2.index@ as int] is Ok); }
%after_loop 2
  proof { assert forall|k: int| 0 <= k < vx_m.len() implies mvs(vx_b2@)[k] == as_msg(#[trigger] vx_m[k])->0 by { assert(conv_msg(messages@[k], vx_m[k])); } assert(mvs(vx_b2@) =~= vx_m.map_values(|d: DV| as_msg(d)->0)); let vx_p = MSP { ints: mvs(vx_b2@), ..msp(*self) }; assert(is_merge(msgs(msp(*self).ints), ints_of(ap(*pact)), vx_m)); assert(vx_p.ints == vx_m.map_values(|d: DV| as_msg(d)->0)); assert(msg_with(msp(*self), ap(*pact), vx_p)); }
%src rust/pact_models/src/v4/pact.rs
%fn ReadWritePact for V4Pact::merge
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `&dyn Pact` => `&AnyPact`
%sub `Box<dyn Pact + Send + Sync + RefUnwindSafe>` => `AnyPact`
%sub `Box::new(` => `vx_box(`
%sub `other.interactions().iter()` => `other.interactions()`
%sub `other_interactions.iter().position(` => `vx_position(&other_interactions, `
%sub `self.interactions.iter().cloned().chain(other_interactions).sorted_by_key(` => `vx_cat(&self.interactions, other_interactions).vx_sorted(`
%sub `self.plugin_data.clone()` => `vx_clone_plugins(&self.plugin_data)`
%sub `a.type_of()` => `a.vx_type_of()`
%sub `b.type_of()` => `b.vx_type_of()`
%sub `i.type_of()` => `i.vx_type_of()`
%sub `other.as_v4_pact().unwrap_or_default()` => `vx_or_default(other.as_v4_pact())`
%base 0
%base 2
%base 3
%closure 1 |b: &V4I| -> (o: bool) ensures o == same_int(iv(*a), iv(*b))
%closure 2 |i: &V4I| -> (o: ((String, Vec<String>), String)) ensures o.kq() == v4key(iv(*i))
%bty 0 Vec<V4I>
%bty 2 Vec<V4I>
%sig
  ensures r is Ok == same_parties(self.consumer.name@, self.provider.name@, ap(*other)), r is Ok ==> (ap(r->Ok_0) matches AP::V4(p) && v4_with(v4p(*self), ap(*other), p))
%body_start
  let ghost vx_a = ivs(self.interactions@); let ghost vx_o = as_v4s(ints_of(ap(*other))); let ghost mut vx_m: Seq<IV> = seq![];
%loop 0 it0
  invariant it0.seq() == vx_s0@, vx_b0@.len() == it0.index@, forall|k: int| 0 <= k < it0.index@ ==> iv(#[trigger] vx_b0@[k]) == vx_o[k]
%loop_start 0
  proof { let k = it0.index@ as int; assert(dvs(vx_s0@)[k] == dv(vx_s0@[k])); axiom_as_v4(dv(vx_s0@[k])); }
%after_loop 0
  proof { assert(ivs(vx_b0@) =~= vx_o); assert(vx_a.take(0) =~= seq![]); }
%loop 1 it1
  invariant its_of(it1.seq(), self.interactions@), ivs(other_interactions@) == rest(vx_a.take(it1.index@ as int), vx_o)
%loop_start 1
  let ghost vx_l = other_interactions@;
%loop_end 1
  proof { let n = it1.index@ as int; assert(vx_a.take(n + 1).drop_last() =~= vx_a.take(n)); assert(vx_a.take(n + 1).last() == iv(*a)); lemma_without(iv(*a), vx_l, other_interactions@, index); }
%after_loop 1
  proof { assert(vx_a.take(vx_a.len() as int) =~= vx_a); }
%loop 2 it2
  invariant it2.seq() == vx_s2@, vx_b2@ == vx_s2@.take(it2.index@ as int)
%loop_end 2
  proof { assert(vx_s2@.take(it2.index@ as int + 1) =~= vx_s2@.take(it2.index@ as int).push(vx_s2@[it2.index@ as int])); }
%after_loop 2
  proof { assert(vx_s2@.take(vx_s2@.len() as int) =~= vx_s2@); }
%before `if other.is_v4()`
  let ghost vx_n = v4p(new_pact);
%loop_start 3
  let ghost vx_l = v4p(new_pact).plugins;
%loop_end 3
  proof { let t = plqs(vx_s3@); let n = it3.index@ as int; assert(t.take(n + 1).drop_last() =~= t.take(n)); assert(t.take(n + 1).last() == plq(plugin)); lemma_plug_add(vx_l, plq(plugin), v4p(new_pact).plugins); }
%after_loop 3
  proof { assert(plqs(vx_s3@).take(vx_s3@.len() as int) =~= plqs(vx_s3@)); }
%loop 3 it3
  invariant it3.seq() == vx_s3@, v4p(new_pact) == (V4P { plugins: v4p(new_pact).plugins, ..vx_n }), v4p(new_pact).plugins == plugs_merged(vx_n.plugins, plqs(vx_s3@).take(it3.index@ as int))
