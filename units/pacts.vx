%unit pacts
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/lib.rs
%enum PactSpecification
%include pacts_spec.rs
%struct Consumer
%struct Provider
%src rust/pact_models/src/plugins.rs
%struct PluginData
%src rust/pact_models/src/v4/mod.rs
%enum V4InteractionType
%src rust/pact_models/src/v4/pact.rs
%struct V4Pact
%sub `Vec<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Vec<V4I>`
%src rust/pact_models/src/sync_pact.rs
%struct RequestResponsePact
%src rust/pact_models/src/message_pact.rs
%struct MessagePact
%include pacts_spec2.rs
%src rust/pact_models/src/lib.rs
%fn PactSpecification::version_str
%sub `.into()` => `.to_string()`
%sig
  ensures r@ == version_text(*self)
%fn Consumer::from_json
%sig
  ensures r.name@ == jname(jv(*pact_json), "name"@, "consumer"@)
%body_start
  proof { broadcast use axiom_jv; }
%fn Consumer::to_json
%sig
  ensures jv(r) == named_j(self.name@)
%body_start
  proof { broadcast use axiom_jv; }
%fn Provider::from_json
%sig
  ensures r.name@ == jname(jv(*pact_json), "name"@, "provider"@)
%body_start
  proof { broadcast use axiom_jv; }
%fn Provider::to_json
%sig
  ensures jv(r) == named_j(self.name@)
%body_start
  proof { broadcast use axiom_jv; }
%fn PactSpecification::parse_version
%free
%rename parse_version
%opt
%sub `<S: Into<String>>` => ``
%sub `input: S` => `input: String`
%sub `input.into()` => `input`
%sub `lenient_semver::parse(` => `vx_semver(`
%sig
  ensures r is Ok == parse_spec(input@) is Some, r is Ok ==> Some(r->Ok_0) == parse_spec(input@)
%fn From<&str> for PactSpecification::from
%free
%rename spec_from
%sub `s.to_uppercase().as_str()` => `vx_lit(vx_upper(s).as_str())`
%sub `Self` => `PactSpecification`
%sig
  ensures r == spec_named(upper(s@))
%body_start
  proof { lemma_names(); }
%fn Display for PactSpecification::fmt
%free
%rename spec_fmt
%fmt str
%sub `&self` => `s_: &PactSpecification`
%sub `match *self` => `match *s_`
%sub `&mut Formatter<'_>` => `&mut String`
%sub `fmt::Result` => `Result<(), VxError>`
%sig
  ensures r is Ok, final(f)@ == old(f)@ + spec_name(*s_)
%src rust/pact_models/src/pact.rs
%fn determine_spec_version
%sub `lenient_semver::parse(` => `vx_semver(`
%sig
  ensures r == ver_of(mdt(*metadata))
%fn parse_meta_data
%attr #[verifier::loop_isolation(false)]
%chain
%sub `match k.as_str()` => `match vx_lit(k.as_str())`
%sig
  ensures one_name(jmeta(jv(*pact_json))) ==> mdt(r) == meta_f(jv(*pact_json))
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
  let ghost vx_f = |x: JV| text_of(x);
%bty 0 BTreeMap<String, BTreeMap<String, String>>
%bty 1 BTreeMap<String, String>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*obj)), naming(jm(*obj), vx_f, mdt(vx_b0)), forall|i: int| 0 <= i < it.index@ ==> mdt(vx_b0).dom().contains(ren((#[trigger] it.seq()[i]).0@))
%loop_start 0
  proof { broadcast use axiom_jv; }
  let ghost vx_o = mdt(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*obj).dom().contains(e.0@)); assert(vx_x0_1.0@ == ren(e.0@)); assert(smap(vx_x0_1.1) == text_of(jv(*e.1))); assert(mdt(vx_b0) =~= vx_o.insert(ren(e.0@), text_of(jv(*e.1)))); assert(from_name(jm(*obj), vx_f, ren(e.0@), text_of(jv(*e.1)))); }
%after_loop 0
  proof { if one_name(jm(*obj)) { assert(forall|k: Seq<char>| jm(*obj).dom().contains(k) ==> mdt(vx_b0).dom().contains(ren(k))); lemma_naming(jm(*obj), vx_f, mdt(vx_b0)); } }
%loop 1 it1
  invariant pairs_of(it1.seq(), jm(*obj)), forall|k: Seq<char>| #[trigger] smap(vx_b1).dom().contains(k) ==> jm(*obj).dom().contains(k) && smap(vx_b1)[k] == hitem(jm(*obj)[k]), forall|i: int| 0 <= i < it1.index@ ==> smap(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  proof { broadcast use axiom_jv; }
  let ghost vx_o1 = smap(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; assert(jm(*obj).dom().contains(e.0@)); assert(smap(vx_b1) =~= vx_o1.insert(e.0@, hitem(jv(*e.1)))); }
%after_loop 1
  proof { assert(smap(vx_b1) =~= text_of(jv(*v))); }
%tail_after
  proof { if one_name(jmeta(jv(*pact_json))) { assert(mdt(vx_ret) =~= meta_f(jv(*pact_json))); } }
%src rust/pact_models/src/v4/pact.rs
%fn meta_data_from_json
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures mdv(r) == jmeta(jv(*pact_json))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 BTreeMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*obj)), forall|k: Seq<char>| #[trigger] mdv(vx_b0).dom().contains(k) ==> jm(*obj).dom().contains(k) && mdv(vx_b0)[k] == jm(*obj)[k], forall|i: int| 0 <= i < it.index@ ==> mdv(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = mdv(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*obj).dom().contains(e.0@)); assert(mdv(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(mdv(vx_b0) =~= jm(*obj)); }
%tail_after
  proof { assert(mdv(vx_ret) =~= jmeta(jv(*pact_json))); }
%fn V4Pact::metadata_to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `serde_json::Map<String, Value>` => `JMap`
%sub `Map::default()` => `JMap::default()`
%sub `match k.as_str()` => `match vx_lit(k.as_str())`
%sub `PACT_RUST_VERSION.unwrap_or("unknown")` => `vx_rust_version()`
%sig
  ensures one_name(v4p(*self).meta) ==> jv(r) == JV::Obj(v4_md(v4p(*self)))
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
  let ghost vx_f = |x: JV| x;
%bty 0 JMap
%loop 0 it
  invariant bents(it.seq(), self.metadata@), naming(mdv(self.metadata), vx_f, jm(vx_b0)), forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains(ren((#[trigger] it.seq()[i]).0@))
%loop_start 0
  let ghost vx_o = jm(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(self.metadata@.dom().contains(e.0@)); assert(mdv(self.metadata).dom().contains(e.0@)); assert(vx_x0_1.0@ == ren(e.0@)); assert(jm(vx_b0) =~= vx_o.insert(ren(e.0@), jv(*e.1))); assert(from_name(mdv(self.metadata), vx_f, ren(e.0@), jv(*e.1))); }
%after_loop 0
  proof { let m = mdv(self.metadata); if one_name(m) { assert(forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> self.metadata@.dom().contains(k)); lemma_naming(m, vx_f, jm(vx_b0)); assert(renamed(m).map_values(vx_f) =~= renamed(m)); } }
%before `let version_entry`
  let ghost vx_n = jm(md_map);
  proof { let m = mdv(self.metadata); if one_name(m) { assert(version_j(PactSpecification::V4)->Obj_0 =~= Map::<Seq<char>, JV>::empty().insert("version"@, JV::Str(version_text(PactSpecification::V4)))); assert(vx_n =~= renamed(m).insert("pactSpecification"@, version_j(PactSpecification::V4))); } }
%before `if !self.plugin_data.is_empty()`
  proof { let m = mdv(self.metadata); if one_name(m) { assert(jm(md_map) =~= stamped(m, PactSpecification::V4)); } }
%loop 1 it1
  invariant its_of(it1.seq(), self.plugin_data@), v@.len() == it1.index@, forall|i: int| 0 <= i < v@.len() ==> jv(#[trigger] v@[i]) == plug_j(plqs(self.plugin_data@)[i])
%before `md_map.insert("plugins"`
  proof { assert(jvs(v@) =~= plqs(self.plugin_data@).map_values(|p: PLQ| plug_j(p))); }
%fn V4Pact::has_interactions
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sig
  ensures r == has_kind(ivs(self.interactions@), interaction_type)
%loop 0 it
  invariant_except_break !vx_b0, forall|i: int| 0 <= i < it.index@ ==> kind(#[trigger] ivs(self.interactions@)[i]) != interaction_type
  invariant its_of(it.seq(), self.interactions@)
  ensures vx_b0 ==> has_kind(ivs(self.interactions@), interaction_type), !vx_b0 ==> forall|i: int| 0 <= i < self.interactions@.len() ==> kind(#[trigger] ivs(self.interactions@)[i]) != interaction_type
%loop_start 0
  proof { assert(ivs(self.interactions@)[it.index@ as int] == iv(*it.seq()[it.index@ as int])); }
%fn V4Pact::has_mixed_interactions
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures r == mixed(ivs(self.interactions@))
%bty 0 HashSet<V4InteractionType>
%loop 0 it
  invariant its_of(it.seq(), self.interactions@), forall|x: V4InteractionType| vx_b0@.contains(x) == exists|i: int| 0 <= i < it.index@ && kind(#[trigger] ivs(self.interactions@)[i]) == x
%loop_start 0
  let ghost vx_o = vx_b0@; let ghost vx_n = it.index@ as int;
%loop_end 0
  proof { let s = ivs(self.interactions@); let e = s[vx_n]; assert(e == iv(*it.seq()[vx_n])); assert forall|x: V4InteractionType| vx_b0@.contains(x) == exists|i: int| 0 <= i < vx_n + 1 && kind(#[trigger] s[i]) == x by { if kind(e) == x { assert(vx_b0@.contains(x)); } else { assert(vx_b0@.contains(x) == vx_o.contains(x)); if exists|i: int| 0 <= i < vx_n + 1 && kind(#[trigger] s[i]) == x { let i = choose|i: int| 0 <= i < vx_n + 1 && kind(#[trigger] s[i]) == x; assert(i < vx_n); } } } }
%after_loop 0
  proof { lemma_kinds(ivs(self.interactions@), vx_b0@); }
%fn V4Pact::filter_interactions
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `Vec<Box<dyn Interaction + Send + Sync + RefUnwindSafe>>` => `Vec<DynI>`
%sig
  ensures dvs(r@) == ivs(self.interactions@).filter(|i: IV| kind(i) == interaction_type).map_values(|i: IV| DV::V4(i))
%bty 0 Vec<DynI>
%body_start
  let ghost vx_p = |i: IV| kind(i) == interaction_type; let ghost vx_g = |i: IV| DV::V4(i); let ghost vx_s = ivs(self.interactions@);
  proof { reveal(Seq::filter); assert(vx_s.take(0).filter(vx_p) =~= seq![]); }
%loop 0 it
  invariant its_of(it.seq(), self.interactions@), dvs(vx_b0@) =~= vx_s.take(it.index@ as int).filter(vx_p).map_values(vx_g)
%loop_end 0
  proof { reveal(Seq::filter); let n = it.index@ as int; assert(vx_s[n] == iv(*it.seq()[n])); assert(vx_s.take(n + 1).drop_last() =~= vx_s.take(n)); assert(vx_s.take(n + 1).last() == vx_s[n]); let f0 = vx_s.take(n).filter(vx_p); let f1 = vx_s.take(n + 1).filter(vx_p); if vx_p(vx_s[n]) { assert(f1 == f0.push(vx_s[n])); assert(f1.map_values(vx_g) =~= f0.map_values(vx_g).push(vx_g(vx_s[n]))); } else { assert(f1 == f0); } }
%after_loop 0
  proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
%src rust/pact_models/src/plugins.rs
%fn PluginData::merge
%attr #[verifier::loop_isolation(false)]
%base 0 vx_entries
%sig
  ensures plq(*final(self)) == (PLQ { configuration: conf_merge(meta(old(self).configuration), meta(*data)), ..plq(*old(self)) })
%body_start
  let ghost vx_c = meta(self.configuration); let ghost vx_m = conf_merge(meta(self.configuration), meta(*data));
%loop 0 it
  invariant entries_of(it.seq(), data@), self.name == old(self).name, self.version == old(self).version,
    forall|i: int| 0 <= i < it.index@ ==> meta(self.configuration).dom().contains((#[trigger] it.seq()[i]).0@) && meta(self.configuration)[it.seq()[i].0@] == vx_m[it.seq()[i].0@],
    forall|k: Seq<char>| vx_c.dom().contains(k) ==> #[trigger] meta(self.configuration).dom().contains(k),
    forall|k: Seq<char>| (forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).0@ != k) && #[trigger] meta(self.configuration).dom().contains(k) ==> vx_c.dom().contains(k) && meta(self.configuration)[k] == vx_c[k]
%loop_start 0
  let ghost vx_o = meta(self.configuration); let ghost vx_n = it.index@ as int; let ghost vx_s = it.seq();
  proof { assert(it.seq()[it.index@ as int] == (key, value)); assert(data@.dom().contains(key.kv())); assert(meta(*data).dom().contains(key@)); }
%loop_end 0
  proof { let c = meta(self.configuration); assert(c =~= vx_o.insert(key@, vx_m[key@]));
    assert forall|k: Seq<char>| (forall|i: int| 0 <= i < vx_n + 1 ==> (#[trigger] vx_s[i]).0@ != k) && #[trigger] c.dom().contains(k) implies vx_c.dom().contains(k) && c[k] == vx_c[k] by { assert(vx_s[vx_n].0@ != k); assert(vx_o.dom().contains(k)); assert(forall|i: int| 0 <= i < vx_n ==> (#[trigger] vx_s[i]).0@ != k); } }
%after_loop 0
  proof { assert(meta(self.configuration) =~= vx_m) by { assert forall|k: Seq<char>| vx_m.dom().contains(k) == meta(self.configuration).dom().contains(k) by { if meta(*data).dom().contains(k) { assert(data@.dom().contains(k)); } } } }
%fn PluginData::to_json
%sub `serde_json::to_value(self)` => `vx_plugin_to_value(self)`
%opt
%sig
  ensures r is Ok, jv(r->Ok_0) == plug_j(plq(*self))
%src rust/pact_models/src/v4/pact.rs
%fn V4Pact::add_plugin_data
%chain
%eq
%closure 0 |data: &PluginData| -> (o: bool) ensures o == same_plugin(plq(*data), plq(*other_data))
%sig
  ensures v4p(*final(self)) == (V4P { plugins: v4p(*final(self)).plugins, ..v4p(*old(self)) }), plug_added(v4p(*old(self)).plugins, plq(*other_data), v4p(*final(self)).plugins)
%body_start
  let ghost vx_o = self.plugin_data@; let ghost vx_p = plq(*other_data); let ghost vx_q = plqs(self.plugin_data@);
%before `data.merge`
  proof { assert(exists|i: int| 0 <= i < vx_o.len() && same_plugin(plq(#[trigger] vx_o[i]), vx_p)); }
%body_end
  proof { let n = self.plugin_data@;
    if exists|i: int| 0 <= i < vx_o.len() && same_plugin(plq(#[trigger] vx_o[i]), vx_p) { let k = choose|i: int| 0 <= i < vx_o.len() && same_plugin(plq(#[trigger] vx_o[i]), vx_p); assert(same_plugin(vx_q[k], vx_p)); let j = lemma_first_plugin(vx_q, vx_p, k); assert(vx_q[j] == plq(vx_o[j]));
      assert forall|i: int| 0 <= i < j implies !same_plugin(plq(#[trigger] vx_o[i]), vx_p) by { assert(vx_q[i] == plq(vx_o[i])); }
      assert(plqs(n) =~= vx_q.update(j, plq(n[j]))); assert(plug_at(vx_q, vx_p, j)); }
    else { assert forall|i: int| !plug_at(vx_q, vx_p, i) by { if plug_at(vx_q, vx_p, i) { assert(vx_q[i] == plq(vx_o[i])); } } assert(plqs(n) =~= vx_q.push(vx_p)); } }
%fn V4Pact::extract_plugin_data
%attr #[verifier::loop_isolation(false)]
%sub `serde_json::from_value::<PluginData>(` => `vx_plugin_from_value(`
%sig
  ensures mdv(*final(metadata)) == mdv(*old(metadata)).remove("plugins"@), plqs(r@) == plugs_of(jget(JV::Obj(mdv(*old(metadata))), "plugins"@))
%body_start
  proof { broadcast use axiom_jv; }
%loop 0 it
  invariant its_of(it.seq(), items@), plqs(v@) == opts(jvs(items@).map_values(|x: JV| plug_f(x)).take(it.index@ as int))
%loop_end 0
  proof { let s = jvs(items@).map_values(|x: JV| plug_f(x)); let n = it.index@ as int; lemma_opts(s, n); assert(s[n] == plug_f(jv(items@[n]))); assert(plqs(v@) =~= opts(s.take(n + 1))); }
%after_loop 0
  proof { let s = jvs(items@).map_values(|x: JV| plug_f(x)); assert(s.take(s.len() as int) =~= s); }
%fn V4Pact::find_interaction_with_id
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `Option<&Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Option<&V4I>`
%sig
  ensures r is None ==> forall|i: int| 0 <= i < self.interactions@.len() ==> ident(#[trigger] ivs(self.interactions@)[i]) != Some(interaction_id@), r is Some ==> exists|i: int| #[trigger] id_at(ivs(self.interactions@), interaction_id@, i) && iv(*r->0) == ivs(self.interactions@)[i]
%bty 0 Option<&V4I>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> ident(#[trigger] ivs(self.interactions@)[i]) != Some(interaction_id@)
  invariant its_of(it.seq(), self.interactions@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < self.interactions@.len() ==> ident(#[trigger] ivs(self.interactions@)[i]) != Some(interaction_id@), vx_b0 is Some ==> exists|i: int| #[trigger] id_at(ivs(self.interactions@), interaction_id@, i) && iv(*vx_b0->0) == ivs(self.interactions@)[i]
%loop_start 0
  proof { let n = it.index@ as int; assert(ivs(self.interactions@)[n] == iv(*it.seq()[n])); assert(id_at(ivs(self.interactions@), interaction_id@, n) == (ident(ivs(self.interactions@)[n]) == Some(interaction_id@))); }
%after_loop 0
  proof { if vx_b0 is Some { let i = choose|i: int| #[trigger] id_at(ivs(self.interactions@), interaction_id@, i) && iv(*vx_b0->0) == ivs(self.interactions@)[i]; assert(id_at(ivs(self.interactions@), interaction_id@, i)); } }
%fn V4Pact::pact_from_json
%sub `"consumer".into()` => `"consumer".to_string()`
%sub `"provider".into()` => `"provider".to_string()`
%sig
  ensures r is Ok == v4p_f(jv(*json)) is Some, r is Ok ==> Some(v4p(r->Ok_0)) == v4p_f(jv(*json))
%body_start
  proof { broadcast use axiom_jv; }
%fn from_json
%rename v4_from_json
%sub `"consumer".into()` => `"consumer".to_string()`
%sub `"provider".into()` => `"provider".to_string()`
%sub `Box<dyn Pact + Send + Sync + RefUnwindSafe>` => `AnyPact`
%sub `Box::new(` => `vx_box(`
%sig
  ensures r is Ok == v4p_f(jv(*pact_json)) is Some, r is Ok ==> (match v4p_f(jv(*pact_json)) { Some(p) => ap(r->Ok_0) == AP::V4(p), None => false })
%body_start
  proof { broadcast use axiom_jv; }
%fn Pact for V4Pact::metadata
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures mdt(r) == down(mdv(self.metadata))
%bty 0 BTreeMap<String, BTreeMap<String, String>>
%bty 1 BTreeMap<String, String>
%loop 0 it0
  invariant bents(it0.seq(), self.metadata@), down_part(false, mdv(self.metadata), mdt(vx_b0)), forall|i: int| 0 <= i < it0.index@ && down_e(false, (#[trigger] it0.seq()[i]).0@, jv(*it0.seq()[i].1)) is Some ==> mdt(vx_b0).dom().contains(it0.seq()[i].0@)
%loop_start 0
  proof { broadcast use axiom_jv; }
  let ghost vx_o = mdt(vx_b0); let ghost vx_e = it0.seq()[it0.index@];
%loop_end 0
  proof { assert(self.metadata@.dom().contains(vx_e.0@)); assert(mdv(self.metadata).dom().contains(vx_e.0@)); let d = down_e(false, vx_e.0@, jv(*vx_e.1)); if d is Some { assert(mdt(vx_b0) =~= vx_o.insert(vx_e.0@, d->0)); assert(down_at(false, mdv(self.metadata), mdt(vx_b0), vx_e.0@)); } else { assert(mdt(vx_b0) == vx_o); }
    assert forall|k: Seq<char>| #[trigger] mdt(vx_b0).dom().contains(k) implies down_at(false, mdv(self.metadata), mdt(vx_b0), k) by { if k != vx_e.0@ { assert(vx_o.dom().contains(k)); assert(down_at(false, mdv(self.metadata), vx_o, k)); } else if d is None { assert(vx_o.dom().contains(k)); } } }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] mdv(self.metadata).dom().contains(k) && down_e(false, k, mdv(self.metadata)[k]) is Some implies mdt(vx_b0).dom().contains(k) by { assert(self.metadata@.dom().contains(k)); } lemma_down(false, mdv(self.metadata), mdt(vx_b0)); }
%loop 1 it1
  invariant pairs_of(it1.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] smap(vx_b1).dom().contains(k) ==> jm(*map).dom().contains(k) && smap(vx_b1)[k] == jtext(jm(*map)[k]), forall|i: int| 0 <= i < it1.index@ ==> smap(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = smap(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; assert(jm(*map).dom().contains(e.0@)); assert(smap(vx_b1) =~= vx_o1.insert(e.0@, jtext(jv(*e.1)))); }
%after_loop 1
  proof { assert(smap(vx_b1) =~= down_t(jv(*v))); }
%fn Pact for V4Pact::as_request_response_pact
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sig
  ensures r is Ok, rrp(r->Ok_0) == to_rr(v4p(*self))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 Vec<RequestResponseInteraction>
%loop 0 it0
  invariant its_of(it0.seq(), self.interactions@), rvs(vx_b0@) == opts(ivs(self.interactions@).map_values(|i: IV| as_rr(DV::V4(i))).take(it0.index@ as int))
%loop_end 0
  proof { let s = ivs(self.interactions@).map_values(|i: IV| as_rr(DV::V4(i))); lemma_opts(s, it0.index@ as int); assert(s.take(it0.index@ as int + 1).len() == it0.index@ + 1); assert(rvs(vx_b0@) =~= opts(s.take(it0.index@ as int + 1))); }
%after_loop 0
  proof { let s = ivs(self.interactions@).map_values(|i: IV| as_rr(DV::V4(i))); assert(s.take(s.len() as int) =~= s); }
%bty 1 BTreeMap<String, BTreeMap<String, String>>
%bty 2 BTreeMap<String, String>
%loop 1 it1
  invariant bents(it1.seq(), self.metadata@), down_part(true, mdv(self.metadata), mdt(vx_b1)), forall|i: int| 0 <= i < it1.index@ && down_e(true, (#[trigger] it1.seq()[i]).0@, jv(*it1.seq()[i].1)) is Some ==> mdt(vx_b1).dom().contains(it1.seq()[i].0@)
%loop_start 1
  proof { broadcast use axiom_jv; }
  let ghost vx_o = mdt(vx_b1); let ghost vx_e = it1.seq()[it1.index@];
%loop_end 1
  proof { assert(self.metadata@.dom().contains(vx_e.0@)); assert(mdv(self.metadata).dom().contains(vx_e.0@)); let d = down_e(true, vx_e.0@, jv(*vx_e.1)); if d is Some { if vx_e.0@ == "pactSpecification"@ { assert(smap((vx_x1_1->0).1) =~= d->0); } assert(mdt(vx_b1) =~= vx_o.insert(vx_e.0@, d->0)); assert(down_at(true, mdv(self.metadata), mdt(vx_b1), vx_e.0@)); } else { assert(mdt(vx_b1) == vx_o); }
    assert forall|k: Seq<char>| #[trigger] mdt(vx_b1).dom().contains(k) implies down_at(true, mdv(self.metadata), mdt(vx_b1), k) by { if k != vx_e.0@ { assert(vx_o.dom().contains(k)); assert(down_at(true, mdv(self.metadata), vx_o, k)); } else if d is None { assert(vx_o.dom().contains(k)); } } }
%after_loop 1
  proof { assert forall|k: Seq<char>| #[trigger] mdv(self.metadata).dom().contains(k) && down_e(true, k, mdv(self.metadata)[k]) is Some implies mdt(vx_b1).dom().contains(k) by { assert(self.metadata@.dom().contains(k)); } lemma_down(true, mdv(self.metadata), mdt(vx_b1)); }
%loop 2 it2
  invariant pairs_of(it2.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] smap(vx_b2).dom().contains(k) ==> jm(*map).dom().contains(k) && smap(vx_b2)[k] == jtext(jm(*map)[k]), forall|i: int| 0 <= i < it2.index@ ==> smap(vx_b2).dom().contains((#[trigger] it2.seq()[i]).0@)
%loop_start 2
  let ghost vx_o1 = smap(vx_b2);
%loop_end 2
  proof { let e = it2.seq()[it2.index@]; assert(jm(*map).dom().contains(e.0@)); assert(smap(vx_b2) =~= vx_o1.insert(e.0@, jtext(jv(*e.1)))); }
%after_loop 2
  proof { assert(smap(vx_b2) =~= down_t(jv(*v))); }
%fn Pact for V4Pact::as_message_pact
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures r is Ok, msp(r->Ok_0) == to_msg(v4p(*self))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 Vec<Message>
%loop 0 it0
  invariant its_of(it0.seq(), self.interactions@), mvs(vx_b0@) == opts(ivs(self.interactions@).map_values(|i: IV| as_msg(DV::V4(i))).take(it0.index@ as int))
%loop_end 0
  proof { let s = ivs(self.interactions@).map_values(|i: IV| as_msg(DV::V4(i))); lemma_opts(s, it0.index@ as int); assert(s.take(it0.index@ as int + 1).len() == it0.index@ + 1); assert(mvs(vx_b0@) =~= opts(s.take(it0.index@ as int + 1))); }
%after_loop 0
  proof { let s = ivs(self.interactions@).map_values(|i: IV| as_msg(DV::V4(i))); assert(s.take(s.len() as int) =~= s); }
%bty 1 BTreeMap<String, BTreeMap<String, String>>
%bty 2 BTreeMap<String, String>
%loop 1 it1
  invariant bents(it1.seq(), self.metadata@), down_part(false, mdv(self.metadata), mdt(vx_b1)), forall|i: int| 0 <= i < it1.index@ && down_e(false, (#[trigger] it1.seq()[i]).0@, jv(*it1.seq()[i].1)) is Some ==> mdt(vx_b1).dom().contains(it1.seq()[i].0@)
%loop_start 1
  proof { broadcast use axiom_jv; }
  let ghost vx_o = mdt(vx_b1); let ghost vx_e = it1.seq()[it1.index@];
%loop_end 1
  proof { assert(self.metadata@.dom().contains(vx_e.0@)); assert(mdv(self.metadata).dom().contains(vx_e.0@)); let d = down_e(false, vx_e.0@, jv(*vx_e.1)); if d is Some { assert(mdt(vx_b1) =~= vx_o.insert(vx_e.0@, d->0)); assert(down_at(false, mdv(self.metadata), mdt(vx_b1), vx_e.0@)); } else { assert(mdt(vx_b1) == vx_o); }
    assert forall|k: Seq<char>| #[trigger] mdt(vx_b1).dom().contains(k) implies down_at(false, mdv(self.metadata), mdt(vx_b1), k) by { if k != vx_e.0@ { assert(vx_o.dom().contains(k)); assert(down_at(false, mdv(self.metadata), vx_o, k)); } else if d is None { assert(vx_o.dom().contains(k)); } } }
%after_loop 1
  proof { assert forall|k: Seq<char>| #[trigger] mdv(self.metadata).dom().contains(k) && down_e(false, k, mdv(self.metadata)[k]) is Some implies mdt(vx_b1).dom().contains(k) by { assert(self.metadata@.dom().contains(k)); } lemma_down(false, mdv(self.metadata), mdt(vx_b1)); }
%loop 2 it2
  invariant pairs_of(it2.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] smap(vx_b2).dom().contains(k) ==> jm(*map).dom().contains(k) && smap(vx_b2)[k] == jtext(jm(*map)[k]), forall|i: int| 0 <= i < it2.index@ ==> smap(vx_b2).dom().contains((#[trigger] it2.seq()[i]).0@)
%loop_start 2
  let ghost vx_o1 = smap(vx_b2);
%loop_end 2
  proof { let e = it2.seq()[it2.index@]; assert(jm(*map).dom().contains(e.0@)); assert(smap(vx_b2) =~= vx_o1.insert(e.0@, jtext(jv(*e.1)))); }
%after_loop 2
  proof { assert(smap(vx_b2) =~= down_t(jv(*v))); }
%fn Pact for V4Pact::add_interaction
%sub `&dyn Interaction` => `&DynI`
%sig
  ensures r is Ok == as_v4(dv(*interaction)) is Some, v4p(*final(self)) == (match as_v4(dv(*interaction)) { Some(i) => V4P { ints: v4p(*old(self)).ints.push(i), ..v4p(*old(self)) }, None => v4p(*old(self)) })
%tail_after
  proof { if vx_ret is Ok { assert(ivs(self.interactions@) =~= v4p(*old(self)).ints.push(as_v4(dv(*interaction))->0)); } }
%fn Pact for V4Pact::add_md_version
%sig
  ensures v4p(*final(self)) == (V4P { meta: md_versioned(v4p(*old(self)).meta, key@, version@), ..v4p(*old(self)) })
%body_start
  proof { broadcast use axiom_jv; }
%body_end
  proof { assert(mdv(self.metadata) =~= md_versioned(v4p(*old(self)).meta, key@, version@)); }
%fn Default for V4Pact::default
%free
%rename v4_default
%sub `Self` => `V4Pact`
%sub `consumer: Default::default()` => `consumer: Consumer { name: String::new() }`
%sub `provider: Default::default()` => `provider: Provider { name: String::new() }`
%sub `metadata: Default::default()` => `metadata: BTreeMap::new()`
%sig
  ensures v4p(r) == (V4P { consumer: seq![], provider: seq![], ints: seq![], meta: Map::empty(), plugins: seq![] })
%tail_after
  proof { assert(v4p(vx_ret).ints =~= seq![]); assert(v4p(vx_ret).plugins =~= seq![]); assert(v4p(vx_ret).meta =~= Map::empty()); assert(v4p(vx_ret).consumer =~= seq![]); assert(v4p(vx_ret).provider =~= seq![]); }
%src rust/pact_models/src/sync_pact.rs
%fn RequestResponsePact::metadata_to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `Map::default()` => `JMap::default()`
%sub `match k.as_str()` => `match vx_lit(k.as_str())`
%sub `PACT_RUST_VERSION.unwrap_or("unknown")` => `vx_rust_version()`
%sig
  ensures one_name(mdt(self.metadata)) ==> mdv(r) == stamped(md_jv(mdt(self.metadata)), *pact_spec)
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
  let ghost vx_f = |x: JV| x; let ghost vx_m = md_jv(mdt(self.metadata));
%bty 0 BTreeMap<String, Value>
%bty 1 BTreeMap<String, String>
%loop 0 it
  invariant bents(it.seq(), self.metadata@), naming(vx_m, vx_f, mdv(vx_b0)), forall|i: int| 0 <= i < it.index@ ==> mdv(vx_b0).dom().contains(ren((#[trigger] it.seq()[i]).0@))
%loop_start 0
  let ghost vx_o = mdv(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; let j = tj(smap(*e.1)); assert(self.metadata@.dom().contains(e.0@)); assert(vx_m.dom().contains(e.0@)); assert(vx_m[e.0@] == j); assert(vx_x0_1.0@ == ren(e.0@)); assert(jv(vx_x0_1.1) == j); assert(mdv(vx_b0) =~= vx_o.insert(ren(e.0@), j)); assert(from_name(vx_m, vx_f, ren(e.0@), j)); }
%after_loop 0
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(one_name(m)); assert(forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> self.metadata@.dom().contains(k)); lemma_naming(m, vx_f, mdv(vx_b0)); assert(renamed(m).map_values(vx_f) =~= renamed(m)); } }
%loop 1 it1
  invariant bents(it1.seq(), v@), forall|k: Seq<char>| #[trigger] smap(vx_b1).dom().contains(k) ==> smap(*v).dom().contains(k) && smap(vx_b1)[k] == smap(*v)[k], forall|i: int| 0 <= i < it1.index@ ==> smap(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = smap(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; assert(v@.dom().contains(e.0@)); assert(smap(vx_b1) =~= vx_o1.insert(e.0@, e.1@)); }
%after_loop 1
  proof { assert forall|k: Seq<char>| smap(*v).dom().contains(k) implies smap(vx_b1).dom().contains(k) by { assert(v@.dom().contains(k)); } assert(smap(vx_b1) =~= smap(*v)); }
%before `let version_entry`
  let ghost vx_n = mdv(md_map);
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(version_j(*pact_spec)->Obj_0 =~= Map::<Seq<char>, JV>::empty().insert("version"@, JV::Str(version_text(*pact_spec)))); assert(vx_n =~= renamed(m).insert("pactSpecification"@, version_j(*pact_spec))); } }
%tail_after
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(mdv(vx_ret) =~= stamped(m, *pact_spec)); } }
%fn Pact for RequestResponsePact::as_v4_pact
%attr #[verifier::loop_isolation(false)]
%chain
%sub `V4Pact::default()` => `v4_default()`
%sig
  ensures r is Ok, v4p(r->Ok_0) == rr_to_v4(rrp(*self))
%bty 0 Vec<V4I>
%bty 1 BTreeMap<String, Value>
%body_start
  proof { broadcast use axiom_jv; }
  let ghost vx_s = rvs(self.interactions@).map_values(|i: RV| as_v4(DV::Rr(i)));
%loop 0 it
  invariant its_of(it.seq(), self.interactions@), ivs(vx_b0@) == opts(vx_s.take(it.index@ as int))
%loop_start 0
  let ghost vx_n = it.index@ as int;
  proof { lemma_opts(vx_s, vx_n); }
%loop_end 0
  proof { assert(ivs(vx_b0@) =~= opts(vx_s.take(vx_n + 1))); }
%after_loop 0
  proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
%loop 1 it1
  invariant bents(it1.seq(), self.metadata@), forall|k: Seq<char>| #[trigger] mdv(vx_b1).dom().contains(k) ==> md_jv(mdt(self.metadata)).dom().contains(k) && mdv(vx_b1)[k] == md_jv(mdt(self.metadata))[k], forall|i: int| 0 <= i < it1.index@ ==> mdv(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = mdv(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; let j = tj(smap(*e.1)); assert(self.metadata@.dom().contains(e.0@)); assert(md_jv(mdt(self.metadata)).dom().contains(e.0@)); assert(jv(vx_x1_1.1) == j); assert(mdv(vx_b1) =~= vx_o1.insert(e.0@, j)); }
%after_loop 1
  proof { let m = md_jv(mdt(self.metadata)); assert(forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> self.metadata@.dom().contains(k)); assert(mdv(vx_b1) =~= m); }
%tail_after
  proof { assert(plqs(vx_ret->Ok_0.plugin_data@) =~= seq![]); }
%fn RequestResponsePact::default_metadata
%sub `PACT_RUST_VERSION.unwrap_or("unknown")` => `vx_rust_version()`
%sig
  ensures mdt(r) == Map::<Seq<char>, TM>::empty().insert("pactSpecification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))).insert("pactRust"@, Map::<Seq<char>, Seq<char>>::empty().insert("models"@, rust_version()))
%tail_after
  proof { lemma_md(); let d = Map::<Seq<char>, TM>::empty().insert("pactSpecification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))).insert("pactRust"@, Map::<Seq<char>, Seq<char>>::empty().insert("models"@, rust_version())); assert(mdt(vx_ret)["pactSpecification"@] =~= d["pactSpecification"@]); assert(mdt(vx_ret)["pactRust"@] =~= d["pactRust"@]); assert(mdt(vx_ret) =~= d); }
%fn Pact for RequestResponsePact::add_interaction
%sub `&dyn Interaction` => `&DynI`
%sig
  ensures r is Ok == as_rr(dv(*interaction)) is Some, rrp(*final(self)) == (match as_rr(dv(*interaction)) { Some(i) => RRP { ints: rrp(*old(self)).ints.push(i), ..rrp(*old(self)) }, None => rrp(*old(self)) })
%tail_after
  proof { if vx_ret is Ok { assert(rvs(self.interactions@) =~= rrp(*old(self)).ints.push(as_rr(dv(*interaction))->0)); } }
%fn Pact for RequestResponsePact::add_md_version
%sig
  ensures rrp(*final(self)) == (RRP { meta: md_versioned_t(rrp(*old(self)).meta, key@, version@), ..rrp(*old(self)) })
%body_end
  proof { assert(mdt(self.metadata)["pactRust"@] =~= md_versioned_t(rrp(*old(self)).meta, key@, version@)["pactRust"@]); assert(mdt(self.metadata) =~= md_versioned_t(rrp(*old(self)).meta, key@, version@)); }
%src rust/pact_models/src/message_pact.rs
%fn MessagePact::metadata_to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `Map::default()` => `JMap::default()`
%sub `match k.as_str()` => `match vx_lit(k.as_str())`
%sub `PACT_RUST_VERSION.unwrap_or("unknown")` => `vx_rust_version()`
%sig
  ensures one_name(mdt(self.metadata)) ==> mdv(r) == stamped(md_jv(mdt(self.metadata)), *pact_spec)
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
  let ghost vx_f = |x: JV| x; let ghost vx_m = md_jv(mdt(self.metadata));
%bty 0 BTreeMap<String, Value>
%bty 1 BTreeMap<String, String>
%loop 0 it
  invariant bents(it.seq(), self.metadata@), naming(vx_m, vx_f, mdv(vx_b0)), forall|i: int| 0 <= i < it.index@ ==> mdv(vx_b0).dom().contains(ren((#[trigger] it.seq()[i]).0@))
%loop_start 0
  let ghost vx_o = mdv(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; let j = tj(smap(*e.1)); assert(self.metadata@.dom().contains(e.0@)); assert(vx_m.dom().contains(e.0@)); assert(vx_m[e.0@] == j); assert(vx_x0_1.0@ == ren(e.0@)); assert(jv(vx_x0_1.1) == j); assert(mdv(vx_b0) =~= vx_o.insert(ren(e.0@), j)); assert(from_name(vx_m, vx_f, ren(e.0@), j)); }
%after_loop 0
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(one_name(m)); assert(forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> self.metadata@.dom().contains(k)); lemma_naming(m, vx_f, mdv(vx_b0)); assert(renamed(m).map_values(vx_f) =~= renamed(m)); } }
%loop 1 it1
  invariant bents(it1.seq(), v@), forall|k: Seq<char>| #[trigger] smap(vx_b1).dom().contains(k) ==> smap(*v).dom().contains(k) && smap(vx_b1)[k] == smap(*v)[k], forall|i: int| 0 <= i < it1.index@ ==> smap(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = smap(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; assert(v@.dom().contains(e.0@)); assert(smap(vx_b1) =~= vx_o1.insert(e.0@, e.1@)); }
%after_loop 1
  proof { assert forall|k: Seq<char>| smap(*v).dom().contains(k) implies smap(vx_b1).dom().contains(k) by { assert(v@.dom().contains(k)); } assert(smap(vx_b1) =~= smap(*v)); }
%before `let version_entry`
  let ghost vx_n = mdv(md_map);
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(version_j(*pact_spec)->Obj_0 =~= Map::<Seq<char>, JV>::empty().insert("version"@, JV::Str(version_text(*pact_spec)))); assert(vx_n =~= renamed(m).insert("pactSpecification"@, version_j(*pact_spec))); } }
%tail_after
  proof { let m = vx_m; if one_name(mdt(self.metadata)) { assert(mdv(vx_ret) =~= stamped(m, *pact_spec)); } }
%fn Pact for MessagePact::as_v4_pact
%attr #[verifier::loop_isolation(false)]
%chain
%sub `V4Pact::default()` => `v4_default()`
%sig
  ensures r is Ok, v4p(r->Ok_0) == msg_to_v4(msp(*self))
%bty 0 Vec<V4I>
%bty 1 BTreeMap<String, Value>
%body_start
  proof { broadcast use axiom_jv; }
  let ghost vx_s = mvs(self.messages@).map_values(|i: MV| as_v4(DV::Msg(i)));
%loop 0 it
  invariant its_of(it.seq(), self.messages@), ivs(vx_b0@) == opts(vx_s.take(it.index@ as int))
%loop_start 0
  let ghost vx_n = it.index@ as int;
  proof { lemma_opts(vx_s, vx_n); }
%loop_end 0
  proof { assert(ivs(vx_b0@) =~= opts(vx_s.take(vx_n + 1))); }
%after_loop 0
  proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
%loop 1 it1
  invariant bents(it1.seq(), self.metadata@), forall|k: Seq<char>| #[trigger] mdv(vx_b1).dom().contains(k) ==> md_jv(mdt(self.metadata)).dom().contains(k) && mdv(vx_b1)[k] == md_jv(mdt(self.metadata))[k], forall|i: int| 0 <= i < it1.index@ ==> mdv(vx_b1).dom().contains((#[trigger] it1.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = mdv(vx_b1);
%loop_end 1
  proof { let e = it1.seq()[it1.index@]; let j = tj(smap(*e.1)); assert(self.metadata@.dom().contains(e.0@)); assert(md_jv(mdt(self.metadata)).dom().contains(e.0@)); assert(jv(vx_x1_1.1) == j); assert(mdv(vx_b1) =~= vx_o1.insert(e.0@, j)); }
%after_loop 1
  proof { let m = md_jv(mdt(self.metadata)); assert(forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> self.metadata@.dom().contains(k)); assert(mdv(vx_b1) =~= m); }
%tail_after
  proof { assert(plqs(vx_ret->Ok_0.plugin_data@) =~= seq![]); }
%fn MessagePact::default_metadata
%sub `PACT_RUST_VERSION.unwrap_or("unknown")` => `vx_rust_version()`
%sig
  ensures mdt(r) == Map::<Seq<char>, TM>::empty().insert("pact-specification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))).insert("pact-rust"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, rust_version()))
%tail_after
  proof { lemma_md(); let d = Map::<Seq<char>, TM>::empty().insert("pact-specification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))).insert("pact-rust"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, rust_version())); assert(mdt(vx_ret)["pact-specification"@] =~= d["pact-specification"@]); assert(mdt(vx_ret)["pact-rust"@] =~= d["pact-rust"@]); assert(mdt(vx_ret) =~= d); }
%fn Pact for MessagePact::add_interaction
%sub `&dyn Interaction` => `&DynI`
%sig
  ensures r is Ok == as_msg(dv(*interaction)) is Some, msp(*final(self)) == (match as_msg(dv(*interaction)) { Some(i) => MSP { ints: msp(*old(self)).ints.push(i), ..msp(*old(self)) }, None => msp(*old(self)) })
%tail_after
  proof { if vx_ret is Ok { assert(mvs(self.messages@) =~= msp(*old(self)).ints.push(as_msg(dv(*interaction))->0)); } }
%fn Pact for MessagePact::add_md_version
%sig
  ensures msp(*final(self)) == (MSP { meta: md_versioned_t(msp(*old(self)).meta, key@, version@), ..msp(*old(self)) })
%body_end
  proof { assert(mdt(self.metadata)["pactRust"@] =~= md_versioned_t(msp(*old(self)).meta, key@, version@)["pactRust"@]); assert(mdt(self.metadata) =~= md_versioned_t(msp(*old(self)).meta, key@, version@)); }
%src rust/pact_models/src/v4/pact.rs
%fn Pact for V4Pact::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `self.interactions.iter()` => `vx_int_refs(&self.interactions)`
%sig
  ensures r is Ok == v4p_out(v4p(*self), pact_spec) is Some, r is Ok && one_name(v4p(*self).meta) ==> Some(jv(r->Ok_0)) == v4p_out(v4p(*self), pact_spec)
  decreases (if pact_spec is V4 { 0int } else { 2int })
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
  let ghost vx_s = by_desc(ivs(self.interactions@));
  proof { axiom_by_desc(ivs(self.interactions@)); lemma_down_names(self.metadata); }
%bty 0 Vec<Value>
%loop 0 it
  invariant vrefs(it.seq()) == vx_s, vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> jv(#[trigger] vx_b0@[i]) == ij(vx_s[i])
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= vx_s.map_values(|i: IV| ij(i))); }
%src rust/pact_models/src/sync_pact.rs
%fn Pact for RequestResponsePact::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures r is Ok, one_name(rrp(*self).meta) ==> Some(jv(r->Ok_0)) == rrp_out(rrp(*self), pact_spec)
  decreases 1int
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
%bty 0 Vec<Value>
%loop 0 it
  invariant its_of(it.seq(), self.interactions@), vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> jv(#[trigger] vx_b0@[i]) == rrj(rvs(self.interactions@)[i], pact_spec)
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= rvs(self.interactions@).map_values(|i: RV| rrj(i, pact_spec))); }
%fn RequestResponsePact::from_json
%closure 0 |pact: V4Pact| -> (o: Result<RequestResponsePact, VxError>) ensures o is Ok, rrp(o->Ok_0) == to_rr(v4p(pact))
%sig
  ensures one_name(jmeta(jv(*pact_json))) ==> (r is Ok == rrp_f(jv(*pact_json)) is Some && (r is Ok ==> Some(rrp(r->Ok_0)) == rrp_f(jv(*pact_json))))
%body_start
  proof { broadcast use axiom_jv; }
%fn RequestResponsePact::default
%rename default_pact
%sig
  ensures r.consumer.name@ == "default_consumer"@, r.provider.name@ == "default_provider"@, r.interactions@.len() == 0, r.specification_version is V3, ver_of(mdt(r.metadata)) is V3
%tail_after
  proof { lemma_md(); axiom_semver(); }
%src rust/pact_models/src/message_pact.rs
%fn Pact for MessagePact::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures r is Ok == msp_out(msp(*self), pact_spec) is Some, r is Ok && one_name(msp(*self).meta) ==> Some(jv(r->Ok_0)) == msp_out(msp(*self), pact_spec)
  decreases 1int
%body_start
  proof { broadcast use axiom_jv; lemma_md(); }
%bty 0 Vec<Value>
%loop 0 it
  invariant its_of(it.seq(), self.messages@), vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> jv(#[trigger] vx_b0@[i]) == msgj(mvs(self.messages@)[i], pact_spec)
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= mvs(self.messages@).map_values(|i: MV| msgj(i, PactSpecification::V3))); }
%fn MessagePact::from_json
%attr #[verifier::loop_isolation(false)]
%sub `msg_arr.iter().enumerate()` => `vx_enum(msg_arr)`
%sig
  ensures one_name(jmeta(jv(*pact_json))) ==> (r is Ok == msp_f(jv(*pact_json)) is Some && (r is Ok ==> Some(msp(r->Ok_0)) == msp_f(jv(*pact_json))))
%body_start
  proof { broadcast use axiom_jv; }
%loop 0 it
  invariant it.seq().len() == msg_arr@.len(), forall|i: int| 0 <= i < msg_arr@.len() ==> (#[trigger] it.seq()[i]) == (i as usize, &msg_arr@[i]), messages@.len() == it.index@, forall|i: int| 0 <= i < messages@.len() ==> msg_f(i as usize, jvs(msg_arr@)[i], spec_version) == Some(mv(#[trigger] messages@[i]))
%loop_start 0
  proof { assert(it.seq()[it.index@ as int] == (ix, msg)); assert(jvs(msg_arr@)[it.index@ as int] == jv(*msg)); assert(msg_f(ix, jvs(msg_arr@)[it.index@ as int], spec_version) is None ==> msgs_f(Some(JV::Arr(jvs(msg_arr@))), spec_version) is None); }
%after_loop 0
  proof { let a = jvs(msg_arr@); assert forall|i: int| 0 <= i < a.len() implies msg_f(i as usize, #[trigger] a[i], spec_version) is Some by { let z = messages@[i]; } assert(mvs(messages@) =~= msgs_f(Some(JV::Arr(a)), spec_version)->0); }
%before `Ok(MessagePact`
  proof { assert(Some(mvs(messages@)) =~~= msgs_f(jget(jv(*pact_json), "messages"@), spec_version)); }
%fn MessagePact::default
%rename default_pact
%sig
  ensures r.consumer.name@ == "default_consumer"@, r.provider.name@ == "default_provider"@, r.messages@.len() == 0, r.specification_version is V3, ver_of(mdt(r.metadata)) is V3
%tail_after
  proof { lemma_md(); axiom_semver(); }
%src rust/pact_models/src/pact.rs
%fn load_pact_from_json
%sub `v4::pact::from_json(` => `v4_from_json(`
%sub 2 `Box::new(` => `vx_box(`
%sub `Box<dyn Pact + Send + Sync + RefUnwindSafe>` => `AnyPact`
%sig
  ensures one_name(jmeta(jv(*json))) ==> (r is Ok == any_f(jv(*json)) is Some && (r is Ok ==> Some(ap(r->Ok_0)) == any_f(jv(*json))))
%body_start
  proof { broadcast use axiom_jv; }
