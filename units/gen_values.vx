%unit gen_values
%include std.rs
%include json_val.rs
%include vxmap.rs
%include str_find.rs
%include expr_spec.rs
%src rust/pact_models/src/expression_parser.rs
%enum DataType
%struct DataValue
%include data_spec.rs
%src rust/pact_models/src/generators/mod.rs
%enum UuidFormat
%include gen_spec.rs
%enum Generator
%sub `HashMap<DocPath, Generator>` => `VxGens`
%include gen_spec2.rs
%struct JsonHandler
%prelude
verus! {
impl Clone for UuidFormat { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for UuidFormat {}
impl JsonHandler { #[verifier::external_body] pub fn apply_key(&mut self, key: &DocPath, g: &Generator, c: &HashMap<&str, Value>, m: &VxMatcher) requires rooted(*key) ensures applied(*g, *c, *m, *key, jv(old(self).value), jv(final(self).value)) { unimplemented!() } }
}
%fn Default for UuidFormat::default
%free
%rename uuid_default
%sub `Self` => `UuidFormat`
%sig
  ensures r == UuidFormat::LowerCaseHyphenated
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%trusted
%sig
  ensures r@ == jtext(jv(*value))
%fn get_field_as_string
%sub `&Map<String, Value>` => `&JMap`
%closure 0 |f: &Value| -> (o: String) ensures o@ == jtext(jv(*f))
%sig
  ensures r is Some == jm(*map).dom().contains(field@), r is Some ==> r->0@ == jtext(jm(*map)[field@])
%src rust/pact_models/src/generators/mod.rs
%fn generate_value_from_context
%trusted
%sub `anyhow::Result<DataValue>` => `Result<DataValue, VxError>`
%sig
  ensures r is Ok == context_value(expression@, *context) is Some, r is Ok ==> jv(r->Ok_0.wrapped) == context_value(expression@, *context)->0 && r->Ok_0.data_type == dt_or_raw(*data_type)
%const DIGIT_CHARSET
%sub `&str` => `&'static str`
%const HEX_CHARSET
%sub `&str` => `&'static str`
%prelude
verus! {
pub proof fn lemma_charset() ensures DIGIT_CHARSET@.len() == 10, all_digits(DIGIT_CHARSET@), HEX_CHARSET@.len() == 16, all_hex(HEX_CHARSET@), at_char(DIGIT_CHARSET@, 1, 1), forall|i: int| 1 <= i < 10 ==> #[trigger] DIGIT_CHARSET@[i] != '0'
{ reveal_strlit("0123456789"); reveal_strlit("0123456789ABCDEF"); lemma_cuts(DIGIT_CHARSET@); }
/// every offset is the start of a character in a text of digits
pub open spec fn cuts(s: Seq<char>) -> bool { forall|i: int| 0 <= i <= s.len() ==> #[trigger] at_char(s, i, i) }
pub proof fn lemma_cuts(s: Seq<char>) requires all_digits(s) ensures cuts(s) { assert forall|i: int| 0 <= i <= s.len() implies #[trigger] at_char(s, i, i) by { let t = s.take(i); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k] as u32) < 128 by { assert(t[k] == s[k]); assert(is_digit(s[k])); } lemma_ascii_blen(t); } }
}
%fn generate_decimal
%attr #[verifier::loop_isolation(false)]
%sub `let mut rnd = rand::thread_rng();` => ` `
%sub `DIGIT_CHARSET.chars().collect()` => `vx_chars(DIGIT_CHARSET)`
%sub `"".to_string()` => `String::new()`
%sub `1 => chars.choose(&mut rnd).unwrap().to_string()` => `1 => vx_char_text(vx_choose(&chars).unwrap())`
%sub `format!("{}.{}", chars.choose(&mut rnd).unwrap(), chars.choose(&mut rnd).unwrap())` => `vx_pointed(vx_char_text(vx_choose(&chars).unwrap()).as_str(), vx_char_text(vx_choose(&chars).unwrap()).as_str())`
%sub `sample.push(*chars.choose(&mut rnd).unwrap())` => `vx_pushc(&mut sample, *vx_choose(&chars).unwrap())`
%sub `sample.starts_with("00")` => `vx_starts(&sample, "00")`
%sub `DIGIT_CHARSET[1..].chars()` => `vx_chars(vx_from(DIGIT_CHARSET, 1))`
%sub `sample.insert(0, chars.choose(&mut rnd).unwrap())` => `vx_insert0(&mut sample, vx_choose(&chars).unwrap())`
%sub `rnd.gen_range(1..digits - 1)` => `vx_range(1, digits - 1)`
%sub `sample.starts_with('0')` => `vx_startsc(&sample, '0')`
%sub `&sample[1..(digits + 1)]` => `vx_slice(sample.as_str(), 1, digits + 1)`
%sub `&sample[..digits]` => `vx_slice(sample.as_str(), 0, digits)`
%sub `format!("{}.{}", &selected_digits[..pos], &selected_digits[pos..])` => `vx_pointed(vx_slice(selected_digits, 0, pos), vx_from(selected_digits, pos))`
%sig
  requires digits <= u16::MAX
  ensures decimal_ok(r@, digits as int)
%body_start
  proof { lemma_charset(); }
%before `let mut sample`
  proof { lemma_charset(); }
%loop 0 it
  invariant sample@.len() == it.index@, all_digits(sample@)
%before `sample.insert(`
  proof { let d = DIGIT_CHARSET@; assert(at_char(d, 1, 1)); assert(chars@ == d.skip(1)); assert(chars@.len() == 9); assert forall|i: int| 0 <= i < 9 implies is_digit(#[trigger] chars@[i]) && chars@[i] != '0' by { assert(d[i + 1] != '0' && is_digit(d[i + 1])); } }
%before `if sample`
  let ghost raw = sample@; proof { reveal_strlit("00"); if raw[0] == '0' && raw[1] == '0' { assert(raw.take(2) =~= "00"@); } }
%before `let pos =`
  let ghost full = sample@; proof { assert(full[0] == '0' ==> full[1] != '0'); }
%before `let selected_digits`
  proof { lemma_cuts(full); let n = digits as int; assert(full.len() > n); assert(at_char(full, 0, 0) && at_char(full, 1, 1) && at_char(full, n, n) && at_char(full, n + 1, n + 1)); assert(all_digits(full.subrange(1, n + 1)) && all_digits(full.subrange(0, n))); }
%before `let generated`
  proof { let t = selected_digits@; let n = digits as int; assert(all_digits(t) && t.len() == n); lemma_cuts(t); assert(at_char(t, 0, 0) && at_char(t, pos as int, pos as int)); assert(t.subrange(0, pos as int).len() == pos && t.skip(pos as int).len() == n - pos); }
%tail_after
  proof { if digits == 2 { assert(point_at(vx_ret@, 2, 1)); } }
%before @last `trace!`
  proof { assert(point_at(generated@, digits as int, pos as int)); }
%fn generate_hexadecimal
%attr #[verifier::loop_isolation(false)]
%sub `let mut rnd = rand::thread_rng();` => ` `
%sub `HEX_CHARSET.chars().collect()` => `vx_chars(HEX_CHARSET)`
%sub `sample.push(*chars.choose(&mut rnd).unwrap())` => `vx_pushc(&mut sample, *vx_choose(&chars).unwrap())`
%sig
  ensures r@.len() == digits, all_hex(r@)
%body_start
  proof { lemma_charset(); }
%loop 0 it
  invariant sample@.len() == it.index@, all_hex(sample@)
%fn generate_ascii_string
%sub `rand::thread_rng().sample_iter(&Alphanumeric).map(char::from).take(size).collect()` => `vx_alnum(size)`
%sig
  ensures r@.len() == size, all_alnum(r@)
%fn strip_anchors
%sub `regex.strip_prefix('^')` => `vx_prefix(regex, '^')`
%sub `regex.strip_suffix('$')` => `vx_suffix(regex, '$')`
%sub `(stripped.len() - stripped.trim_end_matches('\\').len())` => `vx_trailing(stripped)`
%sig
  ensures r@ == stripped(regex@)
%fn replace_with_regex
%fmt exact
%sub `re.replace(example,` => `vx_re_replace(&re, example,`
%sub `}).to_string()` => `})`
%sub `caps.get(1).map(|m| m.as_str()).unwrap_or_default()` => `vx_group_text(caps.get(1))`
%closure 0 |caps: &Captures| -> (o: String) ensures o@ == url@ + or_empty(cap(*caps).g)
%sig
  ensures r@ == at_url(example@, url@, re_text(re))
%fn format_date_time
%sub `<D: Display>(value: D` => `(value: VxFmt`
%sub `anyhow::Result<String>` => `Result<String, VxError>`
%sub `write!(text, "{}", value).map(|_| text).map_err(|_| anyhow!("The value can not be formatted using '{}'", pattern))` => `match vx_write_fmt(&mut text, value) { Ok(_) => Ok(text), Err(e_) => Err(e_) }`
%sig
  ensures ok_text(r) == fmt_text(value)
%fn generate_int
%sub `anyhow::Result<i32>` => `Result<i32, VxError>`
%sub `rand::thread_rng().gen_range(min..=max)` => `vx_range_i32(min, max)`
%sig
  ensures r is Ok == (min <= max), r is Ok ==> min <= r->Ok_0 <= max
%fn GenerateValue<u16> for Generator::generate_value
%rename generate_u16
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `anyhow::Result<u16>` => `Result<u16, VxError>`
%sub `&Generator::RandomInt(min, max)` => `Generator::RandomInt(min, max)`
%sub `&Generator::ProviderStateGenerator(ref exp, ref dt)` => `Generator::ProviderStateGenerator(exp, dt)`
%sub `min.max(0)` => `vx_imax(*min, 0)`
%sub `max.min(u16::MAX as i32)` => `vx_imin(*max, u16::MAX as i32)`
%sub `context.get("providerState")` => `context.get(&"providerState")`
%sub `Some(Object(psc))` => `Some(Value::Object(psc))`
%sub `psc.iter().map(|(k, v)| (k.as_str(), v.clone())).collect()` => `vx_object_context(psc)`
%sub `u16::try_from(val)` => `vx_u16_of(val)`
%closure 0 |val: i32| -> (o: u16) requires 0 <= val <= u16::MAX ensures o == val
%sig
  ensures gen_u16(*self, *context, ok_u16(r))
%body_start
  broadcast use axiom_jv; 
%fn GenerateValue<String> for Generator::generate_value
%rename generate_text
%sub `_: &String` => `_value: &String`
%attr #[verifier::loop_isolation(false)]
%fmt exact
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `format.unwrap_or_default()` => `(match format { Some(f_) => *f_, None => uuid_default() })`
%sub `let mut parser = regex_syntax::ParserBuilder::new().unicode(false).build();` => ` `
%sub `parser.parse(strip_anchors(regex))` => `vx_hir(strip_anchors(regex.as_str()))`
%sub `rand_regex::Regex::with_hir(hir, 20)` => `vx_sampler(hir)`
%sub `context.get("baseDate")` => `context.get(&"baseDate")`
%sub `context.get("baseTime")` => `context.get(&"baseTime")`
%sub `context.get("baseDateTime")` => `context.get(&"baseDateTime")`
%sub `context.get("providerState")` => `context.get(&"providerState")`
%sub `context.get("mockServer")` => `context.get(&"mockServer")`
%sub `Some(Object(psc))` => `Some(Value::Object(psc))`
%sub `psc.iter().map(|(k, v)| (k.as_str(), v.clone())).collect()` => `vx_object_context(psc)`
%sub 3 `Local::now()` => `vx_now()`
%sub 3 `json_to_string(d).parse::<DateTime<Local>>()` => `vx_parse_dt(json_to_string(d))`
%sub 3 `_exp.clone().unwrap_or_default().as_str()` => `vx_text_or_empty(_exp)`
%sub 3 `parse_pattern(pattern)` => `parse_pattern(pattern.as_str())`
%sub `#[allow(deprecated)]` => ` `
%sub `date.naive_local().date().to_string()` => `vx_plain_date(&date)`
%sub `time.time().format("%H:%M:%S").to_string()` => `vx_plain_time(&time, "%H:%M:%S")`
%sub `date_time.format("%Y-%m-%dT%H:%M:%S.%3f%z").to_string()` => `vx_plain_dt(&date_time, "%Y-%m-%dT%H:%M:%S.%3f%z")`
%sub `Uuid::new_v4().as_hyphenated().to_string().to_uppercase()` => `vx_upper_uuid(&Uuid::new_v4().as_hyphenated().to_string())`
%sub `Regex::new(regex)` => `Regex::new(regex.as_str())`
%opt
%sub `anyhow::Result<String>` => `Result<String, VxError>`
%sub `let mut rnd = rand::thread_rng();` => ` `
%sub `rnd.sample(r)` => `vx_sample(r)`
%sub `rnd.r#gen::<bool>()` => `vx_bool()`
%sub `write!(text, "{}", val).map(|_| text).map_err(|_| anyhow!("'{}' can not be converted to {:?}", val.wrapped, val.data_type))` => `match vx_write_value(&mut text, &val) { Ok(_) => Ok(text), Err(e_) => Err(e_) }`
%closure 0 |val: i32| -> (o: String) ensures o@ == itext(val as int)
%sub `val.to_string()` => `vx_itext(val)`
%closure 2 |val: DataValue| -> (o: Result<String, VxError>) ensures ok_text(o) == to_text(jv(val.wrapped), val.data_type)
%sig
  ensures gen_text(*self, *context, ok_text(r))
%body_start
  broadcast use axiom_jv;
%fn GenerateValue<Vec<String>> for Generator::generate_value
%rename generate_list
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `anyhow::Result<Vec<String>>` => `Result<Vec<String>, VxError>`
%sub `self.generate_value(&vals.first().cloned().unwrap_or_default(), context, matcher)` => `self.generate_text(&vx_first(vals), context, matcher)`
%closure 0 |v: String| -> (o: Vec<String>) ensures o@.len() == 1, o@[0]@ == v@
%sig
  ensures r is Ok ==> r->Ok_0@.len() == 1, gen_text(*self, *context, match r { Ok(v) => Some(v@[0]@), Err(_) => None })
%prelude
verus! {
pub proof fn lemma_items_start(vs: Seq<(usize, MatchingRuleCategory, VxGens)>, c: HashMap<&str, Value>, m: VxMatcher, a: Seq<JV>, b: Seq<JV>) requires a == b ensures items_ok(vs, c, m, a, b, 0) {}
}
%fn GenerateValue<Value> for Generator::generate_value
%rename generate_json
%attr #[verifier::loop_isolation(false)]
%fmt exact
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `format.unwrap_or_default()` => `(match format { Some(f_) => *f_, None => uuid_default() })`
%sub `let mut parser = regex_syntax::ParserBuilder::new().unicode(false).build();` => ` `
%sub `parser.parse(strip_anchors(regex))` => `vx_hir(strip_anchors(regex.as_str()))`
%sub `rand_regex::Regex::with_hir(hir, 20)` => `vx_sampler(hir)`
%sub `context.get("baseDate")` => `context.get(&"baseDate")`
%sub `context.get("baseTime")` => `context.get(&"baseTime")`
%sub `context.get("baseDateTime")` => `context.get(&"baseDateTime")`
%sub `context.get("providerState")` => `context.get(&"providerState")`
%sub `context.get("mockServer")` => `context.get(&"mockServer")`
%sub `Some(Object(psc))` => `Some(Value::Object(psc))`
%sub `psc.iter().map(|(k, v)| (k.as_str(), v.clone())).collect()` => `vx_object_context(psc)`
%sub 3 `Local::now()` => `vx_now()`
%sub 3 `json_to_string(d).parse::<DateTime<Local>>()` => `vx_parse_dt(json_to_string(d))`
%sub 3 `_exp.clone().unwrap_or_default().as_str()` => `vx_text_or_empty(_exp)`
%sub 3 `parse_pattern(pattern)` => `parse_pattern(pattern.as_str())`
%sub `#[allow(deprecated)]` => ` `
%sub `date.naive_local().date().to_string()` => `vx_plain_date(&date)`
%sub `time.time().format("%H:%M:%S").to_string()` => `vx_plain_time(&time, "%H:%M:%S")`
%sub `date_time.format("%Y-%m-%dT%H:%M:%S.%3f%z").to_string()` => `vx_plain_dt(&date_time, "%Y-%m-%dT%H:%M:%S.%3f%z")`
%sub `Uuid::new_v4().as_hyphenated().to_string().to_uppercase()` => `vx_upper_uuid(&Uuid::new_v4().as_hyphenated().to_string())`
%sub `Regex::new(regex)` => `Regex::new(regex.as_str())`
%opt
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub 3 `.map(Value::String)` => `.map(|t_: String| -> (o_: Value) ensures o_ == Value::String(t_) { Value::String(t_) })`
%sub `thread_rng().sample::<String, _>(r)` => `vx_sample(r)`
%sub `rand::thread_rng().r#gen::<bool>()` => `vx_bool()`
%sub `generate_decimal(*digits as usize).parse::<f64>()` => `vx_parse_digits(generate_decimal(*digits as usize), *digits)`
%sub `vec.clone()` => `vx_clone_vals(vec)`
%sub `vec.iter().enumerate()` => `vx_enumerate(vec)`
%base 1 vx_gen_entries
%sub `result[index] = handler.value.clone()` => `vx_set_at(&mut result, index, handler.value.clone())`
%after_loop 1
  proof { let es = vx_s1@; assert(run_by(g, *context, *matcher, a[n], jv(handler.value), es, vs)); }
%sig
  requires variants_rooted(*self, *matcher)
  ensures gen_json(*self, jv(*value), *context, *matcher, ok_json(r))
%body_start
  broadcast use axiom_jv;
%before_loop 0
  proof { assert(jvs(result@).len() == jvs(vec@).len()); lemma_items_start(variants@, *context, *matcher, jvs(vec@), jvs(result@)); }
%loop 0 ita
  invariant ita.seq().len() == vec@.len(), result@.len() == vec@.len(), forall|k: int| 0 <= k < vec@.len() ==> pair_at(k, #[trigger] ita.seq()[k], vec@), items_ok(variants@, *context, *matcher, jvs(vec@), jvs(result@), ita.index@)
%loop_start 0
  broadcast use axiom_jv; let ghost n = ita.index@; let ghost b0 = jvs(result@); let ghost a = jvs(vec@);
  proof { assert(pair_at(n, ita.seq()[n], vec@)); assert(jv(*value) == a[n]); assert(a[n] == b0[n]); }
%before `let mut handler`
  let ghost g = generators; proof { assert(all_rooted(g)) by { assert(variant_of(*matcher, jv(*value), variants@) is Some); } }
  let ghost mut vs: Seq<JV> = seq![jv(*value)];
%loop 1 itb
  invariant itb.seq() == vx_s1@, entries(g, vx_s1@), ran(vx_s1@, itb.index@, *context, *matcher, vs), vs[0] == a[n], vs.last() == jv(handler.value)
%loop_start 1
  let ghost k = itb.index@; let ghost es = vx_s1@; proof { assert(rooted(es[k].0)); assert(es[k] == (key, generator)); } let ghost v0 = vs;
%loop_end 1
  proof { vs = v0.push(jv(handler.value)); assert forall|j: int| 0 <= j < k + 1 implies applied(#[trigger] es[j].1, *context, *matcher, es[j].0, vs[j], vs[j + 1]) by { if j < k { assert(vs[j] == v0[j] && vs[j + 1] == v0[j + 1]); } } }
%loop_end 0
  proof { let b1 = jvs(result@); assert(item_ok(variants@, *context, *matcher, a[n], b1[n])); assert forall|i: int| 0 <= i < a.len() && i != n implies b0[i] == #[trigger] b1[i] by {} }
