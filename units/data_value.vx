%unit data_value
%include std.rs
%include json_val.rs
%src rust/pact_models/src/expression_parser.rs
%enum DataType
%struct DataValue
%include data_spec.rs
%fn From<Value> for DataType::from
%free
%rename datatype_from
%sub `Self` => `DataType`
%sub `s.to_ascii_uppercase().as_str()` => `vx_lit(vx_upper(&s).as_str())`
%sig
  ensures r == dt_of(jv(v))
%body_start
  proof { broadcast use axiom_jv; lemma_dt_lits(); }
%fn Into<Value> for DataType::into
%free
%rename datatype_into
%sub `(self)` => `(s_: DataType)`
%sub `match self` => `match s_`
%sig
  ensures jv(r) == JV::Str(dt_text(s_))
%body_start
  proof { broadcast use axiom_jv; lemma_dt_lits(); }
%prelude
verus! {
/// the names of the data types survive JSON
pub proof fn theorem_data_type_round_trip(t: DataType) ensures dt_of(JV::Str(dt_text(t))) == t { lemma_dt_lits(); lemma_dt_upper(t); }
/// a converted integer is in range, and an integer that is in range is converted to itself
pub proof fn theorem_int_exact(v: JV, t: DataType, signed: bool, lo: int, hi: int)
  requires lo <= 0, hi >= 1
  ensures to_int(v, t, signed, lo, hi) matches Some(i) ==> lo <= i && i <= hi,
    v matches JV::Num(NV::Pos(u)) ==> to_int(v, t, signed, lo, hi) == in_range(u as int, lo, hi), v matches JV::Num(NV::Neg(n)) ==> to_int(v, t, signed, lo, hi) == in_range(n as int, lo, hi) {}
/// the JSON form has the type asked for
pub proof fn theorem_json_type(v: JV, t: DataType) ensures to_json(v, t) matches Some(j) ==> match t { DataType::STRING => j is Str, DataType::INTEGER => j is Num && !(j->Num_0 is Float), DataType::FLOAT | DataType::DECIMAL => j is Null || (j is Num && j->Num_0 is Float), DataType::BOOLEAN => j is Bool, DataType::RAW => j == v } {}
}
%fn float_to_int
%fngen <T: VxInt>
%sub `anyhow::Result<T>` => `Result<T, VxError>`
%sub `val.is_nan()` => `vx_is_nan(val)`
%sub `T::try_from(val as i128)` => `T::vx_try(vx_f64_i128(val))`
%opt
%sig
  requires i128::MIN < T::lo(), T::hi() < i128::MAX
  ensures is_res(match r { Ok(v) => Ok(v.val()), Err(e) => Err(e) }, f_int(val, T::lo(), T::hi()))
%fn DataType::wrap
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub `anyhow::Result<DataValue>` => `Result<DataValue, VxError>`
%closure 0 |val: Value| -> (o: DataValue) ensures o.wrapped == val, o.data_type == *self
%sig
  ensures r is Ok == result is Ok, r is Ok ==> r->Ok_0.wrapped == result->Ok_0 && r->Ok_0.data_type == *self
%fn DataValue::as_json
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub `s.parse::<u64>()` => `vx_parse::<u64>(s)`
%sub `s.parse::<i64>()` => `vx_parse::<i64>(s)`
%sub `s.parse::<f64>()` => `vx_parse::<f64>(s)`
%sub `s.parse::<bool>()` => `vx_parse::<bool>(s)`
%sub 2 `n as f64` => `vx_as_f64(n)`
%sub `n > 0.0` => `vx_f_pos(n)`
%opt
%closure 0 |val: i64| -> (o: Value) ensures jv(o) == jint(val as int)
%closure 2 |val: u64| -> (o: Value) ensures jv(o) == jint(val as int)
%closure 3 |_e: VxError| -> (o: Result<Value, VxError>) ensures is_res(match o { Ok(v) => Ok(jv(v)), Err(e) => Err(e) }, match i64::of_text(s@) { Some(i) => Some(jint(i as int)), None => None })
%closure 4 |val: i64| -> (o: Value) ensures jv(o) == jint(val as int)
%closure 6 |val: f64| -> (o: Value) ensures jv(o) == jfloat(val)
%closure 8 |val: bool| -> (o: Value) ensures jv(o) == JV::Bool(val)
%sig
  ensures is_res(match r { Ok(v) => Ok(jv(v)), Err(e) => Err(e) }, to_json(jv(self.wrapped), self.data_type))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; broadcast use lemma_dnum; }
%fn TryFrom<DataValue> for u16::try_from
%free
%rename u16_try_from
%sub `Result<Self, Self::Error>` => `Result<u16, VxError>`
%sub `s.parse::<u16>()` => `vx_parse::<u16>(s)`
%sub `s.parse::<f64>()` => `vx_parse::<f64>(s)`
%opt
%sig
  ensures is_res(match r { Ok(v) => Ok(v as int), Err(e) => Err(e) }, to_int(jv(value.wrapped), value.data_type, false, u16::MIN as int, u16::MAX as int))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn TryFrom<DataValue> for u64::try_from
%free
%rename u64_try_from
%sub `Result<Self, Self::Error>` => `Result<u64, VxError>`
%sub `s.parse::<u64>()` => `vx_parse::<u64>(s)`
%sub `s.parse::<f64>()` => `vx_parse::<f64>(s)`
%opt
%sig
  ensures is_res(match r { Ok(v) => Ok(v as int), Err(e) => Err(e) }, to_int(jv(value.wrapped), value.data_type, false, u64::MIN as int, u64::MAX as int))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn TryFrom<DataValue> for i64::try_from
%free
%rename i64_try_from
%sub `i64::try_from(n)` => `vx_i64_of_u64(n)`
%sub `Result<Self, Self::Error>` => `Result<i64, VxError>`
%sub `s.parse::<i64>()` => `vx_parse::<i64>(s)`
%sub `s.parse::<f64>()` => `vx_parse::<f64>(s)`
%opt
%sig
  ensures is_res(match r { Ok(v) => Ok(v as int), Err(e) => Err(e) }, to_int(jv(value.wrapped), value.data_type, true, i64::MIN as int, i64::MAX as int))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn TryFrom<DataValue> for f64::try_from
%free
%rename f64_try_from
%sub `Result<Self, Self::Error>` => `Result<f64, VxError>`
%sub `s.parse::<i64>()` => `vx_parse::<i64>(s)`
%sub `s.parse::<f64>()` => `vx_parse::<f64>(s)`
%sub 2 `n as f64` => `vx_as_f64(n)`
%sub `val as f64` => `vx_as_f64(val)`
%opt
%closure 1 |val: i64| -> (o: f64) ensures o == f_of(val as int)
%sig
  ensures is_res(r, to_float(jv(value.wrapped), value.data_type))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn TryFrom<DataValue> for bool::try_from
%free
%rename bool_try_from
%sub `Result<Self, Self::Error>` => `Result<bool, VxError>`
%sub `s.parse::<bool>()` => `vx_parse::<bool>(s)`
%sub `n > 0.0` => `vx_f_pos(n)`
%opt
%sig
  ensures is_res(r, to_bool(jv(value.wrapped)))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/expression_parser.rs
%fn Display for DataValue::fmt
%rename fmt_
%fmt exact
%sub `&mut Formatter<'_>` => `&mut String`
%sub `std::fmt::Result` => `Result<(), VxError>`
%sub 3 `Err(std::fmt::Error)` => `Err(vx_anyhow())`
%sub `f64::try_from(` => `f64_try_from(`
%sub `bool::try_from(` => `bool_try_from(`
%sig
  ensures r is Ok == to_text(jv(self.wrapped), self.data_type) is Some, r is Ok ==> final(f)@ == old(f)@ + to_text(jv(self.wrapped), self.data_type)->0
