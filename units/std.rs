// ---- shared prelude: contracts assumed for std items, helpers the mechanical rewrites expand to ----
use std::iter::Peekable;

use vstd::string::StringSliceAdditionalSpecFns;
pub mod anyhow { pub type Result<T> = std::result::Result<T, crate::VxError>; }
verus! {
#[verifier::external_body]
pub struct VxError { _p: () }
#[verifier::external] impl std::fmt::Debug for VxError { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
/// stands for the value built by anyhow!(..); the message is not modelled
#[verifier::external_body]
pub fn vx_anyhow() -> (r: VxError) { unimplemented!() }
/// stands for format!(..) where the text is not part of any contract
#[verifier::external_body]
pub fn vx_fmt_opaque() -> (r: String) { unimplemented!() }
/// stands for panic!/unreachable!: must be proved unreachable
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub fn vx_fmt_ok() -> (r: Result<(), VxError>) ensures r is Ok { Ok(()) }

/// decimal digits of a natural number, as printed by Display for unsigned integers
pub open spec fn digit(n: nat) -> char { ((48 + n) as u8) as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
  if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
/// Display, as used by format!/write! with `{}`
pub trait VxDisp {
  spec fn disp(&self) -> Seq<char>;
  fn vx_disp(&self) -> (r: String) ensures r@ == self.disp();
}
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
  #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] }
  #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
  fn vx_disp(&self) -> (r: String) { (**self).vx_disp() } }

/// `==` between string-like values of different types
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// no Rust allocation is larger than isize::MAX bytes
pub axiom fn axiom_str_size(s: &str) ensures vstd::utf8::encode_utf8(s@) == s.spec_bytes(), s.spec_bytes().len() <= isize::MAX as nat;
pub proof fn lemma_str_nonempty(s: &str) requires s@.len() > 0 ensures 0 < s.spec_bytes().len() <= isize::MAX as nat {
  axiom_str_size(s); reveal_with_fuel(vstd::utf8::encode_utf8, 2);
}
}
verus! {
/// String::push_str of a literal
pub fn vx_push_lit(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { s.push_str(l) }
}
