//! Small deterministic harness: every case has an index, a kind and a printed description; a case
//! fails when its closure returns Err, panics, or does not return (watchdog).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use serde_json::{json, Value};

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
  pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
  pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
  pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
  pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
  /// biased to short strings; now and then one character from anywhere, or a literal of the program, is put in
  pub fn string(&mut self, alphabet: &[char], max: usize) -> String {
    let n = if self.chance(1, 8) { self.below(max * 3 + 1) } else { self.below(max + 1) }; let s: String = (0..n).map(|_| *self.pick(alphabet)).collect();
    if self.chance(1, 10) { self.perturb(&s) } else { s }
  }
  /// any character, mostly ones that are unlike their neighbours in some table or class
  pub fn weird(&mut self) -> char {
    match self.below(4) { 0 => char::from(self.below(128) as u8), 1 => char::from_u32(self.below(0xD800) as u32).unwrap_or('x'),
      _ => *self.pick(&['\0', '\u{1}', '\u{b}', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{301}', '\u{345}', 'ß', 'İ', 'ſ', '\u{212a}', 'Σ', 'ς', '²', '½', 'Ⅷ', '٣', '𝟗', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{e000}', '𐐀', '😀', '\u{10ffff}', '\u{d7ff}', 'ａ', 'ǅ', '\u{1f1e6}']) } }
  pub fn lit(&mut self) -> String { let l = lits(); if !l.new_strings.is_empty() && self.chance(2, 3) { self.pick(&l.new_strings).clone() } else if l.strings.is_empty() { String::new() } else { self.pick(&l.strings).clone() } }
  pub fn lit_num(&mut self) -> u64 { let l = lits(); if !l.new_numbers.is_empty() && self.chance(2, 3) { let n = *self.pick(&l.new_numbers); if self.chance(1, 3) { n.wrapping_add(self.below(3) as u64).wrapping_sub(1) } else { n } }
    else { match self.below(3) { 0 => 1u64 << self.below(64), 1 => (1u64 << self.below(64)).wrapping_sub(1), _ => (1u64 << self.below(64)).wrapping_add(self.below(100) as u64) } } }
  /// a text close to the given one
  pub fn perturb(&mut self, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect(); let i = self.below(c.len() + 1);
    match self.below(10) {
      0 => { let l: Vec<char> = self.lit().chars().collect(); c.splice(i..i, l); } 1 => { return self.lit() } 2 => { c.truncate(i); }
      3 if i < c.len() => { c.remove(i); } 4 if i < c.len() => { let x = c[i]; c.insert(i, x); } 5 => { return if self.chance(1, 2) { s.to_uppercase() } else { s.to_lowercase() } }
      6 => { c.push(self.weird()); } 7 => { let w = self.weird(); c.insert(0, w); } _ => { let w = self.weird(); c.insert(i, w); } }
    c.into_iter().collect()
  }
}
/// literals of the program under test (tools/literals.py), those not in the committed list separately
#[derive(Default)]
pub struct Lits { pub strings: Vec<String>, pub numbers: Vec<u64>, pub new_strings: Vec<String>, pub new_numbers: Vec<u64> }
static LITS: std::sync::OnceLock<Lits> = std::sync::OnceLock::new();
pub fn lits() -> &'static Lits { LITS.get_or_init(Lits::default) }
pub fn load_lits(file: &str) {
  let v: Value = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
  let s = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
  let n = |k: &str| v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
  let _ = LITS.set(Lits { strings: s("strings"), numbers: n("numbers"), new_strings: s("new_strings"), new_numbers: n("new_numbers") });
}

pub struct Failure { pub index: u64, pub kind: String, pub desc: String, pub why: String }

pub struct Ctx {
  pub prop: String, pub seed: u64, pub thorough: bool, pub only: Option<u64>, pub known: Vec<(String, String)>, pub known_hit: Vec<(String, String, String)>,
  pub evals: u64, pub nontrivial: HashSet<u64>, pub samples: BTreeMap<String, Vec<String>>, pub counts: BTreeMap<String, u64>, pub failures: Vec<Failure>,
  index: u64, pub start: Instant, pub budget: Duration, beat: Arc<AtomicU64>, progress: Option<String>,
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }

impl Ctx {
  pub fn new(prop: &str, seed: u64, thorough: bool, only: Option<u64>, known: Vec<(String, String)>, budget: u64, hang: u64, progress: Option<String>) -> Ctx {
    std::panic::set_hook(Box::new(|i| {
      let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
      let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
      LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", l, m));
    }));
    let beat = Arc::new(AtomicU64::new(0));
    let b = beat.clone();
    std::thread::spawn(move || {
      let mut last = u64::MAX; let mut since = Instant::now();
      loop {
        std::thread::sleep(Duration::from_millis(250));
        let now = b.load(Ordering::Relaxed);
        if now != last { last = now; since = Instant::now(); }
        else if since.elapsed() > Duration::from_secs(hang) { println!("HANG {}", last); std::process::exit(97); }
      }
    });
    Ctx { prop: prop.into(), seed, thorough, only, known, known_hit: vec![], evals: 0, nontrivial: HashSet::new(), samples: BTreeMap::new(), counts: BTreeMap::new(), failures: vec![], index: 0, start: Instant::now(), budget: Duration::from_secs(budget), beat, progress }
  }
  pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(salt)) }
  /// scale a count by tier
  pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 20 } else { quick } }
  pub fn stop(&self) -> bool { self.failures.len() >= 5 || (self.only.is_none() && self.start.elapsed() > self.budget) }
  /// Ok(true): held and was not trivial; Ok(false): held trivially; Err: violated
  pub fn case<F: FnOnce() -> Result<bool, String>>(&mut self, kind: &str, desc: String, f: F) {
    let idx = self.index; self.index += 1;
    self.beat.store(idx, Ordering::Relaxed);
    if self.failures.len() >= 5 { return; }
    if let Some(o) = self.only { if o != idx { return; } println!("case {} [{}]: {}", idx, kind, desc); }
    if let Some(p) = &self.progress { let _ = std::fs::write(p, format!("{}\n{}\n{}", idx, kind, desc)); }
    self.evals += 1;
    *self.counts.entry(kind.into()).or_insert(0) += 1;
    let r = match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())) };
    match r {
      Ok(nt) => {
        if nt { self.nontrivial.insert(h(&(kind, &desc))); }
        let s = self.samples.entry(kind.into()).or_default();
        if s.len() < 2 || (s.len() < 4 && idx % 997 == 0) { s.push(desc.chars().take(300).collect()); }
        if self.only.is_some() { println!("held"); }
      }
      Err(why) => {
        if self.only.is_some() { println!("FAILED: {}", why); }
        if self.known.iter().any(|(k, d)| k == kind && *d == desc) { self.known_hit.push((kind.into(), desc, why)); }
        else { self.failures.push(Failure { index: idx, kind: kind.into(), desc, why }); }
      }
    }
  }
  pub fn report(&self) -> Value {
    json!({"property": self.prop, "seed": self.seed, "evaluations": self.evals, "distinct_nontrivial": self.nontrivial.len(), "counts": self.counts, "samples": self.samples,
      "wall_s": self.start.elapsed().as_secs_f64(),
      "known": self.known_hit.iter().map(|(k, d, w)| json!({"kind": k, "case": d, "why": w})).collect::<Vec<_>>(),
      "failures": self.failures.iter().map(|f| json!({"index": f.index, "kind": f.kind, "case": f.desc, "why": f.why})).collect::<Vec<_>>()})
  }
}

#[macro_export]
macro_rules! ens { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! eqv { ($a:expr, $b:expr, $w:expr) => { { let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, want {:?}", $w, a, b)); } } } }
