#[macro_use] mod fw;
mod apply;
mod conv;
mod ctypes;
mod hparts;
mod valgens;
mod defs;
mod exprs;
mod datet;
mod gen;
mod gens;
mod rulesj;
mod inter;
mod interj;
mod merges;
mod pactj;
mod parts;
mod paths;
mod rules;
mod texts;
mod values;
use fw::Ctx;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
  let prop = a[1].clone();
  let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
  let known = get("--known").map(|f| std::fs::read_to_string(f).unwrap_or_default()).unwrap_or_default();
  let known: Vec<(String, String)> = known.lines().filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
    .filter(|v| v["property"] == prop.as_str()).map(|v| (v["kind"].as_str().unwrap_or("").into(), v["case"].as_str().unwrap_or("").into())).collect();
  if let Some(f) = get("--literals") { fw::load_lits(&f); }
  let only = get("--only").and_then(|s| s.parse().ok());
  let thorough = get("--tier").as_deref() == Some("thorough");
  let (seed, budget, hang, out, progress) = (num("--seed", 1), num("--budget", 60), num("--hang", 20), get("--out"), get("--progress"));
  // deep recursion in the code under test must not be mistaken for a defect of the harness
  let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
    let mut c = Ctx::new(&prop, seed, thorough, only, known, budget, hang, progress);
    let f: fn(&mut Ctx) = match prop.as_str() {
      "C01" => paths::c01, "C02" => paths::c02, "C03" => paths::c03,
      "C06" => texts::c06,
      "C08" => gens::c08, "C09" => rulesj::c09, "C10" => rulesj::c10, "C11" => inter::c11, "C12" => values::c12, "C19" => parts::c19, "C20" => interj::c20, "C24" => pactj::c24, "C14" => merges::c14, "C18" => apply::c18, "C07" => valgens::c07, "C21" => datet::c21, "C22" => exprs::c22, "C23" => defs::c23, "C15" => ctypes::c15, "C17" => conv::c17, "C16" => hparts::c16, "C13" => values::c13,
      "C04" => rules::c04, "C05" => rules::c05,
      _ => { eprintln!("no suite for {}", prop); std::process::exit(9) }
    };
    f(&mut c);
    let r = serde_json::to_string_pretty(&c.report()).unwrap();
    match out { Some(o) => std::fs::write(o, r).unwrap(), None => println!("{}", r) }
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
  }).unwrap();
  let _ = t.join();
  std::process::exit(98);
}
