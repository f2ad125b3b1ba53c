//! vx: mechanical extraction of real functions from /repo into one Verus file.
//! The text of every item is copied verbatim from the source by span; the only changes are
//!  (1) the edits listed in `Rewrites` below (each is counted and reported in the meta file) and
//!  (2) insertions of specification text (contracts, invariants, proof blocks) from the unit file.
use std::collections::BTreeMap;
use std::fs;
use proc_macro2::{Span, TokenStream, TokenTree, Delimiter};
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::punctuated::Punctuated;
use syn::*;

#[derive(Clone, Debug)]
enum Piece { T(String), S(usize, usize) }

#[derive(Clone, Debug)]
struct Edit { a: usize, b: usize, prio: i32, rep: Vec<Piece>, line: usize }

/// the configuration that the repository's build compiles: its features and target are on
fn cfg_on(a: &Attribute) -> Option<bool> {
  if !a.path().is_ident("cfg") { return None; }
  let t = quote::quote!(#a).to_string().replace(' ', "");
  let t = t.trim_start_matches("#[cfg(").trim_end_matches(")]").to_string();
  let known = |t: &str| t == "feature=\"datetime\"" || t == "feature=\"form_urlencoded\"" || t == "target_family=\"wasm\"";
  if known(&t) { return Some(true); }
  if let Some(n) = t.strip_prefix("not(") { let n = n.strip_suffix(')').unwrap_or(n); if known(n) { return Some(false); } }
  None
}
/// blanks what the configuration leaves out (same length, so that positions stay)
fn configured(text: String) -> std::result::Result<String, String> {
  let file = syn::parse_file(&text).map_err(|e| e.to_string())?;
  let mut s = Src { path: String::new(), text, lines: vec![0], file: File { shebang: None, attrs: vec![], items: vec![] } };
  for (i, c) in s.text.char_indices() { if c == '\n' { s.lines.push(i + 1); } }
  struct V<'a> { s: &'a Src, cut: Vec<(usize, usize)> }
  impl<'a> V<'a> { fn at(&mut self, attrs: &[Attribute], sp: Span) -> bool { let mut on = true; for a in attrs { match cfg_on(a) { Some(true) => self.cut.push(self.s.range(a.span())), Some(false) => on = false, None => {} } } if !on { self.cut.push(self.s.range(sp)); } on } }
  impl<'a, 'ast> Visit<'ast> for V<'a> {
    fn visit_stmt(&mut self, x: &'ast Stmt) {
      let on = match x { Stmt::Local(l) => self.at(&l.attrs, x.span()), Stmt::Macro(m) => self.at(&m.attrs, x.span()), Stmt::Expr(Expr::Block(b), _) => self.at(&b.attrs, x.span()), Stmt::Expr(Expr::MethodCall(b), _) => self.at(&b.attrs, x.span()), Stmt::Expr(Expr::Call(b), _) => self.at(&b.attrs, x.span()), _ => true };
      if on { visit::visit_stmt(self, x); } }
    fn visit_item(&mut self, x: &'ast syn::Item) { let on = match x { syn::Item::Fn(f) => self.at(&f.attrs, x.span()), syn::Item::Impl(f) => self.at(&f.attrs, x.span()), syn::Item::Mod(f) => self.at(&f.attrs, x.span()), syn::Item::Const(f) => self.at(&f.attrs, x.span()), syn::Item::Static(f) => self.at(&f.attrs, x.span()), _ => true }; if on { visit::visit_item(self, x); } }
    fn visit_impl_item_fn(&mut self, x: &'ast ImplItemFn) { if self.at(&x.attrs, x.span()) { visit::visit_impl_item_fn(self, x); } }
    fn visit_arm(&mut self, x: &'ast Arm) { if self.at(&x.attrs, x.span()) { visit::visit_arm(self, x); } }
  }
  let mut v = V { s: &s, cut: vec![] }; v.visit_file(&file); let cut = v.cut;
  let mut b: Vec<u8> = s.text.clone().into_bytes();
  for (p, q) in cut { for c in &mut b[p..q] { if *c != b'\n' { *c = b' '; } } }
  String::from_utf8(b).map_err(|e| e.to_string())
}

struct Src { path: String, text: String, lines: Vec<usize>, file: File }

impl Src {
  fn load(repo: &str, path: &str) -> std::result::Result<Src, String> {
    let full = format!("{}/{}", repo, path);
    let text = fs::read_to_string(&full).map_err(|e| format!("{}: {}", full, e))?;
    let text = configured(text).map_err(|e| format!("{}: {}", full, e))?;
    let mut lines = vec![0usize];
    for (i, c) in text.char_indices() { if c == '\n' { lines.push(i + 1); } }
    let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", full, e))?;
    Ok(Src { path: path.into(), text, lines, file })
  }
  fn off(&self, lc: proc_macro2::LineColumn) -> usize {
    let ls = self.lines[lc.line - 1];
    let mut o = ls;
    for (n, (i, c)) in self.text[ls..].char_indices().enumerate() {
      if n == lc.column { o = ls + i; return o; }
      o = ls + i + c.len_utf8();
    }
    o
  }
  fn range(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
}

fn render(src: &str, a: usize, b: usize, edits: &[Edit]) -> String {
  // edits inside [a,b], outermost first
  let mut es: Vec<&Edit> = edits.iter().filter(|e| e.a >= a && e.b <= b).collect();
  es.sort_by(|x, y| x.a.cmp(&y.a)
    .then_with(|| (x.b > x.a).cmp(&(y.b > y.a)))      // pure insertions first
    .then_with(|| y.b.cmp(&x.b))
    .then_with(|| x.prio.cmp(&y.prio)));
  let mut out = String::new();
  let mut pos = a;
  for e in es {
    if e.a < pos { continue; } // nested in an edit already rendered
    out.push_str(&src[pos..e.a]);
    let inner: Vec<Edit> = edits.iter().filter(|x| {
      !(x.a == e.a && x.b == e.b && x.prio == e.prio) && x.a >= e.a && x.b <= e.b
        && !(e.prio == -21 && x.a == x.b && (x.a == e.a || (x.a == e.b && x.prio == 5)))
    }).cloned().collect();
    for p in &e.rep {
      match p {
        Piece::T(t) => out.push_str(t),
        Piece::S(x, y) => out.push_str(&render(src, *x, *y, &inner)),
      }
    }
    pos = e.b;
  }
  out.push_str(&src[pos..b]);
  out
}

#[derive(Default, Clone, Debug)]
struct FnSpec {
  path: String, src: String, trusted: bool, fmt_exact: bool, fmt_args: bool, fmt_str: bool, rename: Option<String>, attrs: Vec<String>,
  ret: Option<String>, sig: String, loops: BTreeMap<usize, (String, String)>, // n -> (itername, invariant text)
  ins: Vec<(String, usize, String)>, subs: Vec<(usize, String, String)>, closures: BTreeMap<usize, String>,
  free: bool, generics: Option<String>, fngen: Option<String>, vac: bool, nodesugar: bool, chain: bool, lazy: bool, opt: bool, eq: bool, bty: BTreeMap<usize, String>, basebind: Vec<usize>, basewrap: BTreeMap<usize, String>, self_ty: Option<String>, scope: Option<String>, subscope: Vec<(String,String)>,
}

thread_local! { static INCLUDED: std::cell::RefCell<std::collections::HashSet<String>> = Default::default(); }
enum Item2 { Raw(String), Pin { src: String, text: String }, Fn(FnSpec), Ty { kind: String, name: String, src: String, opts: String, subs: Vec<(usize, String, String)> } }

struct Ctx<'a> {
  src: &'a Src, edits: Vec<Edit>, nloop: usize, nclos: usize, spec: &'a FnSpec, log: BTreeMap<String, usize>, lost: Vec<String>, vac: bool,
  loop_ranges: Vec<(usize, usize, usize, usize, usize)>, // stmt start, body open+1, body close, end
}

impl<'a> Ctx<'a> {
  fn e(&mut self, a: usize, b: usize, prio: i32, rep: Vec<Piece>) { let line = self.src.text[..a].matches('\n').count() + 1; self.edits.push(Edit { a, b, prio, rep, line }); }
  fn hit(&mut self, k: &str) { *self.log.entry(k.into()).or_insert(0) += 1; }
  fn fmt_pieces(&mut self, m: &Macro, skip: usize) -> Option<(Vec<Expr>, Vec<(String, Option<usize>, Option<String>)>, Vec<Expr>)> {
    // returns (leading exprs, segments (literal, arg index or inline ident), args)
    let args = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let v: Vec<Expr> = args.into_iter().collect();
    if v.len() <= skip { return None; }
    let lit = match &v[skip] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
    let mut segs = vec![]; let mut cur = String::new(); let mut n = 0; let mut it = lit.chars().peekable();
    while let Some(c) = it.next() {
      match c {
        '{' => if it.peek() == Some(&'{') { it.next(); cur.push('{'); } else {
          let mut name = String::new();
          loop { match it.next() { Some('}') => break, Some(c) => name.push(c), None => return None } }
          if name.is_empty() { segs.push((std::mem::take(&mut cur), Some(n), None)); n += 1; }
          else if name.chars().all(|c| c.is_alphanumeric() || c == '_') && !name.chars().next().unwrap().is_numeric() { segs.push((std::mem::take(&mut cur), None, Some(name))); }
          else { return None; }
        },
        '}' => { it.next(); cur.push('}'); }
        c => cur.push(c)
      }
    }
    segs.push((cur, None, None));
    Some((v[..skip].to_vec(), segs, v[skip + 1..].to_vec()))
  }
  fn mac(&mut self, m: &Macro, range: (usize, usize), stmt: bool) {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let (a, b) = range;
    match name.as_str() {
      "trace" | "debug" | "info" | "warn" | "error" => { self.hit("drop-tracing-macro"); self.e(a, b, 0, vec![Piece::T(if stmt { String::new() } else { "()".into() })]); }
      "anyhow" => { self.hit("anyhow!->vx_anyhow() (message dropped)"); self.e(a, b, 0, vec![Piece::T("vx_anyhow()".into())]); }
      "bail" => { self.hit("bail!->return Err(vx_anyhow()) (message dropped)"); self.e(a, b, 0, vec![Piece::T(if stmt { "return Err(vx_anyhow());".into() } else { "return Err(vx_anyhow())".into() })]); }
      "panic" | "unreachable" | "unimplemented" | "todo" => { self.hit("panic!->vx_panic() (requires false)"); self.e(a, b, 0, vec![Piece::T(if stmt {"vx_panic();".into()} else {"vx_panic()".into()})]); }
      "format" if !self.spec.fmt_exact && self.spec.fmt_args => {
        self.hit("format!->vx_fmt_opaque() (argument expressions still evaluated)");
        let mut rep = vec![Piece::T("{ ".into())];
        if let Ok(args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
          for x in args.iter().skip(1) { if !matches!(x, Expr::Path(_) | Expr::Field(_) | Expr::Lit(_)) {
            self.visit_expr(x); let r = self.src.range(x.span()); rep.push(Piece::T("let _ = &(".into())); rep.push(Piece::S(r.0, r.1)); rep.push(Piece::T("); ".into())); } }
        }
        rep.push(Piece::T("vx_fmt_opaque() }".into()));
        self.e(a, b, 0, rep);
      }
      "format" if !self.spec.fmt_exact => { self.hit("format!->vx_fmt_opaque() (unspecified text)"); self.e(a, b, 0, vec![Piece::T("vx_fmt_opaque()".into())]); }
      "format" | "write" => {
        let skip = if name == "write" { 1 } else { 0 };
        match self.fmt_pieces(m, skip) {
          Some((lead, segs, args)) => {
            self.hit(&format!("{}!->push/push_str/VxDisp sequence", name));
            let mut rep = vec![];
            let w: Vec<Piece> = if skip == 1 { let r = self.src.range(lead[0].span()); self.visit_expr(&lead[0]); vec![Piece::S(r.0, r.1)] } else { vec![Piece::T("vx_buf".into())] };
            if skip == 0 { rep.push(Piece::T("{ let mut vx_buf = String::new(); ".into())); } else { rep.push(Piece::T("{ ".into())); }
            for x in &args { self.visit_expr(x); }
            for (lit, idx, inl) in segs {
              if self.spec.fmt_str && !lit.is_empty() { rep.push(Piece::T(if skip == 0 { "vx_push_lit(&mut vx_buf".into() } else { "vx_push_lit(".to_string() })); if skip == 1 { rep.extend(w.clone()); } rep.push(Piece::T(format!(", {:?}); ", lit))); }
              else { for ch in lit.chars() { rep.extend(w.clone()); rep.push(Piece::T(format!(".push({:?}); ", ch))); } }
              if let Some(i) = idx { if i >= args.len() { self.lost.push("format args".into()); return; }
                let r = self.src.range(args[i].span());
                rep.push(Piece::T("{ let vx_d = (".into())); rep.push(Piece::S(r.0, r.1)); rep.push(Piece::T(").vx_disp(); ".into())); rep.extend(w.clone()); rep.push(Piece::T(".push_str(vx_d.as_str()); } ".into())); }
              if let Some(n) = inl { rep.push(Piece::T(format!("{{ let vx_d = {}.vx_disp(); ", n))); rep.extend(w.clone()); rep.push(Piece::T(".push_str(vx_d.as_str()); } ".into())); }
            }
            rep.push(Piece::T(if skip == 0 { "vx_buf }".into() } else { "vx_fmt_ok() }".to_string() }));
            if stmt { rep.push(Piece::T(";".into())); }
            self.e(a, b, 0, rep);
          }
          None => { if name == "format" { self.hit("format!->vx_fmt_opaque() (unspecified text)"); self.e(a, b, 0, vec![Piece::T("vx_fmt_opaque()".into())]); } else { self.lost.push("write! shape".into()); } }
        }
      }
      "json" => {
        self.hit("json!->Value constructors");
        let mut rep = vec![];
        let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        self.json(&toks, &mut rep);
        self.e(a, b, 0, rep);
      }
      "hashmap" | "btreemap" => {
        self.hit(&format!("{}!->insert sequence", name));
        let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        let mut rep = vec![Piece::T(format!("{{ let mut vx_m = {}::new(); ", if name == "hashmap" { "HashMap" } else { "BTreeMap" }))];
        for ent in split_commas(&toks) {
          if let Some(p) = ent.windows(2).position(|w| is_p(&w[0], '=') && is_p(&w[1], '>')) {
            rep.push(Piece::T("vx_m.insert(".into())); self.expr_toks(&ent[..p], &mut rep); rep.push(Piece::T(", ".into()));
            self.expr_toks(&ent[p + 2..], &mut rep); rep.push(Piece::T("); ".into()));
          }
        }
        rep.push(Piece::T("vx_m }".into()));
        self.e(a, b, 0, rep);
      }
      "vec" | "matches" | "assert" | "debug_assert" => {
        let n0 = self.nloop;
        if let Ok(args) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) { for x in &args { self.visit_expr(x); }
          // a loop may not come out of a macro
          if name == "vec" && self.nloop > n0 { self.hit("vec![..] -> push sequence"); let mut rep = vec![Piece::T("{ let mut vx_v = Vec::new(); ".into())]; for x in &args { let r = self.src.range(x.span()); rep.push(Piece::T("vx_v.push(".into())); rep.push(Piece::S(r.0, r.1)); rep.push(Piece::T("); ".into())); } rep.push(Piece::T("vx_v }".into())); self.e(a, b, 0, rep); }
        }
      }
      _ => {}
    }
  }
  fn expr_toks(&mut self, toks: &[TokenTree], rep: &mut Vec<Piece>) {
    if toks.is_empty() { return; }
    let ts: TokenStream = toks.iter().cloned().collect();
    if let Ok(x) = syn::parse2::<Expr>(ts) { self.visit_expr(&x); }
    let a = self.src.off(toks[0].span().start()); let b = self.src.off(toks[toks.len() - 1].span().end());
    rep.push(Piece::S(a, b));
  }
  fn json(&mut self, toks: &[TokenTree], rep: &mut Vec<Piece>) {
    if toks.len() == 1 {
      if let TokenTree::Group(g) = &toks[0] {
        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
        match g.delimiter() {
          Delimiter::Brace => {
            rep.push(Piece::T("{ let mut vx_o = JMap::new(); ".into()));
            for ent in split_commas(&inner) {
              if let Some(p) = ent.iter().position(|t| is_p(t, ':')) {
                rep.push(Piece::T("vx_o.insert(vx_json_key(".into())); self.expr_toks(&ent[..p], rep); rep.push(Piece::T("), ".into()));
                self.json(&ent[p + 1..], rep); rep.push(Piece::T("); ".into()));
              }
            }
            rep.push(Piece::T("Value::Object(vx_o) }".into()));
            return;
          }
          Delimiter::Bracket => {
            rep.push(Piece::T("{ let mut vx_a = Vec::new(); ".into()));
            for ent in split_commas(&inner) { rep.push(Piece::T("vx_a.push(".into())); self.json(&ent, rep); rep.push(Piece::T("); ".into())); }
            rep.push(Piece::T("Value::Array(vx_a) }".into()));
            return;
          }
          _ => {}
        }
      }
      if let TokenTree::Ident(i) = &toks[0] { if i == "null" { rep.push(Piece::T("Value::Null".into())); return; } }
    }
    rep.push(Piece::T("(&(".into())); self.expr_toks(toks, rep); rep.push(Piece::T(")).vx_to_value()".into()));
  }
  fn spec_loop(&mut self, n: usize) -> (String, String) {
    self.spec.loops.get(&n).cloned().unwrap_or_default()
  }
  fn loop_ins(&mut self, n: usize, start: usize, open_end: usize, close_start: usize, end: usize) {
    self.loop_ranges.push((n, start, open_end, close_start, end));
  }
}

fn is_p(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn split_commas(t: &[TokenTree]) -> Vec<Vec<TokenTree>> {
  let mut v = vec![]; let mut cur = vec![];
  for x in t { if is_p(x, ',') { if !cur.is_empty() { v.push(std::mem::take(&mut cur)); } } else { cur.push(x.clone()); } }
  if !cur.is_empty() { v.push(cur); } v
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
  // the statements that only build the text of an error (ariadne reports)
  fn visit_stmt(&mut self, s: &'ast Stmt) {
    let (a, b) = self.src.range(s.span());
    let t: String = self.src.text[a..b].chars().filter(|c| !c.is_whitespace()).collect();
    let local = matches!(s, Stmt::Local(_));
    if (local && (t.ends_with("=BytesMut::new().writer();") || t.contains("=Report::build(ReportKind::Error,") || t.ends_with("=from_utf8(&*buffer.get_ref())?.to_string();"))) || (matches!(s, Stmt::Expr(_, Some(_))) && t.starts_with("report.write((") && t.ends_with(",&mutbuffer)?;")) {
      self.hit("statements that build the text of an error dropped"); self.e(a, b, 0, vec![]);
    } else { visit::visit_stmt(self, s); }
  }
  fn visit_stmt_macro(&mut self, s: &'ast StmtMacro) { let r = self.src.range(s.span()); self.mac(&s.mac, r, true); }
  fn visit_expr_macro(&mut self, s: &'ast ExprMacro) { let r = self.src.range(s.span()); self.mac(&s.mac, r, false); }
  fn visit_item(&mut self, _: &'ast syn::Item) {}
  // `&P(ref x)` matches a reference exactly as `P(x)` does
  fn visit_pat_reference(&mut self, p: &'ast syn::PatReference) {
    struct Refs(Vec<(proc_macro2::Span, bool)>, bool);
    impl<'a> Visit<'a> for Refs {
      fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) { match i.by_ref { Some(r) => self.0.push((r.span, i.mutability.is_some())), None => self.1 = true } visit::visit_pat_ident(self, i) }
      fn visit_pat_reference(&mut self, _: &'a syn::PatReference) { self.1 = true }
    }
    let mut r = Refs(vec![], false); r.visit_pat(&p.pat);
    if !r.1 && p.mutability.is_none() && matches!(&*p.pat, Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Wild(_)) {
      self.hit("&P(ref x) -> P(x) (match ergonomics)");
      let (a, b) = self.src.range(p.and_token.span()); self.e(a, b, 0, vec![]);
      for (s, _) in r.0 { let (a, b) = self.src.range(s); self.e(a, b, 0, vec![]); }
    } else { visit::visit_pat_reference(self, p); }
  }
  fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
    let n = self.nloop; self.nloop += 1;
    let (it, inv) = self.spec_loop(n);
    let (a, b) = self.src.range(l.span());
    let (ea, eb) = self.src.range(l.expr.span());
    if self.spec.basebind.contains(&n) {
      let bw = match self.spec.basewrap.get(&n) { Some(w) => (format!("{}(", w), ")"), None => (String::new(), "") };
      self.e(a, eb, -21, vec![Piece::T(format!("{{ let vx_s{} = {}", n, bw.0)), Piece::S(ea, eb), Piece::T(format!("{}; {} ", bw.1, self.spec.ins.iter().filter(|i| i.0 == "after_base" && i.1 == n).map(|i| i.2.clone()).collect::<String>())), Piece::S(a, ea), Piece::T(format!("{}vx_s{}", if it.is_empty() { String::new() } else { format!("{}: ", it) }, n))]);
    }
    if self.spec.basebind.contains(&n) { self.e(b, b, 70, vec![Piece::T(" }".into())]); }
    else if !it.is_empty() { self.e(ea, ea, 0, vec![Piece::T(format!("{}: ", it))]); }
    let (ba, bb) = self.src.range(l.body.span());
    if !inv.is_empty() { self.e(ba, ba, 0, vec![Piece::T(format!("\n{}\n", inv))]); }
    self.loop_ins(n, a, ba + 1, bb - 1, b);
    visit::visit_expr_for_loop(self, l);
  }
  fn visit_expr_while(&mut self, l: &'ast ExprWhile) {
    let n = self.nloop; self.nloop += 1;
    let (_, inv) = self.spec_loop(n);
    let (a, b) = self.src.range(l.span());
    let (ba, bb) = self.src.range(l.body.span());
    if !inv.is_empty() { self.e(ba, ba, 0, vec![Piece::T(format!("\n{}\n", inv))]); }
    self.loop_ins(n, a, ba + 1, bb - 1, b);
    visit::visit_expr_while(self, l);
  }
  fn visit_expr_loop(&mut self, l: &'ast ExprLoop) {
    let n = self.nloop; self.nloop += 1;
    let (_, inv) = self.spec_loop(n);
    let (a, b) = self.src.range(l.span());
    let (ba, bb) = self.src.range(l.body.span());
    if !inv.is_empty() { self.e(ba, ba, 0, vec![Piece::T(format!("\n{}\n", inv))]); }
    self.loop_ins(n, a, ba + 1, bb - 1, b);
    visit::visit_expr_loop(self, l);
  }
  fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
    let n = self.nclos; self.nclos += 1;
    if let Some(h) = self.spec.closures.get(&n).cloned() {
      let (a, _b) = self.src.range(c.span());
      let (ba, bb) = self.src.range(c.body.span());
      let mut parts = h.splitn(3, ";;").map(|x| x.to_string()); let (h, pro, suf) = (parts.next().unwrap_or_default(), parts.next().unwrap_or_default(), parts.next().unwrap_or_default());
      let block = matches!(&*c.body, Expr::Block(_)) && pro.is_empty();
      self.hit("closure header annotated");
      self.e(a, ba, -1, vec![Piece::T(format!("{} {}", h, if block { String::new() } else { format!("{{ {} ", pro) }))]);
      if !block { self.e(bb, bb, 5, vec![Piece::T(format!(" }}{}", suf))]); } else if !suf.is_empty() { self.e(bb, bb, 5, vec![Piece::T(suf)]); }
    }
    visit::visit_expr_closure(self, c);
  }
  fn visit_expr_binary(&mut self, x: &'ast ExprBinary) {
    if self.spec.eq && matches!(x.op, BinOp::Eq(_) | BinOp::Ne(_)) {
      self.hit("== / != -> vx_eq (PartialEq::eq of the operands)");
      let (a, b) = self.src.range(x.span()); let l = self.src.range(x.left.span()); let r = self.src.range(x.right.span());
      visit::visit_expr_binary(self, x);
      self.e(a, b, -21, vec![Piece::T(if matches!(x.op, BinOp::Ne(_)) { "(!vx_eq(&(".into() } else { "(vx_eq(&(".to_string() }), Piece::S(l.0, l.1), Piece::T("), &(".into()), Piece::S(r.0, r.1), Piece::T(")))".into())]);
      return;
    }
    visit::visit_expr_binary(self, x);
  }
  fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
    let name = m.method.to_string();
    if self.spec.opt && self.combinator(m, &name) { return; }
    // the message added to an error is not modelled
    if (name == "with_context" || name == "context") && m.args.len() == 1 {
      self.hit(".context(..)/.with_context(..) dropped (error messages are not modelled)");
      let (_, b) = self.src.range(m.span()); let (_, rb) = self.src.range(m.receiver.span());
      self.visit_expr(&m.receiver); self.e(rb, b, 0, vec![]); return;
    }
    // the nth item of a chain without effects: computed from all of its items
    if self.spec.chain && name == "next" && m.args.is_empty() {
      let (inner, skip) = match &*m.receiver { Expr::MethodCall(s) if s.method == "skip" && s.args.len() == 1 => (&*s.receiver, Some(self.src.range(s.args[0].span()))), e => (e, None) };
      if let Expr::MethodCall(r) = inner { if matches!(r.method.to_string().as_str(), "map" | "filter" | "filter_map") && self.chain(r, "collect_vec", Some(inner)) {
        self.hit("next of an iterator chain -> vx_nth of its items");
        let (a, b) = self.src.range(m.span()); let q = self.src.range(inner.span());
        self.e(a, b, 0, vec![Piece::T("vx_nth(".into()), Piece::S(q.0, q.1), Piece::T(format!(", {})", skip.map_or("0", |x| &self.src.text[x.0..x.1])))]); return; } }
    }
    // the first item of a mutable slice that passes a test
    if self.spec.chain && name == "find" && m.args.len() == 1 { if let (Expr::MethodCall(x), Expr::Closure(_)) = (&*m.receiver, &m.args[0]) { if x.method == "iter_mut" && x.args.is_empty() {
      self.hit("iter_mut().find(p) -> vx_find_mut"); let (a, b) = self.src.range(m.span()); let r = self.src.range(x.receiver.span()); let q = self.src.range(m.args[0].span()); self.visit_expr(&x.receiver); self.visit_expr(&m.args[0]);
      self.e(a, b, 0, vec![Piece::T("vx_find_mut(&mut ".into()), Piece::S(r.0, r.1), Piece::T(", ".into()), Piece::S(q.0, q.1), Piece::T(")".into())]); return; } } }
    if name == "or_insert" && m.args.len() == 1 { if let Expr::MethodCall(x) = &*m.receiver { if x.method == "entry" && x.args.len() == 1 {
      self.hit("entry(k).or_insert(v) -> vx_or_insert"); let (a, b) = self.src.range(m.span()); let r = self.src.range(x.receiver.span()); let k = self.src.range(x.args[0].span()); let v = self.src.range(m.args[0].span());
      self.visit_expr(&x.receiver); self.visit_expr(&x.args[0]); self.visit_expr(&m.args[0]);
      self.e(a, b, 0, vec![Piece::T("vx_or_insert(&mut ".into()), Piece::S(r.0, r.1), Piece::T(", ".into()), Piece::S(k.0, k.1), Piece::T(", ".into()), Piece::S(v.0, v.1), Piece::T(")".into())]); return; } } }
    if !self.spec.nodesugar && self.chain(m, &name, None) { return; }
    visit::visit_expr_method_call(self, m);
  }
  // an iterator bound to a variable: its items, computed at once (%lazy; only for closures without effects)
  fn visit_local(&mut self, l: &'ast Local) {
    if self.spec.lazy { if let Some(i) = &l.init { if let Expr::MethodCall(m) = &*i.expr { if matches!(m.method.to_string().as_str(), "map" | "filter" | "filter_map") && matches!(m.args.first(), Some(Expr::Closure(_))) {
      if let Expr::MethodCall(r) = &*m.receiver { if matches!(r.method.to_string().as_str(), "iter" | "into_iter" | "map" | "filter" | "filter_map") {
        self.hit("lazy iterator binding -> Vec"); if self.chain(m, "collect_vec", Some(&i.expr)) { return; } } } } } } }
    visit::visit_local(self, l);
  }
  // `X["lit"] = E` is IndexMut of the container
  fn visit_expr_assign(&mut self, x: &'ast ExprAssign) {
    if let Expr::Index(i) = &*x.left { if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*i.index {
      self.hit("X[\"k\"] = E -> vx_index_set");
      let (a, b) = self.src.range(x.span()); let (xa, xb) = self.src.range(i.expr.span()); let (ia, ib) = self.src.range(i.index.span()); let (ra, rb) = self.src.range(x.right.span());
      self.visit_expr(&x.right);
      self.e(a, b, -21, vec![Piece::T("vx_index_set(&mut ".into()), Piece::S(xa, xb), Piece::T(", ".into()), Piece::S(ia, ib), Piece::T(", ".into()), Piece::S(ra, rb), Piece::T(")".into())]);
      return;
    } }
    visit::visit_expr_assign(self, x);
  }
}

/// a closure argument, or a path used as a function
enum Arg<'x> { C(&'x ExprClosure), P(&'x Expr) }
fn arg_of(e: &Expr, n: usize) -> Option<Arg<'_>> { match e { Expr::Closure(c) if c.inputs.len() == n => Some(Arg::C(c)), Expr::Path(_) if n == 1 => Some(Arg::P(e)), _ => None } }
struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn { fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; } fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; } fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {} }
impl<'a> Ctx<'a> {
  fn app(&mut self, arg: &Arg, by_ref: bool, v: &str, out: &mut Vec<Piece>) {
    let r = if by_ref { "&" } else { "" };
    match arg {
      Arg::C(c) => { self.nclos += 1; let pat = match &c.inputs[0] { Pat::Type(t) => self.src.range(t.pat.span()), p => self.src.range(p.span()) }; let body = self.src.range(c.body.span());
        self.visit_expr(&c.body);
        // `|&x|` on a reference to the item: bind the item itself (Copy patterns only bind copies)
        out.push(Piece::T("{ let ".into())); 
        let inner = match &c.inputs[0] { Pat::Reference(p) if by_ref => Some(self.src.range(p.pat.span())), _ => None };
        match inner { Some(q) => { out.push(Piece::S(q.0, q.1)); out.push(Piece::T(format!(" = {}; ", v))); } None => { out.push(Piece::S(pat.0, pat.1)); out.push(Piece::T(format!(" = {}{}; ", r, v))); } }
        out.push(Piece::S(body.0, body.1)); out.push(Piece::T(" }".into())); }
      Arg::P(e) => { let x = self.src.range(e.span()); out.push(Piece::S(x.0, x.1)); out.push(Piece::T(format!("({}{})", r, v))); }
    }
  }
  /// Option/Result combinators whose kind shows in their form -> the match they denote
  fn combinator(&mut self, m: &ExprMethodCall, name: &str) -> bool {
    let c = match m.args.first() { Some(Expr::Closure(c)) if m.args.len() == 1 => c, _ => return false };
    let mut hr = HasReturn(false); hr.visit_expr(&c.body); if hr.0 { return false; }
    let (pre, mid, post): (&str, &str, &str) = match (name, c.inputs.len()) {
      ("unwrap_or_else", 0) => ("(match ", " { Some(vx_v) => vx_v, None => ", " })"),
      ("unwrap_or_else", 1) => ("(match ", " { Ok(vx_v) => vx_v, Err(@) => ", " })"),
      ("map_err", 1) => ("(match ", " { Ok(vx_v) => Ok(vx_v), Err(@) => Err(", ") })"),
      ("ok_or_else", 0) => ("(match ", " { Some(vx_v) => Ok(vx_v), None => Err(", ") })"),
      ("or_else", 0) => ("(match ", " { Some(vx_v) => Some(vx_v), None => ", " })"),
      _ => return false };
    self.hit(&format!("{} -> match", name)); self.nclos += 1;
    let (a, b) = self.src.range(m.span()); let r = self.src.range(m.receiver.span()); self.visit_expr(&m.receiver);
    let body = self.src.range(c.body.span()); self.visit_expr(&c.body);
    let mut rep = vec![Piece::T(pre.into()), Piece::S(r.0, r.1)];
    match mid.split_once('@') { Some((x, y)) => { let p = match &c.inputs[0] { Pat::Type(t) => self.src.range(t.pat.span()), p => self.src.range(p.span()) }; rep.push(Piece::T(x.into())); rep.push(Piece::S(p.0, p.1)); rep.push(Piece::T(y.into())); } None => rep.push(Piece::T(mid.into())) }
    rep.push(Piece::S(body.0, body.1)); rep.push(Piece::T(post.into()));
    self.e(a, b, 0, rep); true
  }
  /// rewrite `BASE.adapters(..).terminal(..)` to the for loop it denotes
  fn chain(&mut self, m: &ExprMethodCall, name: &str, whole: Option<&Expr>) -> bool {
    let old = matches!(name, "fold" | "any" | "all");
    if !(old || (self.spec.chain && matches!(name, "max_by_key" | "min_by_key" | "find" | "count" | "collect" | "collect_vec" | "sorted_by" | "join"))) { return false; }
    // sorted_by(|a, b| Ord::cmp(key of a, key of b)) on pairs: the pairs, in key order
    if name == "sorted_by" { let t: String = match &m.args[0] { Expr::Closure(c) => { let r = self.src.range(c.span()); self.src.text[r.0..r.1].split_whitespace().collect() }, _ => return false };
      // by one attribute of both items
      if let Some(f) = one_attr(&t) { self.hit("sorted_by(attribute) -> vx_sort_by_*"); self.nclos += 1; let (a, b) = self.src.range(m.span()); let r = self.src.range(m.receiver.span()); self.visit_expr(&m.receiver);
        self.e(a, b, 0, vec![Piece::T(format!("vx_sort_by_{}(", f)), Piece::S(r.0, r.1), Piece::T(")".into())]); return true; }
      if !matches!(t.as_str(), "|(a,_),(b,_)|Ord::cmp(a,b)" | "|a,b|Ord::cmp(&a.0,&b.0)" | "|(a,_),(b,_)|a.cmp(b)" | "|a,b|a.0.cmp(&b.0)") { self.lost.push(format!("sorted_by closure {}", t)); return false; }
      self.nclos += 1; }
    if name == "collect_vec" && self.spec.chain { if let Expr::MethodCall(x) = &*m.receiver { if x.method == "sorted_by" { let (a, b) = self.src.range(m.span()); let r = self.src.range(m.receiver.span()); self.visit_expr(&m.receiver); self.e(a, b, 0, vec![Piece::S(r.0, r.1)]); return true; } } }
    let sorted = name == "sorted_by"; let join = name == "join" && m.args.len() == 1 && matches!(m.args[0], Expr::Lit(_)); if name == "join" && !join { return false; }
    let name = if sorted || join { "collect_vec" } else { name };
    if whole.is_none() && !sorted && !join && m.args.len() != match name { "fold" => 2, "count" | "collect" | "collect_vec" => 0, _ => 1 } { return false; }
    let term = match name { "fold" => arg_of(&m.args[1], 2), "count" | "collect" | "collect_vec" => None, _ => match arg_of(&m.args[0], 1) { None => return false, x => x } };
    if name == "fold" && term.is_none() { return false; }
    // peel adapters
    let mut base: &Expr = match whole { Some(e) => e, None => &m.receiver }; let mut ads: Vec<(String, Option<Arg>)> = vec![];
    loop {
      match base {
        Expr::MethodCall(x) => {
          let k = x.method.to_string();
          let ok = match (k.as_str(), x.args.len()) { ("map", 1) | ("filter", 1) | ("filter_map", 1) => arg_of(&x.args[0], 1).is_some(), ("cloned", 0) | ("copied", 0) | ("flatten", 0) => true, _ => false };
          if !ok { break; }
          let a = if x.args.len() == 1 { arg_of(&x.args[0], 1) } else { None };
          ads.push((k, a)); base = &x.receiver;
        }
        _ => break
      }
    }
    if join && ads.is_empty() { return false; }
    if (name == "collect" || name == "collect_vec") && !ads.iter().any(|a| a.1.is_some()) && !self.spec.chain { return false; }
    if sorted && !ads.iter().any(|a| a.1.is_some()) { // nothing to fuse
      self.hit("sorted_by(key) -> vx_sort_key"); let (a, b) = self.src.range(m.span()); let r = self.src.range(m.receiver.span()); self.visit_expr(&m.receiver);
      self.e(a, b, 0, vec![Piece::T("vx_sort_key(".into()), Piece::S(r.0, r.1), Piece::T(")".into())]); return true; }
    ads.reverse();
    let mut hr = HasReturn(false);
    for (_, a) in &ads { if let Some(Arg::C(c)) = a { hr.visit_expr(&c.body); } }
    if let Some(Arg::C(c)) = &term { hr.visit_expr(&c.body); }
    if hr.0 { return false; }
    let n = self.nloop; self.nloop += 1;
    let (it, inv) = self.spec_loop(n);
    let (a, b) = self.src.range(m.span());
    self.hit(&format!("iterator chain ({}) -> for loop", ads.iter().map(|x| x.0.as_str()).chain(std::iter::once(name)).collect::<Vec<_>>().join(".")));
    let bs = self.src.range(base.span()); self.visit_expr(base);
    let g = |k: &str| self.spec.ins.iter().filter(|i| i.0 == k && i.1 == n).map(|i| i.2.clone()).collect::<String>();
    let (bl, ls, le, al) = (g("before_loop"), g("loop_start"), g("loop_end"), g("after_loop"));
    let mut v = format!("vx_x{}", n); let bv = format!("vx_b{}", n);
    let mut rep = vec![Piece::T("{ ".into())];
    let turbo = if name == "collect" { m.turbofish.as_ref().and_then(|t| t.args.first()).map(|t| { let r = self.src.range(t.span()); self.src.text[r.0..r.1].to_string() }).filter(|t| !t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "_")) } else { None };
    let bt = self.spec.bty.get(&n).cloned().or(turbo).map(|x| format!(": {}", x)).unwrap_or_default();
    let bb = self.spec.basebind.contains(&n);
    if bb { rep.push(Piece::T(format!("let vx_s{} = ", n))); rep.push(Piece::S(bs.0, bs.1)); rep.push(Piece::T(format!("; {} ", g("after_base")))); }
    let mut res = bv.clone();
    match name {
      "fold" => if let Some(Arg::C(c)) = &term {
        let accd = self.src.range(c.inputs[0].span()); let acc = match &c.inputs[0] { Pat::Type(t) => self.src.range(t.pat.span()), _ => accd };
        self.visit_expr(&m.args[0]); let init = self.src.range(m.args[0].span());
        let at = self.src.text[acc.0..acc.1].to_string(); res = at.strip_prefix("mut ").unwrap_or(&at).to_string();
        rep.push(Piece::T(if at.starts_with("mut ") { "let ".into() } else { "let mut ".into() })); rep.push(Piece::S(accd.0, accd.1)); rep.push(Piece::T(" = ".into())); rep.push(Piece::S(init.0, init.1)); rep.push(Piece::T("; ".into())); },
      "any" => rep.push(Piece::T(format!("let mut {} = false; ", bv))), "all" => rep.push(Piece::T(format!("let mut {} = true; ", bv))),
      "count" => rep.push(Piece::T(format!("let mut {}: usize = 0; ", bv))),
      "collect" => rep.push(Piece::T(format!("let mut {}{} = vx_collect_new(); ", bv, bt))), "collect_vec" => rep.push(Piece::T(format!("let mut {}{} = Vec::new(); ", bv, bt))),
      _ => rep.push(Piece::T(format!("let mut {}{} = None; ", bv, bt))),
    }
    // a plain chain keeps the closure's own pattern as the loop pattern
    let simple = ads.is_empty() && matches!(term, Some(Arg::C(_))) && matches!(name, "any" | "all" | "fold");
    let pat = match &term { Some(Arg::C(c)) if simple => { let p = &c.inputs[if name == "fold" { 1 } else { 0 }]; Some(match p { Pat::Type(t) => self.src.range(t.pat.span()), p => self.src.range(p.span()) }) } _ => None };
    rep.push(Piece::T(format!("{} for ", bl)));
    match pat { Some(p) => rep.push(Piece::S(p.0, p.1)), None => rep.push(Piece::T(v.clone())) }
    rep.push(Piece::T(format!(" in {}", if it.is_empty() { String::new() } else { format!("{}: ", it) }))); rep.push(if bb { Piece::T(format!("vx_s{}", n)) } else { Piece::S(bs.0, bs.1) }); rep.push(Piece::T(format!("\n{}\n{{ {} ", inv, ls)));
    let mut close = String::new();
    for (i, (k, arg)) in ads.iter().enumerate() {
      let nv = format!("vx_x{}_{}", n, i + 1);
      match k.as_str() {
        "map" => { rep.push(Piece::T(format!("let {} = ", nv))); self.app(arg.as_ref().unwrap(), false, &v, &mut rep); rep.push(Piece::T("; ".into())); v = nv; }
        "filter" => { rep.push(Piece::T("if ".into())); self.app(arg.as_ref().unwrap(), true, &v, &mut rep); rep.push(Piece::T(" { ".into())); close.push_str(" }"); }
        "filter_map" => { rep.push(Piece::T(format!("let {}o = ", nv))); self.app(arg.as_ref().unwrap(), false, &v, &mut rep); rep.push(Piece::T(format!("; if let Some({}) = {}o {{ ", nv, nv))); close.push_str(" }"); v = nv; }
        // (the items must be options: a chain over other nested iterators does not type check)
        "flatten" => { rep.push(Piece::T(format!("if let Some({}) = vx_item_of({}) {{ ", nv, v))); close.push_str(" }"); v = nv; }
        _ => { rep.push(Piece::T(format!("let {} = {}.clone(); ", nv, v))); v = nv; }
      }
    }
    match (name, &term) {
      ("fold", Some(Arg::C(c))) => { self.nclos += 1; self.visit_expr(&c.body); let body = self.src.range(c.body.span());
        if !simple { let p = self.src.range(c.inputs[1].span()); rep.push(Piece::T("let ".into())); rep.push(Piece::S(p.0, p.1)); rep.push(Piece::T(format!(" = {}; ", v))); }
        rep.push(Piece::T(format!("{} = ", res))); rep.push(Piece::S(body.0, body.1)); rep.push(Piece::T("; ".into())); }
      ("any", Some(t)) | ("all", Some(t)) => {
        rep.push(Piece::T(format!("if {}(", if name == "all" { "!" } else { "" })));
        if simple { if let Arg::C(c) = t { self.nclos += 1; self.visit_expr(&c.body); let body = self.src.range(c.body.span()); rep.push(Piece::S(body.0, body.1)); } } else { self.app(t, false, &v, &mut rep); }
        rep.push(Piece::T(format!(") {{ {} = {}; break; }} ", bv, name == "any"))); }
      ("max_by_key", Some(t)) | ("min_by_key", Some(t)) => {
        rep.push(Piece::T(format!("let vx_k{} = ", n))); self.app(t, true, &v, &mut rep);
        let cmp = if name == "max_by_key" { format!("vx_le(vx_bk, &vx_k{})", n) } else { format!("!vx_le(vx_bk, &vx_k{})", n) };
        rep.push(Piece::T(format!("; let vx_t{} = match &{} {{ None => true, Some((vx_bk, _)) => {} }}; if vx_t{} {{ {} = Some((vx_k{}, {})); }} ", n, bv, cmp, n, bv, n, v)));
        res = format!("match {} {{ None => None, Some((_, vx_i)) => Some(vx_i) }}", bv); }
      ("find", Some(t)) => { rep.push(Piece::T("if ".into())); self.app(t, true, &v, &mut rep); rep.push(Piece::T(format!(" {{ {} = Some({}); break; }} ", bv, v))); }
      ("count", _) => rep.push(Piece::T(format!("{} = {} + 1; ", bv, bv))),
      ("collect", _) => rep.push(Piece::T(format!("vx_collect_add(&mut {}, {}); ", bv, v))),
      ("collect_vec", _) => rep.push(Piece::T(format!("{}.push({}); ", bv, v))),
      _ => {}
    }
    if join { let r = self.src.range(m.args[0].span()); res = format!("vx_join({}, {})", res, &self.src.text[r.0..r.1]); }
    if sorted { self.hit("sorted_by(key) -> vx_sort_key"); res = format!("vx_sort_key({})", res); }
    rep.push(Piece::T(format!("{} {} }} {} {} }}", close, le, al, res)));
    self.e(a, b, 0, rep);
    true
  }
}

/// `|a, b| Ord::cmp(&a.F, &b.F)` (or a.F.cmp(&b.F)), F an attribute or a method without arguments: F
fn one_attr(t: &str) -> Option<String> {
  let (x, rest) = t.strip_prefix('|')?.split_once(',')?; let (y, e) = rest.split_once('|')?;
  let id = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_');
  if !id(x) || !id(y) { return None; }
  let (l, r) = if let Some(q) = e.strip_prefix("Ord::cmp(&").and_then(|q| q.strip_suffix(')')) { q.split_once(",&")? } else { e.strip_suffix(')')?.split_once(".cmp(&")? };
  let f = l.strip_prefix(x)?.strip_prefix('.')?; let g = r.strip_prefix(y)?.strip_prefix('.')?;
  let n = f.strip_suffix("()").unwrap_or(f); if f == g && id(n) && !n.chars().next()?.is_numeric() { Some(n.to_string()) } else { None }
}
fn ty_name(t: &Type) -> String { quote::quote!(#t).to_string().replace(' ', "") }

enum Found<'a> { Free(&'a ItemFn), Method(&'a ItemImpl, &'a ImplItemFn), Provided(&'a syn::TraitItemFn, &'a syn::Block) }

fn find_fn<'a>(items: &'a [syn::Item], path: &str) -> Vec<Found<'a>> {
  let mut v = vec![];
  for it in items {
    match it {
      syn::Item::Fn(f) if f.sig.ident == path => v.push(Found::Free(f)),
      syn::Item::Impl(im) => {
        let t = ty_name(&im.self_ty);
        let tbase = t.split('<').next().unwrap().to_string();
        let pre = match &im.trait_ { Some((_, p, _)) => format!("{} for ", quote::quote!(#p).to_string().replace(' ', "")), None => String::new() };
        for ii in &im.items {
          if let ImplItem::Fn(f) = ii {
            if format!("{}{}::{}", pre, t, f.sig.ident) == path || format!("{}{}::{}", pre, tbase, f.sig.ident) == path { v.push(Found::Method(im, f)); }
          }
        }
      }
      // a provided method of a trait, for an arbitrary implementor (which %selfty names)
      syn::Item::Trait(t) => for ti in &t.items { if let syn::TraitItem::Fn(f) = ti { if let Some(b) = &f.default { if format!("trait {}::{}", t.ident, f.sig.ident) == path { v.push(Found::Provided(f, b)); } } } },
      syn::Item::Mod(m) if m.ident != "tests" && m.ident != "test" => if let Some((_, its)) = &m.content { v.extend(find_fn(its, path)); },
      _ => {}
    }
  }
  v
}

fn find_ty<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
  for it in items {
    match it {
      syn::Item::Struct(s) if s.ident == name => return Some(it),
      syn::Item::Enum(s) if s.ident == name => return Some(it),
      syn::Item::Const(s) if s.ident == name => return Some(it),
      syn::Item::Mod(m) if m.ident != "tests" && m.ident != "test" => if let Some((_, its)) = &m.content { if let Some(x) = find_ty(its, name) { return Some(x); } },
      _ => {}
    }
  }
  None
}

fn fnv(s: &str) -> String { let mut h: u64 = 0xcbf29ce484222325; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } format!("{:016x}", h) }

fn parse_sub(l: &str) -> std::result::Result<(usize, String, String), String> {
  // %sub [N] `old` => `new`
  let l = l.trim();
  let (n, rest) = if l.starts_with('`') { (1, l) } else { let p = l.find(' ').ok_or("sub")?; (l[..p].parse::<usize>().map_err(|e| e.to_string())?, l[p..].trim()) };
  let parts: Vec<&str> = rest.split("` => `").collect();
  if parts.len() != 2 { return Err(format!("bad %sub {}", l)); }
  Ok((n, parts[0].trim_start_matches('`').replace("\\n", "\n"), parts[1].strip_suffix('`').unwrap_or(parts[1]).replace("\\n", "\n")))
}

/// occurrences of pat in hay, white space (and comments between tokens are not skipped) not compared
fn find_ws(hay: &str, pat: &str) -> Vec<(usize, usize)> {
  let p: Vec<char> = pat.trim().chars().collect(); let h: Vec<(usize, char)> = hay.char_indices().collect();
  let id = |c: char| c.is_alphanumeric() || c == '_'; let mut out = vec![]; let mut i = 0;
  if p.is_empty() { return out; }
  while i < h.len() {
    let (mut a, mut b, mut ok) = (i, 0, h[i].1 == p[0]);
    while ok && b < p.len() {
      let (mut wa, mut wb) = (false, false);
      while b < p.len() && p[b].is_whitespace() { b += 1; wb = true; }
      while a < h.len() && h[a].1.is_whitespace() { a += 1; wa = true; }
      if a >= h.len() || h[a].1 != p[b] { ok = false; break; }
      if wa != wb && b > 0 && a > i { let prev = p[..b].iter().rev().find(|c| !c.is_whitespace()).copied().unwrap_or(' '); if id(prev) && id(p[b]) { ok = false; break; } }
      a += 1; b += 1;
    }
    if ok { let end = h[a - 1].0 + h[a - 1].1.len_utf8(); out.push((h[i].0, end)); i = a; } else { i += 1; }
  }
  out
}
fn parse_unit(text: &str, dir: &str) -> std::result::Result<(String, Vec<Item2>), String> {
  let mut items = vec![]; let mut unit = String::new(); let mut src = String::new();
  let mut mode: Option<(String, usize, String)> = None; // (section, n, buf)
  fn flush(items: &mut Vec<Item2>, mode: &mut Option<(String, usize, String)>) -> std::result::Result<(), String> {
    if let Some((sec, n, buf)) = mode.take() {
      if sec == "prelude" { items.push(Item2::Raw(buf)); return Ok(()); }
      let f = match items.last_mut() { Some(Item2::Fn(f)) => f, _ => return Err(format!("section {} outside fn", sec)) };
      match sec.as_str() {
        "sig" => f.sig.push_str(&buf),
        s if s.starts_with("loop:") => { f.loops.insert(n, (s[5..].to_string(), buf)); }
        "closure" => { f.closures.insert(n, buf.trim_end().to_string()); }
        s => f.ins.push((s.to_string(), n, buf)),
      }
    }
    Ok(())
  }
  for (ln, line) in text.lines().enumerate() {
    if let Some(d) = line.strip_prefix('%') {
      let mut w = d.splitn(2, ' '); let k = w.next().unwrap(); let arg = w.next().unwrap_or("").trim().to_string();
      flush(&mut items, &mut mode)?;
      let fnm = |items: &mut Vec<Item2>| -> std::result::Result<*mut FnSpec, String> { match items.last_mut() { Some(Item2::Fn(f)) => Ok(f as *mut _), _ => Err(format!("line {}: directive outside fn", ln + 1)) } };
      match k {
        "unit" => unit = arg, "src" => src = arg,
        "prelude" => mode = Some(("prelude".into(), 0, String::new())),
        "include" => { if !INCLUDED.with(|i| i.borrow_mut().insert(arg.clone())) { continue; } let t = fs::read_to_string(format!("{}/{}", dir, arg)).map_err(|e| format!("{}: {}", arg, e))?;
          if arg.ends_with(".vx") { let (_, its) = parse_unit(&t, dir)?; items.extend(its); } else { items.push(Item2::Raw(t)); } }
        "pin" => items.push(Item2::Pin { src: src.clone(), text: arg.trim_matches('`').replace("\\n", "\n") }),
        "enum" | "struct" | "const" => { let mut w = arg.splitn(2, ' '); let name = w.next().unwrap().to_string(); items.push(Item2::Ty { kind: k.into(), name, src: src.clone(), opts: w.next().unwrap_or("").into(), subs: vec![] }); }
        "fn" => items.push(Item2::Fn(FnSpec { path: arg, src: src.clone(), ..Default::default() })),
        "trusted" => unsafe { (*fnm(&mut items)?).trusted = true },
        "free" => unsafe { (*fnm(&mut items)?).free = true },
        "selfty" => unsafe { (*fnm(&mut items)?).self_ty = Some(arg) },
        "novac" => unsafe { (*fnm(&mut items)?).vac = true },
        "nodesugar" => unsafe { (*fnm(&mut items)?).nodesugar = true },
        "bty" => unsafe { let mut w = arg.splitn(2, ' '); let n = w.next().unwrap_or("0").parse().map_err(|_| "bty n")?; (*fnm(&mut items)?).bty.insert(n, w.next().unwrap_or("").to_string()); },
        "base" => unsafe { { let mut w = arg.split_whitespace(); let n: usize = w.next().unwrap_or("").parse().map_err(|_| "base n")?; let f = fnm(&mut items)?; (*f).basebind.push(n); if let Some(x) = w.next() { (*f).basewrap.insert(n, x.to_string()); } } },
        "opt" => unsafe { (*fnm(&mut items)?).opt = true },
        "lazy" => unsafe { (*fnm(&mut items)?).lazy = true; (*fnm(&mut items)?).chain = true },
        "eq" => unsafe { (*fnm(&mut items)?).eq = true },
        "chain" => unsafe { (*fnm(&mut items)?).chain = true },
        "fmt" => unsafe { (*fnm(&mut items)?).fmt_exact = arg == "exact" || arg == "str"; (*fnm(&mut items)?).fmt_str = arg == "str"; (*fnm(&mut items)?).fmt_args = arg == "args" },
        "rename" => unsafe { (*fnm(&mut items)?).rename = Some(arg) },
        "attr" => unsafe { (*fnm(&mut items)?).attrs.push(arg) },
        "ret" => unsafe { (*fnm(&mut items)?).ret = Some(arg) },
        "fngen" => unsafe { (*fnm(&mut items)?).fngen = Some(arg) },
        "generics" => unsafe { (*fnm(&mut items)?).generics = Some(arg) },
        "sub" => { let s = parse_sub(&arg)?; match items.last_mut() { Some(Item2::Fn(f)) => f.subs.push(s), Some(Item2::Ty { subs, .. }) => subs.push(s), _ => return Err("sub".into()) } }
        "sig" => mode = Some(("sig".into(), 0, String::new())),
        "loop" => { let mut w = arg.split_whitespace(); let n = w.next().unwrap_or("0").parse().map_err(|_| "loop n")?; mode = Some((format!("loop:{}", w.next().unwrap_or("")), n, String::new())); }
        "closure" => { let mut w = arg.splitn(2, ' '); let n = w.next().unwrap_or("0").parse().map_err(|_| "closure n")?; mode = Some(("closure".into(), n, format!("{}\n", w.next().unwrap_or("")))); }
        "body_start" | "tail" | "body_end" | "tail_after" => mode = Some((k.into(), 0, String::new())),
        "loop_start" | "loop_end" | "after_loop" | "before_loop" | "after_base" => { let n = arg.parse().map_err(|_| format!("line {}: n", ln + 1))?; mode = Some((k.into(), n, String::new())); }
        "before" | "after" => { mode = Some((format!("{} {}", k, arg), 0, String::new())); }
        "#" => {}
        x => return Err(format!("line {}: unknown directive {}", ln + 1, x)),
      }
    } else if let Some(m) = mode.as_mut() { m.2.push_str(line); m.2.push('\n'); }
    else if !line.trim().is_empty() { return Err(format!("line {}: stray text {}", ln + 1, line)); }
  }
  flush(&mut items, &mut mode)?;
  Ok((unit, items))
}

fn strip_attrs_ty(src: &Src, it: &syn::Item, opts: &str) -> String {
  // emit fields/variants text with attributes dropped, visibility made pub
  struct A<'b> { src: &'b Src, ed: Vec<(usize, usize, String)> }
  impl<'b, 'ast> Visit<'ast> for A<'b> {
    fn visit_attribute(&mut self, a: &'ast Attribute) { let r = self.src.range(a.span()); self.ed.push((r.0, r.1, String::new())); }
    fn visit_field(&mut self, f: &'ast Field) {
      visit::visit_field(self, f);
      match &f.vis { Visibility::Inherited => if let Some(i) = &f.ident { let p = self.src.range(i.span()).0; if !self.in_enum() { self.ed.push((p, p, "pub ".into())); } },
        Visibility::Restricted(v) => { let r = self.src.range(v.span()); self.ed.push((r.0, r.1, "pub".into())); } _ => {} }
    }
  }
  thread_local! { static ENUM: std::cell::Cell<bool> = std::cell::Cell::new(false); }
  impl<'b> A<'b> { fn in_enum(&self) -> bool { ENUM.with(|e| e.get()) } }
  ENUM.with(|e| e.set(matches!(it, syn::Item::Enum(_))));
  let mut a = A { src, ed: vec![] };
  a.visit_item(it);
  let (x, y) = src.range(it.span());
  let mut ed = a.ed; ed.sort();
  let mut out = String::new(); let mut p = x;
  for (s, e, t) in ed { if s < p { continue; } out.push_str(&src.text[p..s]); out.push_str(&t); p = e; }
  out.push_str(&src.text[p..y]);
  let t = out.trim_start().to_string();
  let t = t.strip_prefix("pub(crate) ").or_else(|| t.strip_prefix("pub ")).map(|s| s.to_string()).unwrap_or(t);
  format!("{}\npub {}", opts, t)
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
  let unit_path = args[1].clone();
  let repo = get("--repo").unwrap_or("/repo".into());
  let out_path = get("--out").expect("--out"); let meta_path = get("--meta").expect("--meta");
  let vac = args.iter().any(|a| a == "--vacuity");
  let text = fs::read_to_string(&unit_path).expect("unit");
  let dir = std::path::Path::new(&unit_path).parent().unwrap().to_string_lossy().to_string();
  let (unit, items) = match parse_unit(&text, &dir) { Ok(x) => x, Err(e) => { eprintln!("unit parse error: {}", e); std::process::exit(3) } };
  let mut srcs: BTreeMap<String, Src> = BTreeMap::new();
  let mut lost: Vec<String> = vec![]; let mut soft: Vec<String> = vec![]; let mut metas: Vec<Value> = vec![]; let mut out = String::new();
  let mut total: BTreeMap<String, usize> = BTreeMap::new();
  out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_camel_case_types)]\nuse vstd::prelude::*;\n");
  for it in &items {
    match it {
      Item2::Raw(t) => { out.push_str(t); out.push('\n'); }
      Item2::Pin { src, text } => {
        if !srcs.contains_key(src) { match Src::load(&repo, src) { Ok(s) => { srcs.insert(src.clone(), s); } Err(e) => { lost.push(e); continue; } } }
        if find_ws(&srcs[src].text, text).is_empty() { lost.push(format!("pinned text `{}` not in {}", text, src)); }
        metas.push(json!({"kind": "pin", "name": text, "src": src}));
      }
      Item2::Ty { kind, name, src, opts, subs } => {
        if !srcs.contains_key(src) { match Src::load(&repo, src) { Ok(s) => { srcs.insert(src.clone(), s); } Err(e) => { lost.push(e); continue; } } }
        let s = &srcs[src];
        match find_ty(&s.file.items, name) {
          Some(i) => { let mut t = strip_attrs_ty(s, i, opts);
            for (n, o, r) in subs { if t.matches(o.as_str()).count() != *n { lost.push(format!("{} {}: sub `{}`", kind, name, o)); } else { t = t.replace(o, r); *total.entry("type text substitution".into()).or_insert(0) += n; } }
            out.push_str(&format!("verus! {{\n{}\n}}\n", t));
            metas.push(json!({"kind": kind, "name": name, "src": src, "hash": fnv(&t)})); }
          None => lost.push(format!("{} {} not found in {}", kind, name, src)),
        }
      }
      Item2::Fn(f) => {
        if !srcs.contains_key(&f.src) { match Src::load(&repo, &f.src) { Ok(s) => { srcs.insert(f.src.clone(), s); } Err(e) => { lost.push(e); continue; } } }
        let s = &srcs[&f.src];
        let mut found = find_fn(&s.file.items, &f.path);
        if found.len() > 1 { // prefer items not under cfg(not(..)) test-only duplicates: ambiguous
          found.truncate(1); lost.push(format!("fn {}: ambiguous", f.path)); }
        if found.is_empty() { lost.push(format!("fn {} not found in {}", f.path, f.src)); continue; }
        let (sig, block, im) = match &found[0] { Found::Free(x) => (&x.sig, &*x.block, None), Found::Method(i, x) => (&x.sig, &x.block, Some(*i)), Found::Provided(x, b) => (&x.sig, *b, None) };
        let mut c = Ctx { src: s, edits: vec![], nloop: 0, nclos: 0, spec: f, log: BTreeMap::new(), lost: vec![], vac, loop_ranges: vec![] };
        let (fa, _) = s.range(sig.span()); let (ba, bb) = s.range(block.span());
        let fstart = fa;
        // signature edits
        if let ReturnType::Type(_, ty) = &sig.output { let (ta, tb) = s.range(ty.span()); let r = f.ret.clone().unwrap_or("r".into());
          c.e(ta, ta, -5, vec![Piece::T(format!("({}: ", r))]); c.e(tb, tb, 50, vec![Piece::T(")".into())]); }
        if let Some(g) = &f.fngen { let p = s.range(sig.ident.span()).1; let q = sig.generics.gt_token.map(|t| s.range(t.span()).1).unwrap_or(p); c.e(p, q, 0, vec![Piece::T(g.clone())]);
          if let Some(w) = &sig.generics.where_clause { let (x, y) = s.range(w.span()); c.e(x, y, -6, vec![Piece::T(String::new())]); } c.hit("generic parameters and where clause of a function restated"); }
        if let Some(n) = &f.rename { let (ia, ib) = s.range(sig.ident.span()); c.e(ia, ib, 0, vec![Piece::T(n.clone())]); }
        if !f.trusted { c.visit_block(block); }
        // textual substitutions
        for (n, o, r) in &f.subs {
          let hay = &s.text[fstart..bb];
          let pos = find_ws(hay, o);
          if pos.len() != *n { c.lost.push(format!("sub `{}` occurs {} times, expected {}", o, pos.len(), n)); }
          for (p, q) in pos { let (x, y) = (fstart + p, fstart + q);
            if f.trusted && x >= ba { continue; }
            // drop edits swallowed by or equal to the substitution
            c.edits.retain(|e| !(e.a >= x && e.b <= y && !(e.a == e.b && (e.a == x || e.a == y))));
            c.e(x, y, -3, vec![Piece::T(r.clone())]); c.hit(&format!("substitution `{}` => `{}`", o, r)); }
        }
        // contract
        let mut contract = if f.sig.is_empty() { String::new() } else { format!("\n{}\n", f.sig) };
        if vac && f.sig.contains("ensures") && false { contract.push_str(""); }
        c.e(ba, ba, 40, vec![Piece::T(contract)]);
        // insertions
        let mut start_ins = String::new();
        if vac && !f.trusted && !f.vac { start_ins.push_str(" proof { assert(false); /*VXVAC*/ } "); }
        for (k, n, t) in &f.ins {
          match k.as_str() {
            "after_base" => {}
            "body_start" => start_ins.push_str(t),
            "body_end" => c.e(bb - 1, bb - 1, 0, vec![Piece::T(format!("\n{}\n", t))]),
            "tail" => { if let Some(st) = block.stmts.last() { let p = s.range(st.span()).0; c.e(p, p, -9, vec![Piece::T(format!("\n{}\n", t))]); } }
            "tail_after" => match block.stmts.last() {
              Some(Stmt::Expr(x, None)) => { let (p, q) = s.range(x.span()); c.e(p, p, -7, vec![Piece::T("let vx_ret = ".into())]); c.e(q, q, 60, vec![Piece::T(format!(";\n{}\nvx_ret", t))]); }
              Some(Stmt::Macro(m)) if m.semi_token.is_none() => { let (p, q) = s.range(m.span()); c.e(p, p, -7, vec![Piece::T("let vx_ret = ".into())]); c.e(q, q, 60, vec![Piece::T(format!(";\n{}\nvx_ret", t))]); }
              _ => c.lost.push("tail expression".into()) },
            "loop_start" | "loop_end" | "after_loop" | "before_loop" => {
              if let Some(l) = c.loop_ranges.iter().find(|l| l.0 == *n).cloned() {
                let p = match k.as_str() { "loop_start" => l.2, "loop_end" => l.3, "after_loop" => l.4, _ => l.1 };
                c.e(p, p, if k == "before_loop" { -9 } else { 45 }, vec![Piece::T(format!("\n{}\n", t))]);
              } else if *n >= c.nloop { c.lost.push(format!("{} {}", k, n)); }
            }
            k if k.starts_with("before ") || k.starts_with("after ") => {
              let bef = k.starts_with("before "); let mut raw = k.splitn(2, ' ').nth(1).unwrap().trim(); let last = raw.starts_with("@last "); if last { raw = raw[6..].trim(); }
              let snip = raw.trim_matches('`').replace("\\n", "\n");
              let hay = &s.text[ba..bb]; let mut pos = find_ws(hay, &snip); if last && pos.len() > 1 { pos = pos.split_off(pos.len() - 1); }
              if pos.len() != 1 { c.lost.push(format!("anchor `{}` occurs {} times", snip, pos.len())); continue; }
              let p = ba + if bef { pos[0].0 } else { pos[0].1 };
              c.e(p, p, if bef { -8 } else { 46 }, vec![Piece::T(format!("\n{}\n", t))]);
            }
            _ => c.lost.push(format!("unknown insertion {}", k)),
          }
        }
        for n in f.loops.keys() { if *n >= c.nloop && !f.trusted { c.lost.push(format!("loop {} missing", n)); } }
        if !f.trusted && !f.loops.is_empty() && c.nloop > f.loops.keys().max().unwrap() + 1 { c.lost.push(format!("{} loops, {} annotated", c.nloop, f.loops.len())); }
        for n in f.closures.keys() { if *n >= c.nclos && !f.trusted { c.lost.push(format!("closure {} missing", n)); } }
        if !start_ins.is_empty() { c.e(ba + 1, ba + 1, -9, vec![Piece::T(format!("\n{}\n", start_ins))]); }
        let sigtxt = render(&s.text, fstart, ba, &c.edits.iter().filter(|e| e.b <= ba && !(e.a == ba)).cloned().collect::<Vec<_>>());
        // insertions exactly at ba that belong to the signature (return type close, contract)
        let mut at_ba: Vec<Edit> = c.edits.iter().filter(|e| e.a == ba && e.b == ba).cloned().collect(); at_ba.sort_by_key(|e| e.prio);
        let at: String = at_ba.iter().map(|e| e.rep.iter().map(|p| match p { Piece::T(t) => t.clone(), _ => String::new() }).collect::<String>()).collect();
        let body = if f.trusted { "{ unimplemented!() }".to_string() } else { render(&s.text, ba, bb, &c.edits.iter().filter(|e| e.a >= ba && !(e.a == ba && e.b == ba)).cloned().collect::<Vec<_>>()) };
        let mut ftxt = String::new();
        if f.trusted { ftxt.push_str("#[verifier::external_body]\n"); }
        for a in &f.attrs { ftxt.push_str(a); ftxt.push('\n'); }
        ftxt.push_str(&format!("pub {}{}{}\n", sigtxt, at, body));
        let header = match (im, f.free) {
          (Some(i), false) => { let g = &i.generics; let gt = f.generics.clone().unwrap_or_else(|| quote::quote!(#g).to_string()); let st = f.self_ty.clone().unwrap_or_else(|| { let (a, b) = s.range(i.self_ty.span()); s.text[a..b].to_string() });
            let wh = g.where_clause.as_ref().map(|w| quote::quote!(#w).to_string()).unwrap_or_default();
            Some(format!("impl {} {} {} {{\n", gt, st, wh)) }
          (None, false) => match (&found[0], &f.self_ty) { (Found::Provided(..), Some(st)) => Some(format!("impl {} {{\n", st)), _ => None },
          _ => None };
        let l0 = out.matches('\n').count() + 2;
        out.push_str("verus! {\n");
        if let Some(h) = &header { out.push_str(h); }
        out.push_str(&ftxt);
        if header.is_some() { out.push_str("}\n"); }
        out.push_str("}\n");
        let l1 = out.matches('\n').count();
        for (k, n) in &c.log { *total.entry(k.clone()).or_insert(0) += n; }
        for l in &c.lost { soft.push(format!("fn {}: {}", f.path, l)); }
        metas.push(json!({"kind": "fn", "name": f.path, "emitted": f.rename.clone().unwrap_or(sig.ident.to_string()), "src": f.src, "src_line": s.text[..fstart].matches('\n').count() + 1,
          "out_lines": [l0, l1], "trusted": f.trusted, "novac": f.vac, "hash": fnv(&s.text[fstart..bb]), "rewrites": c.log, "loops": c.nloop }));
      }
    }
  }
  out.push_str("fn main() {}\n");
  fs::write(&out_path, &out).unwrap();
  fs::write(&meta_path, serde_json::to_string_pretty(&json!({"unit": unit, "items": metas, "lost": lost, "soft": soft, "rewrites": total})).unwrap()).unwrap();
  for l in &soft { eprintln!("SOFT: {}", l); }
  if !lost.is_empty() { for l in &lost { eprintln!("LOST: {}", l); } std::process::exit(4); }
}
