//! Type checker scenarios.
use crate::gen_ts::{self, Prog};
use crate::sim::*;
use std::fmt::Write as _;
use std::sync::Arc;
use typecheck_ts::lib_support::{CacheMode, CompilerOptions, FileKind, LibFile, ScriptTarget};
use typecheck_ts::{FileKey, Host, HostError, MemoryHost, Program};

pub fn options(r: &mut Rng) -> CompilerOptions {
  let mut o = CompilerOptions { no_default_lib: true, ..Default::default() };
  o.strict_null_checks = !r.chance(20);
  o.no_implicit_any = r.chance(40);
  o.strict_function_types = !r.chance(20);
  o.exact_optional_property_types = r.chance(20);
  o.no_unchecked_indexed_access = r.chance(20);
  if r.chance(30) {
    o.skip_lib_check = false;
    o.use_define_for_class_fields = r.chance(50);
    o.target = *r.pick(&[ScriptTarget::Es5, ScriptTarget::Es2020, ScriptTarget::EsNext]);
  }
  if r.chance(15) {
    o.types = vec!["pkg".into()];
  }
  o.cache = caches(r);
  o
}
pub fn caches(r: &mut Rng) -> typecheck_ts::lib_support::CacheOptions {
  let mut c = typecheck_ts::lib_support::CacheOptions::default();
  if r.chance(50) {
    c.max_relation_cache_entries = r.logu(1, 4096) as usize;
    c.max_eval_cache_entries = r.logu(1, 4096) as usize;
    c.max_instantiation_cache_entries = r.logu(1, 4096) as usize;
    c.max_body_cache_entries = r.logu(1, 4096) as usize;
    c.max_def_cache_entries = r.logu(1, 4096) as usize;
    c.cache_shards = r.range(1, 8) as usize;
  }
  if r.chance(25) {
    c.mode = CacheMode::PerBody;
  }
  c
}
pub fn mini_lib() -> LibFile {
  LibFile { key: FileKey::new("mini.d.ts"), name: Arc::from("mini"), kind: FileKind::Dts, text: Arc::from(gen_ts::MINI_LIB) }
}
/// An in-memory host that knows declaration files and one installed package.
pub struct TsHost(pub MemoryHost);
impl Host for TsHost {
  fn file_text(&self, file: &FileKey) -> Result<Arc<str>, HostError> {
    self.0.file_text(file)
  }
  fn resolve(&self, from: &FileKey, spec: &str) -> Option<FileKey> {
    self.0.resolve(from, if spec == "pkg" { "/pkg/index.d.ts" } else { spec })
  }
  fn compiler_options(&self) -> CompilerOptions {
    self.0.compiler_options()
  }
  fn lib_files(&self) -> Vec<LibFile> {
    self.0.lib_files()
  }
  fn file_kind(&self, file: &FileKey) -> FileKind {
    if file.as_str().ends_with(".d.ts") { FileKind::Dts } else { self.0.file_kind(file) }
  }
}
pub fn host(p: &Prog, o: &CompilerOptions) -> TsHost {
  let mut h = MemoryHost::with_options(o.clone());
  if p.files.iter().any(|f| f.0 == "pkg/index.d.ts") {
    for (n, _) in &p.files {
      h.link(FileKey::new(n.clone()), "/pkg/index.d.ts", FileKey::new("pkg/index.d.ts"));
    }
  }
  for (n, t) in &p.files {
    h.insert(FileKey::new(n.clone()), Arc::<str>::from(t.as_str()));
  }
  h.add_lib(mini_lib());
  TsHost(h)
}
pub fn roots(p: &Prog) -> Vec<FileKey> {
  p.roots.iter().map(|r| FileKey::new(r.clone())).collect()
}
pub fn build(p: &Prog, o: &CompilerOptions) -> Program {
  Program::new(host(p, o), roots(p))
}
pub fn diags(p: &Program) -> String {
  fmt_diags(&p.check())
}
pub fn fmt_diags(d: &[diagnostics::Diagnostic]) -> String {
  let mut s = String::new();
  for d in d {
    let _ = writeln!(s, "{d:?}");
  }
  s
}
/// Everything observable about files, exports, definitions and bodies.
pub fn observe(p: &Program, ids: bool) -> String {
  let mut s = String::new();
  let mut files = p.reachable_files();
  files.sort_by_key(|f| p.file_key(*f).map(|k| k.as_str().to_string()));
  for f in files {
    let _ = writeln!(s, "file {:?}", p.file_key(f).map(|k| k.as_str().to_string()));
    observe_file(p, f, ids, &mut s);
  }
  s
}
pub fn observe_file(p: &Program, f: typecheck_ts::FileId, ids: bool, s: &mut String) {
  let mut ex: Vec<_> = p.exports_of(f).into_iter().collect();
  ex.sort_by(|a, b| a.0.cmp(&b.0));
  for (n, e) in ex {
    let ty = e.type_id.map(|t| p.display_type(t).to_string());
    let _ = writeln!(s, " export {n}: {ty:?} def={}", e.def.is_some());
    if ids {
      let _ = writeln!(s, "  {e:?}");
    }
  }
  let mut defs = p.definitions_in_file(f);
  defs.sort_by_key(|d| (p.span_of_def(*d).map(|s| (s.range.start, s.range.end)), d.0));
  for d in defs {
    let t = p.type_of_def(d);
    let _ = writeln!(s, " def {:?} {:?} {:?}: {}", p.def_name(d), p.def_kind(d).map(|k| format!("{k:?}").chars().take(12).collect::<String>()), p.span_of_def(d).map(|s| s.range), p.display_type(t));
    if ids {
      let _ = writeln!(s, "  {d:?} {t:?}");
    }
  }
  let mut bodies = p.bodies_in_file(f);
  bodies.sort_by_key(|b| b.0);
  for b in bodies {
    let res = p.check_body(b);
    let _ = writeln!(s, " body diags={}", res.diagnostics().len());
    for d in res.diagnostics() {
      let _ = writeln!(s, "  {d:?}");
    }
    for (i, (t, sp)) in res.expr_types().iter().zip(res.expr_spans()).enumerate() {
      let _ = write!(s, "  e{i}@{}..{} {}", sp.start, sp.end, p.display_type(*t));
      if ids {
        let _ = write!(s, " {t:?}");
      }
      s.push('\n');
    }
    for (i, t) in res.pat_types().iter().enumerate() {
      let _ = writeln!(s, "  p{i} {}", p.display_type(*t));
    }
  }
}
pub fn first_diff(a: &str, b: &str) -> String {
  let (la, lb): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
  for i in 0..la.len().max(lb.len()) {
    let (x, y) = (la.get(i).copied().unwrap_or("<end>"), lb.get(i).copied().unwrap_or("<end>"));
    if x != y {
      return format!("line {i}: got `{x}` want `{y}`");
    }
  }
  "equal".into()
}

/// Step budget of a sequential reference run.
pub const REF: u64 = 60_000_000;

/// P01: one program, many schedules/hash seeds/cpu counts: one answer.
pub fn schedules(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let p = gen_ts::program(&mut r, 5, 5);
  let o = options(&mut r);
  sample(format!("{:?}", p.files.iter().map(|f| f.1.len()).collect::<Vec<_>>()));
  let t0 = ticks();
  let (want_d, want_o) = premise(REF, || {
    let a = build(&p, &o);
    (diags(&a), observe(&a, true))
  });
  let len = ticks() - t0;
  probe_n("diagnostics", want_d.lines().count() as u64);
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  active(true);
  budget(20 * len + 20_000_000);
  let b = build(&p, &o);
  let got_d = diags(&b);
  active(false);
  budget(0);
  check!(got_d == want_d, "diagnostics-differ", "{}\n{:#?}", first_diff(&got_d, &want_d), p.files);
  let got_o = observe(&b, true);
  check!(got_o == want_o, "answers-differ", "mode={:?} {}\n{:#?}", o.cache, first_diff(&got_o, &want_o), p.files);
  ok()
}


/// P01, one fixed program with mutually recursive interfaces: the listed finding.
pub fn recursive(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let m0 = "export const v0: void = [((p: number) => p), ((\"s6\" as string) ? `t${1}` : 15)];\n";
  let m1 = "import type { I4 } from \"./m2\";\nexport let v1: string = [(true + ([1, \"two\"] + { a: 5, b: \"x\" })), { a: 4, b: \"x\" }];\nexport function f2(x: string, y: number): unknown;\nexport function f2(x: number, y: string): true;\nexport function f2(x: any, y: any): any {\n  switch (y) { case 1: return [y, y]; default: break; }\n  for (let i = 0; i < 3; i++) { let q = (60 + i); }\n  return undefined;\n}\nexport interface I3 {\n  a: ((undefined)[])[];\n  b?: string;\n  m(x: number): I4 | number;\n}\nconst s1_0: I4 & { c: null } = true;\nexport * from \"./m0\";\n";
  let m2 = "import { f2 } from \"./m1\";\nimport { I3 } from \"./m1\";\nexport interface I4 {\n  a: (keyof I3)[];\n  b?: I3 & { c: never };\n  m(x: (x: never) => void): true;\n}\nexport const v5: I3 = 90;\nexport const f6 = (x: Partial<I3>, y: I4 & { c: \"lit\" }): ReturnType<typeof f2> => (f2([y, null], undefined) + v5.a);\nexport class C7 {\n  a: Partial<I3> | I4 = v5.a;\n  private hid = `t${1}`;\n  static st = { a: 1, b: \"x\" };\n  constructor(p: typeof v5) { this.a = p as any; }\n  m(x: ReturnType<typeof f2>, y: number): I3 {\n  const l0: [any, I3 & { c: null }] = (f2(86, \"s7\") as I4);\n  while (x) { x = f6(74, y); break; }\n  return (f6(y, { a: 4, b: \"x\" }) + (x ? \"s1\" : y));\n  }\n}\n";
  let m3 = "import { v5 } from \"./m2\";\nexport let v8: void = v5;\n";
  let p = gen_ts::Prog { files: [m0, m1, m2, m3].iter().enumerate().map(|(i, t)| (format!("m{i}.ts"), t.to_string())).collect(), roots: (0..4).map(|i| format!("m{i}.ts")).collect() };
  let mut o = typecheck_ts::lib_support::CompilerOptions { no_default_lib: true, ..Default::default() };
  o.no_implicit_any = true;
  o.skip_lib_check = true;
  o.target = typecheck_ts::lib_support::ScriptTarget::Es2015;
  o.cache.max_relation_cache_entries = 240;
  o.cache.max_eval_cache_entries = 641;
  o.cache.max_instantiation_cache_entries = 9;
  o.cache.max_body_cache_entries = 32;
  o.cache.max_def_cache_entries = 3739;
  o.cache.cache_shards = 2;
  let t0 = ticks();
  let want = premise(REF, || diags(&build(&p, &o)));
  let len = ticks() - t0;
  swarm(seed, &mut r, len).apply();
  active(true);
  budget(20 * len + 20_000_000);
  let got = diags(&build(&p, &o));
  active(false);
  budget(0);
  check!(got == want, "diagnostics-differ", "recursive interfaces I3 and I4 of the fixed program: {}", first_diff(&got, &want));
  ok()
}
