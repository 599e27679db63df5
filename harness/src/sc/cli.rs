//! The command-line programs as simulated processes: what they claim against
//! what they delivered, under failing input, output and time limits.
use super::progs;
use crate::gen_ts;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Obs {
  pub code: i32,
  pub out: Vec<u8>,
  pub err: Vec<u8>,
  pub files: Vec<Option<Vec<u8>>>,
  pub ns: u64,
}
#[derive(Clone)]
pub struct Cmd {
  pub main: fn() -> i32,
  pub args: Vec<String>,
  pub stdin: Vec<u8>,
  pub files: Vec<String>,
}
pub fn show(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(b);
  if s.len() > 700 {
    format!("{}…({} bytes)", s.chars().take(600).collect::<String>(), b.len())
  } else {
    s.into_owned()
  }
}
impl Obs {
  pub fn text(&self) -> String {
    format!(
      "exit {} after {} ns\n stdout: {}\n stderr: {}\n files: {:?}",
      self.code,
      self.ns,
      show(&self.out),
      show(&self.err),
      self.files.iter().map(|f| f.as_ref().map(|f| show(f))).collect::<Vec<_>>()
    )
  }
  pub fn same(&self, o: &Obs) -> bool {
    self.code == o.code && self.out == o.out && self.err == o.err && self.files == o.files
  }
}

/// Runs one program to its end as its own process.
pub fn exec(c: &Cmd) -> Obs {
  set_args(&c.args);
  stdio_reset();
  set_stdin(&c.stdin, false);
  let t0 = now_ns();
  let main = c.main;
  let p = Proc::spawn(move || {
    // what lang_start does around main: the process exits with its code after std's cleanup
    let code = std::panic::catch_unwind(main).unwrap_or(101);
    std::process::exit(code)
  });
  let code = match p.wait() {
    Exit::Code(c) => c,
    Exit::Signal(s) => -s,
    Exit::Running => unreachable!(),
  };
  Obs { code, out: captured(1), err: captured(2), files: c.files.iter().map(|f| fs::get(f)).collect(), ns: now_ns() - t0 }
}

/// What the faults that fired can excuse.
pub struct Hard {
  pub input: u64,
  pub output: u64,
  pub stdout: u64,
  pub meta: u64,
}
pub fn hard() -> Hard {
  let open = kind_fired(S_FS_OPEN, 1) + kind_fired(S_FS_OPEN, 2) + kind_fired(S_FS_OPEN, 3);
  Hard {
    input: open + kind_fired(S_FS_READ, 1) + kind_fired(S_STDIN, 3),
    output: open + kind_fired(S_FS_WRITE, 1) + kind_fired(S_FS_WRITE, 4),
    stdout: kind_fired(S_STDOUT, 3) + kind_fired(S_STDOUT, 4),
    meta: fired(S_FS_META) + fired(S_SPAWN) + fired(S_THREADS),
  }
}

pub const SOFT: &[(usize, &[u32])] = &[(S_FS_OPEN, &[4]), (S_FS_READ, &[2, 3]), (S_FS_WRITE, &[2, 3]), (S_STDOUT, &[1, 2]), (S_STDIN, &[1, 2])];
/// Draws which failures this run meets.
pub fn swarm_io(cfg: &mut Cfg, r: &mut Rng) {
  let mode = r.below(10);
  if mode == 0 {
    return;
  }
  let soft_only = mode <= 3;
  for (site, soft) in SOFT {
    if r.chance(if soft_only { 80 } else { 40 }) {
      // short outputs make few calls: high rates are needed to hit them
      cfg.rate(*site, r.logu(3_000, 700_000));
      if soft_only {
        cfg.kinds(*site, soft);
      } else if r.chance(60) {
        cfg.max(*site, r.range(1, 3) as u32);
      }
    }
  }
  if r.chance(20) {
    cfg.rate(S_FS_SLOW, r.logu(10_000, 500_000));
  }
  // interruptions that never end would starve any program
  for s in [S_FS_OPEN, S_FS_READ, S_FS_WRITE, S_STDOUT, S_STDIN] {
    if cfg.fault_ppm[s] > 400_000 && cfg.fault_max[s] == 0 {
      cfg.fault_max[s] = 40;
    }
  }
}

pub struct Judge {
  pub timed: bool,
  pub disk_full: bool,
}
/// The rules every program obeys.
pub fn judge(c: &Cmd, want: &Obs, got: &Obs, j: &Judge) -> bool {
  let h = hard();
  let any = h.input + h.output + h.stdout + h.meta;
  let ctx = || format!("{:?}\n got: {}\nwant: {}", c.args, got.text(), want.text());
  check!(got.code >= 0, "killed", "the program died: {}", ctx());
  if any == 0 && !j.timed && !j.disk_full {
    check!(got.same(want), "wrong-result", "no failure was injected beyond interruptions and short transfers, yet the result differs: {}", ctx());
    return true;
  }
  if got.same(want) && (want.code != 0 || h.stdout == 0) {
    return true;
  }
  if got.code == 0 {
    check!(want.code == 0, "failure-hidden", "exit 0, but the undisturbed run fails: {}", ctx());
    check!(got.out == want.out, "claimed-success", "exit 0 without having delivered the complete output: {}", ctx());
    check!(got.files == want.files, "claimed-success", "exit 0 without having written the complete file: {}", ctx());
    return true;
  }
  check!(!got.err.is_empty() || !got.out.is_empty() || h.stdout > 0, "silent-failure", "a failing exit without any message: {}", ctx());
  if h.stdout == 0 {
    check!(got.code == 1, "crash", "a failure must be reported with exit status 1: {}", ctx());
  }
  false
}

// ------------------------------------------------------------------ sources
pub fn source(r: &mut Rng, module: bool) -> Vec<u8> {
  let mut s = String::new();
  match r.below(20) {
    0 => return vec![],
    1 => return b"let x = \xff\xfe;".to_vec(),
    2 => s.push_str("const = ;;; class {"),
    3 => s.push_str("let s = `unterminated ${"),
    _ => {}
  }
  let target = r.logu(20, 30_000) as usize;
  let mut k = 0;
  while s.len() < target {
    k += 1;
    match r.below(25).min(7) {
      0 => {
        let p = gen_ts::annotated(r, 1, 6);
        s.push_str(&p.files[0].1.replace("import ", "// import "));
        s.push('\n');
      }
      1 => s.push_str(&format!("export function fn{k}(alpha: number, beta = {k}) {{ let total = alpha + beta; for (let i = 0; i < {k}; i++) {{ total += i * fn{k}(i) }} return total }}\n")),
      2 => s.push_str(&format!("const longName{k} = {{ a: [1, 2, {k}], 'b-c': `t${{{k} + 1}}`, get g() {{ return /re{k}/gi }}, async *m() {{ yield* [] }} }};\n")),
      3 => s.push_str(&format!("class Klass{k} extends (Object as any) {{ static #p = {k}; constructor(private q: number) {{ super() }} method<T>(v: T): T {{ return v }} }}\n")),
      4 => s.push_str(&format!("enum Colour{k} {{ Red, Green = {k}, Blue = Red | Green }}\nnamespace Ns{k} {{ export const inner = Colour{k}.Red }}\n")),
      5 => s.push_str(&format!("if (globalThis.flag{k}) {{ console.log('long string literal number {k}', \"\\u0041 é ✓\") }} else {{ void 0 }}\n")),
      6 => s.push_str(&format!("export const arrow{k} = async (first: string, ...rest: string[]) => {{ try {{ await first }} catch {{ return rest?.[{k}] ?? first }} }};\n")),
      _ => s.push_str(&format!("function plain{k}(alphaBeta, gamma) {{ var local = alphaBeta * gamma; return function () {{ return local + {k} }} }}\n")),
    }
  }
  if !module {
    s = s.replace("export ", "");
  }
  s.into_bytes()
}

pub fn begin(seed: u64, stream: u64, len: u64) -> (Rng, Cfg) {
  let mut r = Rng::new(seed, stream);
  let mut cfg = swarm(seed, &mut r, len);
  cfg.stall_ns = r.logu(1_000, 300_000_000);
  (r, cfg)
}
fn json_errors(c: &Cmd, got: &Obs) {
  let v: Result<Value, _> = serde_json::from_slice(&got.out);
  let Ok(v) = v else { violation("bad-error-report", format!("{:?}: the failure is not reported as JSON on stdout: {}", c.args, got.text())) };
  check!(v["diagnostics"].as_array().is_some_and(|a| !a.is_empty()), "bad-error-report", "{:?}: the JSON failure report has no diagnostic: {}", c.args, got.text());
  check!(v.get("output").map_or(true, |o| o.is_null()) && v.get("ast").is_none(), "bad-error-report", "{:?}: the JSON failure report also has a result: {}", c.args, got.text());
}

// ------------------------------------------------------------------ minify-js
pub fn minify(seed: u64) {
  let (mut r, mut cfg) = begin(seed, 21, 500_000);
  swarm_io(&mut cfg, &mut r);
  fs::mount("/w");
  fs::set_cwd("/w");
  let module = r.chance(60);
  let src = source(&mut r, module);
  let mut args: Vec<String> = vec!["minify-js".into(), "--mode".into(), if module { "module" } else { "global" }.into(), "--no-color".into()];
  let json = r.chance(40);
  if json {
    args.push("--json".into());
  }
  let from_file = r.chance(50);
  if from_file {
    fs::put("/w/in.ts", &src);
    args.extend(["--input".into(), r.pick(&["in.ts", "/w/in.ts"]).to_string()]);
  }
  let to_file = r.chance(50);
  let mut files = vec![];
  let old = b"previous contents that must not be taken for the result".to_vec();
  if to_file {
    let f = if r.chance(20) { "/w/missing/out.js" } else { "/w/out.js" };
    if r.chance(50) {
      fs::put("/w/out.js", &old);
    }
    args.extend(["--output".into(), f.into()]);
    files.push(f.to_string());
  }
  if r.chance(30) {
    args.extend(["--dialect".into(), r.pick(&["auto", "ts", "ts", "tsx", "js"]).to_string()]);
  }
  if r.chance(20) {
    args.push("--ts-lower-class-fields".into());
  }
  cfg.apply();
  let c = Cmd { main: progs::minify::run, args, stdin: if from_file { vec![] } else { src.clone() }, files };
  let Some(want) = reference(true, || exec(&c)) else { skip("no reference") };
  let before: Vec<_> = c.files.iter().map(|f| fs::get(f)).collect();
  let full = to_file && r.chance(20);
  if full {
    fs::capacity(r.logu(1, 20_000));
  }
  budget(want.ns * 16 / cfg.ns_per_tick_x16 as u64 * 40 + 400_000_000);
  active(true);
  faults(true);
  let got = exec(&c);
  faults(false);
  let h = hard();
  if !judge(&c, &want, &got, &Judge { timed: false, disk_full: full }) {
    probe("failure_reported");
    if json && h.stdout == 0 && want.code == 0 && !(full || h.output > h.input) {
      json_errors(&c, &got);
    }
    if h.input > 0 && h.output == kind_fired(S_FS_OPEN, 1) + kind_fired(S_FS_OPEN, 2) + kind_fired(S_FS_OPEN, 3) && h.stdout == 0 && !full {
      // nothing but input failed: no result may appear anywhere
      let touched = c.files.iter().zip(&before).any(|(f, b)| fs::get(f) != *b);
      check!(!touched || fs::get(&c.files[0]) == want.files[0] || h.output > 0, "result-from-failed-input", "{:?}: output written although the input could not be read: {}", c.args, got.text());
      if !json {
        check!(got.out.is_empty(), "result-from-failed-input", "{:?}: {}", c.args, got.text());
      }
    }
  } else if got.code == 0 {
    probe("delivered");
  }
  sample(format!("{} input bytes, exit {} {}", src.len(), got.code, show(&got.err).chars().take(150).collect::<String>()));
  ok()
}

// ------------------------------------------------------------------ parse-js
pub fn parse(seed: u64) {
  let (mut r, mut cfg) = begin(seed, 22, 500_000);
  swarm_io(&mut cfg, &mut r);
  fs::mount("/w");
  fs::set_cwd("/w");
  let src = source(&mut r, true);
  let mut args: Vec<String> = vec!["parse-js".into(), "--no-color".into()];
  let json = r.chance(50);
  if json {
    args.push("--json-errors".into());
  }
  let from_file = r.chance(50);
  if from_file {
    fs::put("/w/in.ts", &src);
    if r.chance(50) {
      args.push("--input".into());
    }
    args.push(r.pick(&["in.ts", "/w/in.ts"]).to_string());
  }
  if r.chance(30) {
    args.extend(["--dialect".into(), r.pick(&["ts", "ts", "tsx", "js"]).to_string()]);
  }
  let secs = if r.chance(50) { Some(if r.chance(5) { 0 } else { r.logu(1, 4) }) } else { None };
  let mut ref_args = args.clone();
  if let Some(s) = secs {
    args.extend(["--timeout-secs".into(), s.to_string()]);
    if r.chance(30) {
      cfg.rate(S_STALL, r.logu(100, 50_000)).max(S_STALL, 10);
      cfg.stall_ns = r.logu(1_000_000, 5_000_000_000);
    }
  }
  // the undisturbed run has no time limit
  let mk = |args: &[String]| Cmd { main: progs::parse::run, args: args.to_vec(), stdin: if from_file { vec![] } else { src.clone() }, files: vec![] };
  cfg.ns_per_tick_x16 = 16;
  cfg.apply();
  let Some(want) = reference(true, || exec(&mk(&ref_args))) else { skip("no reference") };
  ref_args.clear();
  let work = want.ns; // ticks: one nanosecond each
  if let Some(s) = secs {
    // the whole run takes between a twentieth and ten times the limit
    cfg.ns_per_tick_x16 = (s.max(1) * 1_000_000_000 * 16 / work.max(1) * r.logu(5, 1000) / 100).clamp(1, u32::MAX as u64 / 4) as u32;
  }
  cfg.apply();
  let c = mk(&args);
  budget(work * 40 + 400_000_000);
  active(true);
  faults(true);
  let got = exec(&c);
  faults(false);
  let h = hard();
  let timed = secs.is_some_and(|s| got.ns >= s * 1_000_000_000);
  let full = judge(&c, &want, &got, &Judge { timed, disk_full: false });
  let cancelled = String::from_utf8_lossy(&got.err).contains("timed out after") || String::from_utf8_lossy(&got.out).contains("timed out after");
  if !full {
    probe("failure_reported");
    if h.input + h.stdout == 0 {
      check!(timed && cancelled, "unexplained-failure", "{:?}: {}", c.args, got.text());
    }
    if cancelled {
      probe("timed_out");
      // cancellation is polled: the parser stops within a bounded amount of its own work
      let s = secs.unwrap_or(0);
      let per = cfg.ns_per_tick_x16 as u64 / 16 + 1;
      let slack = (fired(S_STALL) + fired(S_FS_SLOW)) * cfg.stall_ns + per * 600_000 + per * cfg.quantum * 8;
      check!(got.ns <= s * 1_000_000_000 + slack, "late-timeout", "{:?}: limit {s} s, stopped after {} ns (slack {slack} ns): {}", c.args, got.ns, show(&got.err));
    }
    if json && h.stdout == 0 {
      json_errors(&c, &got);
    }
    if h.stdout == 0 && !json {
      check!(got.out.is_empty(), "result-from-failed-input", "{:?}: {}", c.args, got.text());
    }
  } else if got.code == 0 {
    probe("delivered");
    if secs.is_some() {
      probe("finished_within_limit");
    }
  }
  sample(format!("{} input bytes, limit {secs:?}, exit {} {}", src.len(), got.code, show(&got.err).chars().take(150).collect::<String>()));
  ok()
}

/// Modules without type errors, unless one import is missing.
fn clean_program(r: &mut Rng) -> gen_ts::Prog {
  let n = r.range(1, 4) as usize;
  let mut files = vec![];
  for i in 0..n {
    let mut t = String::new();
    if i + 1 < n {
      t.push_str(&format!("import {{ value as v, Shape as S }} from \"./m{}\";\nexport const copy: number = v;\nexport type Again = S;\n", i + 1));
    }
    t.push_str(&format!("export interface Shape {{ kind: \"k{i}\"; size: number }}\nexport const value: number = {i};\nexport function area(s: Shape): number {{ return s.size * {i}; }}\n"));
    if r.chance(15) {
      t.push_str("export const bad: string = value;\n");
    }
    files.push((format!("m{i}.ts"), t));
  }
  let roots = if r.chance(50) { vec![files[0].0.clone()] } else { files.iter().map(|f| f.0.clone()).collect() };
  gen_ts::Prog { files, roots }
}
// ------------------------------------------------------------------ typecheck-ts-cli
pub fn tsc(seed: u64) {
  let (mut r, mut cfg) = begin(seed, 23, 20_000_000);
  swarm_io(&mut cfg, &mut r);
  let meta = r.chance(10);
  if meta {
    cfg.rate(S_FS_META, r.logu(1_000, 100_000));
  }
  fs::mount("/w");
  fs::set_cwd("/w");
  fs::mkdirs("/w/proj/src");
  let prog = match r.below(4) {
    0 => gen_ts::annotated(&mut r, 3, 4),
    1 => gen_ts::program(&mut r, 3, 4),
    _ => clean_program(&mut r),
  };
  for (n, t) in &prog.files {
    fs::put(&format!("/w/proj/src/{n}"), t.as_bytes());
  }
  let mut args: Vec<String> = vec!["typecheck-ts-cli".into(), "typecheck".into(), "--no-color".into()];
  let json = r.chance(50);
  if json {
    args.push("--json".into());
  }
  fs::mkdirs("/w/proj/node_modules/@types/mini");
  fs::put("/w/proj/node_modules/@types/mini/index.d.ts", gen_ts::MINI_LIB.as_bytes());
  let project = r.chance(60);
  if project {
    let strict = r.chance(50);
    let extends = r.chance(40);
    let opts = format!("\"compilerOptions\": {{ \"noLib\": true, \"noDefaultLib\": true, \"strict\": {strict} }}");
    let mut t = String::from("{\n  // the project\n");
    if extends {
      t.push_str("  \"extends\": \"./base.json\",\n");
      fs::put("/w/proj/base.json", format!("{{ {opts} }}").as_bytes());
    } else {
      t.push_str(&format!("  {opts},\n"));
    }
    match r.below(3) {
      0 => t.push_str("  \"include\": [\"src/**/*\"],\n"),
      1 => t.push_str(&format!("  \"files\": [{}],\n", prog.roots.iter().map(|f| format!("\"src/{f}\"")).collect::<Vec<_>>().join(", "))),
      _ => {}
    }
    t.push_str("}\n");
    fs::put("/w/proj/tsconfig.json", t.as_bytes());
    args.extend(["-p".into(), r.pick(&["proj", "/w/proj/tsconfig.json", "proj/tsconfig.json"]).to_string()]);
    if r.chance(40) {
      // a package whose entry is named by its package.json
      fs::mkdirs("/w/proj/node_modules/@types/pkg/lib");
      fs::put("/w/proj/node_modules/@types/pkg/package.json", b"{ \"name\": \"@types/pkg\", \"types\": \"lib/main.d.ts\" }");
      fs::put("/w/proj/node_modules/@types/pkg/lib/main.d.ts", b"declare const fromPkg: number;\n");
      if r.chance(50) {
        fs::put("/w/proj/node_modules/@types/pkg/index.d.ts", b"declare const fromPkg: string;\n");
      }
      fs::put("/w/proj/src/usepkg.ts", format!("export const usesPkg: {} = fromPkg;\n", r.pick(&["string", "number"])).as_bytes());
    }
  } else {
    args.push("--no-default-lib".into());
    for f in &prog.roots {
      args.push(format!("proj/src/{f}"));
    }
  }
  let at = |r: &mut Rng| {
    let (n, t) = r.pick(&prog.files);
    format!("proj/src/{n}:{}", r.below(t.len() as u64 + 1))
  };
  if r.chance(35) {
    args.extend(["--type-at".into(), at(&mut r)]);
  }
  if r.chance(20) {
    args.extend(["--symbol-at".into(), at(&mut r)]);
  }
  if r.chance(30) {
    args.extend(["--explain-assignability".into(), format!("{},{}", at(&mut r), at(&mut r))]);
  }
  if r.chance(35) {
    args.extend(["--exports".into(), format!("proj/src/{}", prog.files[0].0)]);
  }
  let secs = if r.chance(50) { Some(r.logu(1, 4)) } else { None };
  let c0 = Cmd { main: progs::tsc::run, args: args.clone(), stdin: vec![], files: vec![] };
  let real = cfg.ns_per_tick_x16;
  cfg.ns_per_tick_x16 = 16;
  cfg.apply();
  let Some(want) = reference(true, || exec(&c0)) else { skip("no reference") };
  let work = want.ns;
  cfg.ns_per_tick_x16 = real;
  if let Some(s) = secs {
    args.extend(["--timeout-secs".into(), s.to_string()]);
    cfg.ns_per_tick_x16 = (s * 1_000_000_000 * 16 / work.max(1) * r.logu(30, 300) / 100).clamp(1, u32::MAX as u64 / 4) as u32;
    if r.chance(50) {
      cfg.rate(S_STALL, r.logu(100, 50_000)).max(S_STALL, 10);
      cfg.stall_ns = r.logu(1_000_000, 5_000_000_000);
    }
  }
  cfg.apply();
  let c = Cmd { args, ..c0 };
  budget(work * 40 + 2_000_000_000);
  active(true);
  faults(true);
  let got = exec(&c);
  faults(false);
  let h = hard();
  let timed = secs.is_some_and(|s| got.ns >= s * 1_000_000_000);
  let mut g2 = got.clone();
  let text = format!("{}{}", String::from_utf8_lossy(&got.err), String::from_utf8_lossy(&got.out));
  let cancelled = text.contains("CANCEL0001") || text.contains("cancelled");
  if h.meta > 0 {
    // Directory listings and path lookups that fail look like missing files to
    // the program; only the form of the result is decided then.
    check!(got.code >= 0 && (got.code != 0 || !json || serde_json::from_slice::<Value>(&got.out).is_ok()), "claimed-success", "{:?}: {}", c.args, got.text());
    probe("lookup_failures");
    ok()
  }
  let full = judge(&c, &want, &got, &Judge { timed, disk_full: false });
  if !full {
    probe("failure_reported");
    if h.input + h.stdout == 0 {
      check!(timed && cancelled, "unexplained-failure", "{:?}: {}\nwant: {}", c.args, got.text(), want.text());
    }
    if cancelled {
      probe("timed_out");
      let s = secs.unwrap_or(0);
      check!(secs.is_some() && timed, "spurious-cancellation", "{:?}: {}", c.args, got.text());
      let per = cfg.ns_per_tick_x16 as u64 / 16 + 1;
      let slack = (fired(S_STALL) + fired(S_FS_SLOW)) * cfg.stall_ns + per * (work / 2 + 2_000_000) + per * cfg.quantum * 8;
      check!(got.ns <= s * 1_000_000_000 + slack, "late-timeout", "{:?}: limit {s} s, stopped after {} ns (slack {slack} ns, undisturbed {work} ticks)", c.args, got.ns);
    }
    if json && !got.out.is_empty() && h.stdout == 0 {
      check!(serde_json::from_slice::<Value>(&got.out).is_ok(), "bad-error-report", "{:?}: partial JSON: {}", c.args, got.text());
    }
  } else {
    probe(if got.code == 0 { "delivered" } else { "delivered_errors" });
    if secs.is_some() {
      probe("finished_within_limit");
    }
    g2.err.clear();
  }
  sample(format!("{} files, limit {secs:?}, exit {} {}", prog.files.len(), got.code, show(&g2.err).chars().take(150).collect::<String>()));
  ok()
}
