//! The language pipeline: parser, binders, lowering, emitter, minifier, optimiser.
use super::cli;
use super::tc::first_diff;
use crate::sim::*;
use diagnostics::FileId;
use emit_js::EmitOptions;
use hir_js::FileKind;
use parse_js::{Dialect, ParseOptions, SourceType};
use semantic_js::js::TopLevelMode;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

/// Plain JavaScript the optimiser understands.
pub fn js(r: &mut Rng, n: usize) -> String {
  let mut vars: Vec<String> = vec![];
  let mut s = String::new();
  let mut k = 0;
  for _ in 0..n {
    js_stmt(r, &mut s, &mut vars, &mut k, 0);
  }
  s
}
fn js_expr(r: &mut Rng, vars: &[String], d: u32) -> String {
  let v = |r: &mut Rng| if vars.is_empty() || r.chance(10) { format!("g{}", r.below(4)) } else { r.pick(vars).clone() };
  if d > 3 {
    return if r.chance(50) { v(r) } else { r.below(9).to_string() };
  }
  match r.below(18) {
    0 | 1 => r.below(100).to_string(),
    2 => format!("'s{}'", r.below(5)),
    3..=5 => v(r),
    6..=8 => {
      let op = *r.pick(&["+", "-", "*", "/", "%", "<", ">=", "===", "!==", "==", "&&", "||", "??", "&", "|", "<<", "**"]);
      format!("(({}) {op} ({}))", js_expr(r, vars, d + 1), js_expr(r, vars, d + 1))
    }
    9 => format!("(({}) ? ({}) : ({}))", js_expr(r, vars, d + 1), js_expr(r, vars, d + 1), js_expr(r, vars, d + 1)),
    10 => format!("g{}({}, {})", r.below(3), js_expr(r, vars, d + 1), js_expr(r, vars, d + 1)),
    11 => format!("[{}, {}]", js_expr(r, vars, d + 1), js_expr(r, vars, d + 1)),
    12 => format!("({{ a: {}, b{}: {} }})", js_expr(r, vars, d + 1), r.below(3), js_expr(r, vars, d + 1)),
    13 => format!("{}.p{}", v(r), r.below(4)),
    14 => format!("{}?.q?.[{}]", v(r), js_expr(r, vars, d + 1)),
    15 => format!("{}({})", *r.pick(&["!", "-", "+", "~", "typeof ", "void "]), js_expr(r, vars, d + 1)),
    16 => format!("Math.{}({})", *r.pick(&["abs", "max", "round", "sqrt"]), js_expr(r, vars, d + 1)),
    _ => format!("`t${{{}}}u`", js_expr(r, vars, d + 1)),
  }
}
fn js_block(r: &mut Rng, vars: &[String], k: &mut u32, d: u32) -> String {
  let mut inner = vars.to_vec();
  let mut s = String::from("{\n");
  for _ in 0..r.range(1, 4) {
    js_stmt(r, &mut s, &mut inner, k, d + 1);
  }
  s + "}\n"
}
fn js_stmt(r: &mut Rng, s: &mut String, vars: &mut Vec<String>, k: &mut u32, d: u32) {
  *k += 1;
  let c = if d > 3 { r.below(8) } else { r.below(16) };
  match c {
    0..=2 => {
      let e = js_expr(r, vars, 0);
      let n = format!("v{k}");
      s.push_str(&format!("let {n} = {e};\n"));
      vars.push(n);
    }
    3 | 4 => {
      if let Some(v) = (!vars.is_empty()).then(|| r.pick(vars).clone()) {
        let op = *r.pick(&["=", "+=", "-=", "*=", "||="]);
        s.push_str(&format!("{v} {op} {};\n", js_expr(r, vars, 0)));
      }
    }
    5 => s.push_str(&format!("g{}({});\n", r.below(4), js_expr(r, vars, 0))),
    6 => s.push_str(&format!("g{}.x{} = {};\n", r.below(4), r.below(3), js_expr(r, vars, 0))),
    7 => s.push_str(&format!("{};\n", js_expr(r, vars, 0))),
    8 | 9 => {
      s.push_str(&format!("if ({}) {}", js_expr(r, vars, 0), js_block(r, vars, k, d)));
      if r.chance(50) {
        s.push_str(&format!("else {}", js_block(r, vars, k, d)));
      }
    }
    10 => s.push_str(&format!("while ({}) {{ {} if ({}) break; }}\n", js_expr(r, vars, 1), js_block(r, vars, k, d), js_expr(r, vars, 1))),
    11 => {
      let i = format!("i{k}");
      let mut inner = vars.clone();
      inner.push(i.clone());
      s.push_str(&format!("for (let {i} = 0; {i} < {}; {i} += 1) {}", r.below(9), js_block(r, &inner, k, d)));
    }
    12 | 13 => {
      let n = format!("f{k}");
      let mut inner = vars.clone();
      inner.extend([format!("a{k}"), format!("b{k}")]);
      let body = js_block(r, &inner, k, d);
      let ret = js_expr(r, &inner, 1);
      s.push_str(&format!("const {n} = (a{k}, b{k}) => {{ {body} return {ret}; }};\n"));
      vars.push(n);
    }
    14 => s.push_str(&format!("do {} while ({});\n", js_block(r, vars, k, d), js_expr(r, vars, 1))),
    _ => s.push_str(&format!("outer{k}: for (;;) {{ {} if ({}) continue outer{k}; break outer{k}; }}\n", js_block(r, vars, k, d), js_expr(r, vars, 1))),
  }
}

#[derive(Clone, Debug)]
struct Job {
  text: String,
  dialect: u8,
  module: bool,
  stages: u32,
}
const DIALECTS: [Dialect; 4] = [Dialect::Ts, Dialect::Tsx, Dialect::Js, Dialect::Ecma];
const KINDS: [FileKind; 4] = [FileKind::Ts, FileKind::Tsx, FileKind::Js, FileKind::Js];

fn job(r: &mut Rng) -> Option<Job> {
  let module = r.chance(70);
  let plain = r.chance(50);
  let text = if plain {
    let n = r.logu(2, 12) as usize;
    js(r, n)
  } else {
    let mut t = String::from_utf8(cli::source(r, module)).ok()?;
    if t.len() > 4000 {
      let cut = (3000..4000).rev().find(|i| t.is_char_boundary(*i) && t.as_bytes()[*i] == b'\n').unwrap_or(0);
      t.truncate(cut);
    }
    t
  };
  let dialect = if plain { r.below(4) } else { r.below(2) } as u8;
  Some(Job { text, dialect, module, stages: 1 + r.below(63) as u32 })
}

fn stage(out: &mut Vec<(String, String)>, name: &str, f: impl FnOnce() -> String) {
  let s = match catch_unwind(AssertUnwindSafe(f)) {
    Ok(s) => s,
    Err(e) => format!("!panic {}", payload(&*e)),
  };
  out.push((name.into(), s));
}
/// A hash map of sets in a fixed order.
fn sorted<K: Ord + Copy, V: Ord + Copy>(m: &ahash::HashMap<K, ahash::HashSet<V>>) -> BTreeMap<K, BTreeSet<V>> {
  m.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect()
}
/// What the published flow analyses say about a function.
fn analyses(c: &optimize_js::cfg::cfg::Cfg) -> String {
  use optimize_js::analysis::*;
  use optimize_js::dom::{Dom, PostDom};
  let (dom, post) = (Dom::<false>::calculate(c), PostDom::calculate(c));
  let mut s = format!("{:?} {:?} {} {}\n", dom.postorder(), post.postorder(), dom.entry(), post.entry());
  for l in c.graph.labels_sorted() {
    let kids = |d: &mut dyn Iterator<Item = u32>| d.collect::<BTreeSet<u32>>();
    s += &format!("{l} {:?} {:?} {:?} {:?}\n", dom.idom_of(l), post.idom_of(l), kids(&mut dom.immediately_dominated_by(l)), kids(&mut post.immediately_dominated_by(l)));
  }
  s += &format!("{:?} {:?}\n", sorted(&dom.dominance_frontiers(c)), sorted(&defs::calculate_defs(c)));
  let li = loop_info::LoopInfo::compute(c, &dom);
  for l in &li.loops {
    s += &format!("{:?} {} {:?} {:?} {:?} {:?} {:?}\n", l.id, l.header, l.parent, l.children, l.nodes.iter().collect::<BTreeSet<_>>(), l.latches, l.exits);
  }
  let heads: BTreeMap<_, _> = li.header_to_loop.iter().map(|(k, v)| (*k, v.0)).collect();
  s += &format!("{heads:?} {:?} {:?}\n", li.overlapping, sorted(&find_loops::find_loops(c, &dom)));
  let conds = find_conds::find_conds(c, &dom, &post);
  for (k, v) in conds.iter().collect::<BTreeMap<_, _>>() {
    s += &cond(*k, v);
  }
  s += &attempt(|| {
    let (inl, gone) = single_use_insts::analyse_single_use_defs(c);
    let live = liveness::calculate_live_ins(c, &inl, &gone);
    let graph = interference::calculate_interference_graph(&live);
    let regs = registers::allocate_registers(&graph);
    probe("registers_allocated");
    format!("{:?} {:?} {:?} {:?} {:?}\n", inl.iter().collect::<BTreeMap<_, _>>(), gone.iter().collect::<BTreeSet<_>>(), sorted(&live), sorted(&graph), regs.iter().collect::<BTreeMap<_, _>>())
  });
  let live = liveness::calculate_live_ins(c, &Default::default(), &Default::default());
  s += &format!("{:?}\n", sorted(&live));
  s
}
fn cond(k: u32, v: &optimize_js::analysis::find_conds::CondRegion) -> String {
  let sets = [&v.then_nodes, &v.else_nodes].map(|n| n.iter().copied().collect::<BTreeSet<u32>>());
  format!("{k} {} {} {} {sets:?}\n", v.then_entry, v.else_entry, v.join)
}
/// These are only defined for single-assignment form, so they may refuse.
fn attempt(f: impl FnOnce() -> String) -> String {
  catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|e| payload(&*e))
}
fn cfg_dump(f: &optimize_js::ProgramFunction) -> String {
  let c = &f.body;
  let mut s = String::new();
  let blocks: BTreeMap<u32, _> = c.bblocks.all().collect();
  for (l, b) in &blocks {
    s += &format!("{l} -> {:?} <- {:?}\n", c.graph.children_sorted(*l), c.graph.parents_sorted(*l));
    for i in b.iter() {
      s += &format!("  {i:?}\n");
    }
  }
  if let Some(d) = &f.debug {
    for st in d.steps() {
      s += &format!("{} {:?} {:?} {:?}\n", st.name, st.bblock_order, st.bblocks, st.cfg_children);
    }
  }
  s += &analyses(c);
  s += &attempt(|| {
    let ra = optimize_js::decompile::regalloc::compute_regalloc(c);
    let regs: BTreeMap<_, _> = ra.temp_to_reg.iter().collect();
    let inl: BTreeMap<_, _> = ra.inlines.iter().collect();
    let it: BTreeSet<_> = ra.inlined_temps.iter().collect();
    format!("{regs:?} {} {inl:?} {it:?}", ra.reg_count)
  });
  s += &format!(" {:?} {}\n", f.stats, attempt(|| optimize_js::structure_cfg(c).to_debug_string()));
  s
}
fn program_dump(p: &optimize_js::Program) -> String {
  let mut s = format!("{:?}\n", p.symbols);
  for f in std::iter::once(&p.top_level).chain(&p.functions) {
    s += &cfg_dump(f);
  }
  s
}

/// Everything the pipeline says about one source text.
fn work(j: &Job) -> Vec<(String, String)> {
  let mut out = vec![];
  let file = FileId(7);
  let opts = ParseOptions { dialect: DIALECTS[j.dialect as usize], source_type: if j.module { SourceType::Module } else { SourceType::Script } };
  let kind = KINDS[j.dialect as usize];
  let mode = if j.module { TopLevelMode::Module } else { TopLevelMode::Global };
  let parse = || parse_js::parse_with_options(&j.text, opts);
  let mut parsed = false;
  stage(&mut out, "parse", || match parse() {
    Ok(a) => {
      parsed = true;
      serde_json::to_string(&a).unwrap()
    }
    Err(e) => format!("{e:?}"),
  });
  if parsed {
    if j.stages & 1 != 0 {
      stage(&mut out, "emit", || format!("{:?}", emit_js::emit_top_level_diagnostic(file, &parse().unwrap(), EmitOptions::canonical())));
      stage(&mut out, "emit-min", || format!("{:?}", emit_js::emit_top_level_diagnostic(file, &parse().unwrap(), EmitOptions::minified())));
    }
    if j.stages & 2 != 0 {
      stage(&mut out, "bind", || {
        let mut a = parse().unwrap();
        let (sem, d) = semantic_js::js::bind_js(&mut a, mode, file);
        format!("{sem:?} {d:?}")
      });
    }
    if j.stages & 4 != 0 {
      stage(&mut out, "lower", || {
        let a = parse().unwrap();
        let (l, d) = hir_js::lower_file_with_diagnostics(file, kind, &a);
        let ts = semantic_js::ts::from_hir_js::lower_to_ts_hir(&a, &l);
        format!("{l:?}\n{d:?}\n{ts:?}\n{:?}", emit_js::emit_hir_file_to_string(&l, EmitOptions::canonical()))
      });
    }
  }
  if j.stages & 8 != 0 {
    stage(&mut out, "minify", || {
      let mut o = b"left over".to_vec();
      let r = minify_js::minify_with_options(minify_js::MinifyOptions::new(mode), &j.text, &mut o);
      format!("{r:?} {}", String::from_utf8_lossy(&o))
    });
  }
  for (bit, typed) in [(16, false), (32, true)] {
    if j.stages & bit == 0 || (typed && j.text.len() > 1500) {
      continue;
    }
    stage(&mut out, if typed { "optimize-typed" } else { "optimize" }, || {
      let debug = j.stages & 1 != 0;
      let p = if typed {
        let o = typecheck_ts::lib_support::CompilerOptions { no_default_lib: true, ..Default::default() };
        let prog = super::tc::build(&crate::gen_ts::Prog { files: vec![("input.ts".into(), j.text.clone())], roots: vec!["input.ts".into()] }, &o);
        let _ = prog.check();
        let f = prog.file_id(&typecheck_ts::FileKey::new("input.ts")).unwrap();
        optimize_js::compile_file_with_typecheck(Arc::new(prog), f, mode, debug)
      } else { optimize_js::compile_source(&j.text, mode, debug) };
      match p {
        Ok(p) => {
          probe(if typed { "optimised_typed" } else { "optimised" });
          program_dump(&p)
            + &attempt(|| match optimize_js::program_to_js(&p, &optimize_js::DecompileOptions { declare_registers: j.stages & 2 != 0, ..Default::default() }, EmitOptions::canonical()) {
              Ok(b) => String::from_utf8_lossy(&b).into_owned(),
              Err(e) => format!("{e:?}"),
            })
        }
        Err(d) => format!("{d:?}"),
      }
    });
  }
  out
}

/// P15: the same text gives the same result in every thread, under every schedule and hash seed.
pub fn pipeline(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let jobs: Vec<Job> = (0..r.range(1, 4)).filter_map(|_| job(&mut r)).collect();
  if jobs.is_empty() {
    return skip("no text");
  }
  let Some((want, len)) = reference(true, || {
    let t0 = ticks();
    let w: Vec<Vec<(String, String)>> = jobs.iter().map(work).collect();
    (w, (ticks() - t0).max(200_000))
  }) else {
    return skip("reference too slow");
  };
  let want = Arc::new(want);
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_SPURIOUS, 0).rate(S_STALL, 100);
  cfg.apply();
  sample(format!("{} texts, {} bytes", jobs.len(), jobs.iter().map(|j| j.text.len()).sum::<usize>()));
  active(true);
  let nthreads = r.range(1, 3) as usize;
  let jobs = Arc::new(jobs);
  let hs: Vec<_> = (0..nthreads)
    .map(|t| {
      let (jobs, want) = (jobs.clone(), want.clone());
      let mut order: Vec<usize> = (0..jobs.len()).collect();
      r.shuffle(&mut order);
      if nthreads > 1 && r.chance(30) {
        order.truncate(r.range(1, order.len() as u64) as usize);
      }
      let on = op_enabled(t);
      spawn(move || {
        for i in order.into_iter().filter(|_| on) {
          let got = work(&jobs[i]);
          for (g, w) in got.iter().zip(&want[i]) {
            check!(g.0 == w.0, "stages-differ", "stage {} instead of {}", g.0, w.0);
            check!(g.1 == w.1, "output-differs", "{}: {}\n{:?}", g.0, first_diff(&g.1, &w.1), jobs[i]);
            if g.1.starts_with("!panic") {
              probe("stage_panics_alike");
            }
          }
          check!(got.len() == want[i].len(), "stages-differ", "{} stages instead of {}", got.len(), want[i].len());
        }
      })
    })
    .collect();
  budget(60 * nthreads as u64 * len + 60_000_000);
  for h in hs {
    if let Err(e) = h.join() {
      violation("panic", payload(&*e));
    }
  }
  ok()
}

struct Files(Vec<Vec<usize>>);
impl semantic_js::ts::Resolver for Files {
  fn resolve(&self, from: FileId, spec: &str) -> Option<FileId> {
    let i: u32 = spec.strip_prefix("./m")?.parse().ok()?;
    (i < self.0.len() as u32 && from.0 < self.0.len() as u32).then_some(FileId(i))
  }
}

/// P16: parser, lowering and binder stop when asked to and are unaffected otherwise.
pub fn pcancel(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let nthreads = r.range(1, 3) as usize;
  let what: Vec<u64> = (0..nthreads).map(|_| r.below(3)).collect();
  let mut texts: Vec<Vec<String>> = vec![];
  for w in &what {
    texts.push(if *w == 1 && r.chance(12) {
      // one big function: stopping must not wait for its end
      let n = r.range(30, 120) as usize;
      vec![format!("function big() {{\n{}}}\n", js(&mut r, n))]
    } else if *w == 2 {
      crate::gen_ts::program(&mut r, 5, 6).files.into_iter().map(|f| f.1).collect()
    } else {
      match String::from_utf8(cli::source(&mut r, true)) {
        Ok(t) => vec![t],
        Err(_) => return skip("no text"),
      }
    });
  }
  type Out = Result<String, String>;
  // Err: cancelled; `span` receives when the work itself began and ended
  let run = |w: u64, texts: &[String], cancel: Option<Arc<AtomicBool>>, calls: &AtomicU64, span: &mut (u64, u64)| -> Out {
    span.0 = ticks();
    let opts = ParseOptions { dialect: Dialect::Ts, source_type: SourceType::Module };
    if w == 0 {
      let p = match &cancel {
        Some(c) => parse_js::parse_with_options_cancellable(&texts[0], opts, c.clone()),
        None => parse_js::parse_with_options(&texts[0], opts),
      };
      span.1 = ticks();
      return match p {
        Ok(a) => Ok(serde_json::to_string(&a).unwrap()),
        Err(e) if e.typ == parse_js::error::SyntaxErrorType::Cancelled => Err("cancelled".into()),
        Err(e) => Ok(format!("{e:?}")),
      };
    }
    let mut lowered = vec![];
    active(false);
    let asts: Vec<_> = texts.iter().map(|t| parse_js::parse_with_options(t, opts)).collect();
    active(true);
    for (i, a) in asts.iter().enumerate() {
      let Ok(a) = a else { return Ok("syntax error".into()) };
      let f = FileId(i as u32);
      if w == 1 {
        let c = cancel.clone();
        span.0 = ticks();
        let l = catch_unwind(AssertUnwindSafe(|| match c {
          Some(c) => hir_js::lower_file_with_diagnostics_with_cancellation(f, FileKind::Ts, a, Some(c)),
          None => hir_js::lower_file_with_diagnostics(f, FileKind::Ts, a),
        }));
        span.1 = ticks();
        return match l {
          Ok(l) => Ok(format!("{l:?}")),
          Err(e) if e.is::<diagnostics::Cancelled>() => Err("cancelled".into()),
          Err(e) => Ok(format!("!panic {}", payload(&*e))),
        };
      }
      active(false);
      let l = hir_js::lower_file(f, FileKind::Ts, a);
      lowered.push(Arc::new(semantic_js::ts::from_hir_js::lower_to_ts_hir(a, &l)));
      active(true);
    }
    let roots: Vec<FileId> = (0..lowered.len() as u32).map(FileId).collect();
    let res = Files(vec![vec![]; lowered.len()]);
    let hir = |f: FileId| {
      calls.fetch_add(1, Ordering::Relaxed);
      lowered[f.0 as usize].clone()
    };
    span.0 = ticks();
    let (sem, d) = match &cancel {
      Some(c) => semantic_js::ts::bind_ts_program_with_cancellation(&roots, &res, hir, Some(c)),
      None => semantic_js::ts::bind_ts_program(&roots, &res, hir),
    };
    span.1 = ticks();
    // the caller has to discard the result when it has cancelled
    if cancel.is_some_and(|c| c.load(Ordering::Relaxed)) {
      return Err("cancelled".into());
    }
    Ok(format!("{sem:?} {d:?}"))
  };
  // one after the other: the sequential, uncancellable answers and how long they take
  let Some(want) = reference(true, || {
    what
      .iter()
      .zip(&texts)
      .map(|(w, t)| {
        let mut span = (0, 0);
        let o = run(*w, t, None, &AtomicU64::new(0), &mut span).unwrap_or_default();
        (o, span.1.saturating_sub(span.0))
      })
      .collect::<Vec<(String, u64)>>()
  }) else {
    return skip("reference too slow");
  };
  let longest = want.iter().map(|w| w.1).max().unwrap();
  let mut cfg = swarm(seed, &mut r, longest.max(100_000));
  cfg.rate(S_SPURIOUS, 0).rate(S_STALL, 0);
  cfg.apply();
  let flags: Vec<Arc<AtomicBool>> = (0..nthreads).map(|_| Arc::new(AtomicBool::new(false))).collect();
  // when each is cancelled; some never
  let at: Vec<Option<u64>> = want.iter().map(|w| if r.chance(25) { None } else { Some(if r.chance(10) { 0 } else { r.below(w.1 * (nthreads as u64 + 1) + 100) }) }).collect();
  sample(format!("{what:?} {at:?}"));
  active(true);
  let start = ticks();
  let run = Arc::new(run);
  for (f, a) in flags.iter().zip(&at) {
    if *a == Some(0) {
      f.store(true, Ordering::Relaxed);
    }
  }
  let hs: Vec<_> = (0..nthreads)
    .map(|i| {
      let (w, t, c) = (what[i], texts[i].clone(), flags[i].clone());
      let run = run.clone();
      spawn(move || {
        let calls = AtomicU64::new(0);
        let mut span = (0, 0);
        let o = run(w, &t, Some(c), &calls, &mut span);
        (o, span, calls.load(Ordering::Relaxed))
      })
    })
    .collect();
  let mut when: Vec<Option<u64>> = at.iter().map(|a| if *a == Some(0) { Some(start) } else { None }).collect();
  budget(60 * nthreads as u64 * longest + 60_000_000);
  loop {
    for i in 0..nthreads {
      if let (Some(a), None) = (at[i], when[i]) {
        if ticks() >= start + a {
          flags[i].store(true, Ordering::Relaxed);
          when[i] = Some(ticks());
          if !hs[i].is_finished() {
            probe("cancelled_in_flight");
          }
        }
      }
    }
    if hs.iter().all(|h| h.is_finished()) {
      break;
    }
    std::thread::yield_now();
  }
  for (i, h) in hs.into_iter().enumerate() {
    let (o, span, calls) = match h.join() {
      Ok(x) => x,
      Err(e) => return violation("panic", format!("{}: {}", what[i], payload(&*e))),
    };
    let name = ["parse", "lower", "bind"][what[i] as usize];
    match o {
      Ok(s) => {
        check!(s == want[i].0, "partial-result", "{name}, cancelled {:?}: {}\n{}", when[i], first_diff(&s, &want[i].0), texts[i].join("\n//\n"));
        check!(at[i] != Some(0) || s.is_empty() || s == "syntax error" || texts[i][0].len() < 40, "cancel-ignored", "{name} was cancelled before it started and answered");
        probe("full_result");
      }
      Err(_) => {
        check!(when[i].is_some(), "stray-cancellation", "{name} was never cancelled but says so");
        probe("cancelled_result");
        let lag = span.1.saturating_sub(when[i].unwrap().max(span.0));
        probe_n("lag_pct", lag * 100 / want[i].1.max(1));
        // other threads run in between: their work counts as time here
        let others: u64 = want.iter().map(|w| w.1).sum();
        check!(nthreads > 1 || lag <= want[i].1 / 3 + 300_000, "cancel-late", "{name} went on for {lag} steps of {} after it was cancelled (others {others})", want[i].1);
        check!(at[i] != Some(0) || calls <= 2, "cancel-late", "{name} asked for {calls} files although it was cancelled before it started");
      }
    }
  }
  ok()
}
