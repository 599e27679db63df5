//! Queries against a `Program`, and the concurrent-query scenario.
use super::tc::*;
use crate::gen_ts::{self, Prog};
use crate::sim::*;
use std::sync::Arc;
use typecheck_ts::{BodyId, DefId, FatalError, FileId, FileKey, Program};

#[derive(Clone, Debug)]
pub enum Q {
  Check,
  Defs(FileId),
  Bodies(FileId),
  Exports(FileId),
  DefType(DefId),
  Declared(DefId),
  DefMeta(DefId),
  Init(DefId),
  Body(BodyId),
  BodyMeta(BodyId),
  TypeAt(FileId, u32),
  ExprAt(FileId, u32),
  SymbolAt(FileId, u32),
  Members(DefId),
  Explain(DefId, DefId),
  Globals,
  Files,
  Options,
  Snapshot,
}

fn fatal(e: FatalError) -> String {
  match e {
    FatalError::Cancelled => "!cancelled".into(),
    FatalError::Host(h) => format!("!host {h}"),
    FatalError::Ice(i) => format!("!ice {}", i.message),
    FatalError::OutOfMemory => "!oom".into(),
  }
}
fn show<T: std::fmt::Debug>(r: Result<T, FatalError>) -> String {
  match r {
    Ok(v) => format!("{v:?}"),
    Err(e) => fatal(e),
  }
}
pub fn exec(p: &Program, q: &Q) -> String {
  exec_mid(p, q, &mut || ())
}
/// `mid` runs between the API calls of a composite query.
pub fn exec_mid(p: &Program, q: &Q, mid: &mut dyn FnMut()) -> String {
  match q {
    Q::Check => match p.check_fallible() {
      Ok(d) => fmt_diags(&d),
      Err(e) => fatal(e),
    },
    Q::Defs(f) => show(p.definitions_in_file_fallible(*f)),
    Q::Bodies(f) => format!("{:?} {:?}", p.bodies_in_file(*f), p.file_body(*f)),
    Q::Exports(f) => match p.exports_of_fallible(*f) {
      Ok(m) => {
        let mut v: Vec<_> = m.into_iter().map(|(n, e)| format!("{n}: {e:?}")).collect();
        v.sort();
        v.join("\n")
      }
      Err(e) => fatal(e),
    },
    Q::DefType(d) => match p.type_of_def_fallible(*d) {
      Ok(t) => {
        mid();
        format!("{t:?} {} {:?}", p.display_type(t), p.type_kind_fallible(t).ok())
      }
      Err(e) => fatal(e),
    },
    Q::Declared(d) => show(p.declared_type_of_def_interned_fallible(*d)),
    Q::DefMeta(d) => format!("{} {} {} {}", show(p.def_name_fallible(*d)), show(p.def_kind_fallible(*d)), show(p.span_of_def_fallible(*d)), show(p.body_of_def_fallible(*d))),
    Q::Init(d) => show(p.var_initializer_fallible(*d)),
    Q::Body(b) => match p.check_body_fallible(*b) {
      Ok(r) => format!("{:?}", r),
      Err(e) => fatal(e),
    },
    Q::BodyMeta(b) => {
      let e = p.exprs_in_body(*b);
      let s: Vec<_> = e.iter().map(|e| p.expr_span(*b, *e)).collect();
      format!("{e:?} {s:?} {:?}", p.pats_in_body(*b))
    }
    Q::TypeAt(f, o) => match p.type_at_fallible(*f, *o) {
      Ok(t) => {
        mid();
        format!("{t:?} {}", t.map(|t| p.display_type(t).to_string()).unwrap_or_default())
      }
      Err(e) => fatal(e),
    },
    Q::ExprAt(f, o) => show(p.expr_at_fallible(*f, *o)),
    Q::SymbolAt(f, o) => match p.symbol_at_fallible(*f, *o) {
      Ok(s) => format!("{s:?} {:?}", s.and_then(|s| p.symbol_info(s)).map(|i| (i.def, i.file, i.name, i.span))),
      Err(e) => fatal(e),
    },
    Q::Members(d) => match p.type_of_def_fallible(*d) {
      Ok(t) => {
        mid();
        let mut s = show(p.properties_of_fallible(t));
        mid();
        s += &show(p.call_signatures_fallible(t));
        mid();
        s += &show(p.construct_signatures_fallible(t));
        mid();
        s + &show(p.indexers_fallible(t))
      }
      Err(e) => fatal(e),
    },
    Q::Explain(a, b) => {
      let x = p.type_of_def_fallible(*a);
      mid();
      let y = p.type_of_def_fallible(*b);
      mid();
      match (x, y) {
        (Ok(x), Ok(y)) => show(p.explain_assignability_fallible(x, y)),
        (Err(e), _) | (_, Err(e)) => fatal(e),
      }
    }
    Q::Globals => format!("{:?}", p.global_bindings()),
    Q::Files => {
      let mut f: Vec<_> = p.reachable_files().into_iter().map(|f| (p.file_key(f).map(|k| k.as_str().to_string()), f, p.file_text(f).map(|t| t.len()))).collect();
      f.sort();
      format!("{f:?}")
    }
    Q::Snapshot => {
      let s = p.snapshot();
      match s.diagnostics.iter().find(|d| d.code.as_str() == "CANCEL0001") {
        Some(_) => "!cancelled".into(),
        None => "a snapshot".into(),
      }
    }
    Q::Options => format!("{:?}", p.compiler_options()),
  }
}

/// A pool of queries that make sense for this (checked) program.
pub fn pool(p: &Program, prog: &Prog, r: &mut Rng, max: usize) -> Vec<Q> {
  let mut v = vec![Q::Check, Q::Globals, Q::Files, Q::Options];
  let mut defs_all = vec![];
  for (name, text) in &prog.files {
    let Some(f) = p.file_id(&FileKey::new(name.clone())) else { continue };
    v.push(Q::Defs(f));
    v.push(Q::Bodies(f));
    v.push(Q::Exports(f));
    for d in p.definitions_in_file(f) {
      defs_all.push(d);
      v.extend([Q::DefType(d), Q::Declared(d), Q::DefMeta(d), Q::Init(d), Q::Members(d)]);
    }
    for b in p.bodies_in_file(f) {
      v.extend([Q::Body(b), Q::BodyMeta(b)]);
    }
    for _ in 0..8 {
      let o = r.below(text.len() as u64 + 1) as u32;
      v.extend([Q::TypeAt(f, o), Q::ExprAt(f, o), Q::SymbolAt(f, o)]);
    }
  }
  for _ in 0..6 {
    if !defs_all.is_empty() {
      v.push(Q::Explain(*r.pick(&defs_all), *r.pick(&defs_all)));
    }
  }
  r.shuffle(&mut v);
  v.truncate(max);
  if !v.iter().any(|q| matches!(q, Q::Check)) {
    v[0] = Q::Check;
  }
  v
}
pub fn dump(p: &Prog) -> String {
  p.files.iter().map(|(n, t)| format!("// {n}\n{t}")).collect::<String>()
}

/// One sequential history on a fresh program: the answer to its last query.
fn last_answer(prog: &Prog, o: &typecheck_ts::lib_support::CompilerOptions, hist: &[&Q]) -> String {
  let p = build(prog, o);
  let mut out = String::new();
  for q in hist {
    out = exec(&p, q);
  }
  out
}
/// Is there a sequential order of (some of) these queries in which `q` gets `got`?
/// `done` is the observed completion order up to `q`.
fn reached(prog: &Prog, o: &typecheck_ts::lib_support::CompilerOptions, r: &mut Rng, all: &[&Q], done: &[&Q], q: &Q, ok: &dyn Fn(&str) -> bool) -> bool {
  let try_ = |h: &[&Q]| {
    let mut h = h.to_vec();
    h.push(q);
    ok(&last_answer(prog, o, &h))
  };
  if try_(done) || try_(&[]) || try_(&[&Q::Check]) {
    return true;
  }
  // one earlier query only (distinct ones), with and without a check before it
  let mut seen = std::collections::HashSet::new();
  let uniq: Vec<&Q> = all.iter().copied().filter(|x| seen.insert(format!("{x:?}"))).collect();
  for x in &uniq {
    if try_(&[x]) || try_(&[&Q::Check, x]) || try_(&[x, &Q::Check]) {
      return true;
    }
    // composite queries: `x` may run between their API calls
    for pre in [None, Some(&Q::Check)] {
      for at in 0..4 {
        let p = build(prog, o);
        if let Some(c) = pre {
          exec(&p, c);
        }
        let mut n = 0;
        let a = exec_mid(&p, q, &mut || {
          if n == at {
            exec(&p, x);
          }
          n += 1;
        });
        if ok(&a) {
          return true;
        }
        if n <= at + 1 {
          break;
        }
      }
    }
  }
  // `x` between two of the bodies a check goes through
  let p = build(prog, o);
  p.check();
  let bodies: Vec<Q> = prog.files.iter().filter_map(|(n, _)| p.file_id(&FileKey::new(n.clone()))).flat_map(|f| p.bodies_in_file(f)).map(Q::Body).collect();
  for x in &uniq {
    for k in 1..=bodies.len().min(12) {
      for order in 0..2 {
        let mut h: Vec<&Q> = if order == 0 { bodies[..k].iter().collect() } else { bodies[bodies.len() - k..].iter().rev().collect() };
        h.push(x);
        if try_(&h) {
          return true;
        }
        h.push(&Q::Check);
        h.extend(done);
        if try_(&h) {
          return true;
        }
      }
    }
  }
  for k in 0..60 {
    let mut h = uniq.clone();
    r.shuffle(&mut h);
    if k % 2 == 0 {
      h.truncate(r.range(1, h.len() as u64) as usize);
    }
    if try_(&h) {
      return true;
    }
  }
  false
}

/// Some sequential history gives `got`.
fn explained(prog: &Prog, o: &typecheck_ts::lib_support::CompilerOptions, r: &mut Rng, all: &[&Q], done: &[&Q], q: &Q, got: &str) -> bool {
  reached(prog, o, r, all, done, q, &|a| a == got)
}

/// Some sequential history gives `got`, or sequential histories without any
/// cancellation already disagree on `q` beyond whether a check came first: a
/// history cut short by a cancellation may then give yet another answer.
fn explained_or_sensitive(prog: &Prog, o: &typecheck_ts::lib_support::CompilerOptions, r: &mut Rng, all: &[&Q], done: &[&Q], q: &Q, got: &str) -> bool {
  let base = [last_answer(prog, o, &[q]), last_answer(prog, o, &[&Q::Check, q])];
  reached(prog, o, r, all, done, q, &|a| a == got || !base.iter().any(|b| b == a))
}

/// P02: several threads query one Program; each answer is one that a
/// sequential history of the same queries gives.
pub fn queries(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let prog = if r.chance(50) { gen_ts::annotated(&mut r, 3, 4) } else { gen_ts::layered(&mut r, 3, 4) };
  let o = options(&mut r);
  let t0 = ticks();
  let (qs, want) = premise(REF, || {
    let a = build(&prog, &o);
    a.check();
    let qs = pool(&a, &prog, &mut r, 60);
    let a = build(&prog, &o);
    a.check();
    let w: Vec<String> = qs.iter().map(|q| exec(&a, q)).collect();
    (qs, w)
  });
  let len = ticks() - t0;
  let nthreads = r.range(2, 4) as usize;
  let precheck = r.chance(30);
  // often, several threads start with the same question
  let bodies: Vec<usize> = (0..qs.len()).filter(|i| matches!(qs[*i], Q::Body(_))).collect();
  let head = match r.below(4) {
    0 => Some(r.below(qs.len() as u64) as usize),
    1 | 2 if !bodies.is_empty() => Some(*r.pick(&bodies)),
    _ => None,
  };
  let plan: Vec<Vec<usize>> = (0..nthreads)
    .map(|_| {
      let n = r.range(2, 12);
      let check = qs.iter().position(|q| matches!(q, Q::Check)).unwrap();
      let first = if r.chance(70) { head } else { None };
      (0..n).map(|k| if let (0, Some(h)) = (k, first) { h } else if r.chance(15) { check } else { r.below(qs.len() as u64) as usize }).collect()
    })
    .collect();
  sample(format!("{} files, threads run {:?} queries, check first: {precheck}", prog.files.len(), plan.iter().map(|p| p.len()).collect::<Vec<_>>()));
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  active(true);
  budget(30 * nthreads as u64 * len + 60_000_000);
  let b = Arc::new(build(&prog, &o));
  if precheck {
    b.check();
  }
  let qs = Arc::new(qs);
  let log: Arc<std::sync::Mutex<Vec<(usize, usize, String)>>> = Default::default();
  let hs: Vec<_> = plan
    .into_iter()
    .enumerate()
    .map(|(t, ops)| {
      let (b, qs, log) = (b.clone(), qs.clone(), log.clone());
      spawn(move || {
        for (k, i) in ops.into_iter().enumerate() {
          if !op_enabled(t * 64 + k) {
            continue;
          }
          let got = exec(&b, &qs[i]);
          log.lock().unwrap().push((t, i, got));
        }
      })
    })
    .collect();
  for h in hs {
    if h.join().is_err() {
      violation("panic", format!("a query thread panicked\n{}", dump(&prog)));
    }
  }
  active(false);
  budget(0);
  let log = std::mem::take(&mut *log.lock().unwrap());
  probe_n("concurrent_queries", log.len() as u64);
  let mut done: Vec<&Q> = if precheck { vec![&Q::Check] } else { vec![] };
  let all: Vec<&Q> = log.iter().map(|(_, i, _)| &qs[*i]).collect();
  let mut searched = 0;
  for (t, i, got) in &log {
    if *got != want[*i] {
      check!(!got.starts_with("!ice") || want[*i].starts_with("!"), "internal-error", "thread {t} {:?} answered {got}\n{}", qs[*i], dump(&prog));
      searched += 1;
      if searched > 4 {
        break;
      }
      probe("order_dependent_answer");
      let ok_ = premise(200 * REF, || explained(&prog, &o, &mut r, &all, &done, &qs[*i], got));
      check!(ok_, "unexplained-answer", "thread {t} {:?}: no sequential order gives this answer; against check-first order: {}\nqueries completed before: {:?}\n{}", qs[*i], first_diff(got, &want[*i]), done, dump(&prog));
    }
    done.push(&qs[*i]);
  }
  ok()
}

/// P03: a request in flight when the program is cancelled returns soon, with the
/// full answer or "cancelled"; afterwards the program answers as if nothing happened.
pub fn cancel(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let prog = if r.chance(30) { gen_ts::annotated(&mut r, 4, 5) } else { gen_ts::layered(&mut r, 4, 5) };
  let o = options(&mut r);
  let t0 = ticks();
  let (qs, want, after, one, head) = premise(REF, || {
    let a = build(&prog, &o);
    a.check();
    let qs = pool(&a, &prog, &mut r, 80);
    // the question every thread starts with
    let bodies: Vec<&Q> = qs.iter().filter(|q| matches!(q, Q::Body(_))).collect();
    let head = match r.below(10) {
      0..=3 if !bodies.is_empty() => (*r.pick(&bodies)).clone(),
      4 => r.pick(&qs).clone(),
      5 => Q::Snapshot,
      _ => Q::Check,
    };
    let a = build(&prog, &o);
    let t0 = ticks();
    exec(&a, &head);
    let one = ticks() - t0;
    let d = exec(&a, &Q::Check);
    let w: Vec<String> = qs.iter().map(|q| exec(&a, q)).collect();
    (qs, d, w, one, head)
  });
  let len = ticks() - t0;
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 200);
  cfg.stall_ns = cfg.stall_ns.min(1_000_000);
  cfg.apply();
  let rounds = r.range(1, 3);
  sample(format!("{} files, {rounds} cancellations", prog.files.len()));
  active(true);
  let b = Arc::new(build(&prog, &o));
  let mut asked: Vec<Q> = vec![];
  // answered questions, in the order of their completion
  let answered: Arc<std::sync::Mutex<Vec<(Q, String)>>> = Default::default();
  for round in 0..rounds {
    if !op_enabled(round as usize) {
      continue;
    }
    let nthreads = r.range(1, 3) as usize;
    let hs: Vec<_> = (0..nthreads)
      .map(|t| {
        let b = b.clone();
        let ops: Vec<Q> = (0..r.range(1, 4)).map(|k| if k == 0 { head.clone() } else if r.chance(30) { Q::Check } else if r.chance(5) { Q::Snapshot } else { r.pick(&qs).clone() }).collect();
        asked.extend(ops.iter().cloned());
        let want = want.clone();
        let msg = dump(&prog);
        let answered = answered.clone();
        spawn(move || {
          let mut n = 0;
          for q in ops {
            let got = exec(&b, &q);
            if got.starts_with("!cancelled") {
              n += 1;
            } else {
              answered.lock().unwrap().push((q.clone(), got.clone()));
              check!(!got.starts_with('!') || want.starts_with('!'), "internal-error", "{q:?} under cancellation in thread {t} answered {got}\n{msg}");
            }
          }
          n
        })
      })
      .collect();
    let delay = r.below((nthreads as u64 + 2) * one + 100);
    let start = ticks();
    while ticks() < start + delay && !hs.iter().all(|h| h.is_finished()) {
      std::hint::spin_loop();
      std::thread::yield_now();
    }
    let early = r.chance(25).then(|| r.logu(1, one + 2));
    b.cancel();
    let t1 = ticks();
    if let Some(d) = early {
      // withdrawn while what it was meant for may still be running
      while ticks() < t1 + d && !hs.iter().all(|h| h.is_finished()) {
        std::thread::yield_now();
      }
      b.clear_cancellation();
      probe("cleared_in_flight");
    }
    if hs.iter().any(|h| !h.is_finished()) {
      probe("cancelled_in_flight");
    }
    budget(30 * nthreads as u64 * len + 60_000_000);
    let mut cancelled = 0;
    for h in hs {
      match h.join() {
        Ok(n) => cancelled += n,
        Err(e) => violation("panic", format!("a query thread panicked: {}\n{}", payload(&*e), dump(&prog))),
      }
    }
    let lag = ticks() - t1;
    budget(0);
    probe_n("cancelled_requests", cancelled);
    probe_n("lag_pct", lag * 100 / len);
    // while cancelled, requests are refused
    if early.is_some() {
      continue;
    }
    let got = exec(&b, &Q::Check);
    check!(got == "!cancelled", "cancel-ignored", "a check started while cancelled answered {got}");
    b.clear_cancellation();
  }
  active(false);
  let all: Vec<&Q> = asked.iter().collect();
  let answers = answered.lock().unwrap().clone();
  let answered: Vec<Q> = answers.iter().map(|(q, _)| q.clone()).collect();
  // a failed query starts the analysis over: a suffix of the answered ones counts
  let by_suffix = |done: &[&Q], q: &Q, got: &str| {
    (0..=answered.len()).any(|k| {
      let mut h: Vec<&Q> = answered[k..].iter().collect();
      h.extend(done);
      h.push(q);
      last_answer(&prog, &o, &h) == got
    })
  };
  let msg = || format!("answered {answered:?}\nasked {asked:?}\n{}", dump(&prog));
  // no answer given while being cancelled is a partial one
  let mut searched = 0;
  for (k, (q, got)) in answers.iter().enumerate() {
    let at = qs.iter().position(|x| format!("{x:?}") == format!("{q:?}"));
    let full = match q {
      Q::Check => got == &want,
      // made of calls that have no way to report a cancellation
      Q::Snapshot | Q::Bodies(_) | Q::BodyMeta(_) | Q::DefType(_) | Q::TypeAt(..) | Q::SymbolAt(..) | Q::Globals | Q::Files | Q::Options => continue,
      _ if got.contains("!cancelled") => continue,
      _ => at.is_some_and(|i| *got == after[i]),
    };
    if full {
      probe("full_answer_under_cancellation");
      continue;
    }
    searched += 1;
    if searched > 3 {
      break;
    }
    probe("early_answer_under_cancellation");
    let before: Vec<&Q> = answered[..k].iter().collect();
    let ok_ = premise(200 * REF, || (0..=k).any(|j| last_answer(&prog, &o, &answered[j..=k].iter().collect::<Vec<_>>()) == *got) || explained_or_sensitive(&prog, &o, &mut r, &all, &before, q, got));
    check!(ok_, "partial-answer", "{q:?} under cancellation: {}\n{}", first_diff(got, at.map_or(&want, |i| &after[i])), msg());
  }
  let got = exec(&b, &Q::Check);
  if got != want {
    probe("order_dependent_answer");
    let ok_ = premise(200 * REF, || by_suffix(&[], &Q::Check, &got) || explained_or_sensitive(&prog, &o, &mut r, &all, &[], &Q::Check, &got));
    check!(ok_, "diagnostics-differ", "after cancellation: {}\n{}", first_diff(&got, &want), msg());
  }
  let mut done: Vec<&Q> = vec![&Q::Check];
  let mut searched = 0;
  for (i, q) in qs.iter().enumerate() {
    let got = exec(&b, q);
    if got != after[i] {
      searched += 1;
      if searched > 3 {
        break;
      }
      probe("order_dependent_answer");
      let all: Vec<&Q> = asked.iter().chain(qs[..i].iter()).collect();
      let ok_ = premise(200 * REF, || by_suffix(&done, q, &got) || explained_or_sensitive(&prog, &o, &mut r, &all, &done, q, &got));
      if let (false, Q::Declared(d)) = (ok_, q) {
        let t = b.type_of_def(*d);
        dbg(&format!("GOT {}\n", b.display_type(t)));
        for h in [vec![q], vec![&Q::Check, q], vec![&Q::Check, &Q::Check, q], done.iter().copied().chain([q]).collect()] {
          let p = build(&prog, &o);
          for q in &h { exec(&p, q); }
          dbg(&format!("{h:?} {}\n", p.display_type(p.type_of_def(*d))));
        }
      }
      check!(ok_, "answers-differ", "after cancellation {q:?}: {}\n{}", first_diff(&got, &after[i]), msg());
    }
    done.push(q);
  }
  ok()
}
