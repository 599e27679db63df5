//! Edit histories, failing hosts, snapshots.
use super::tc::*;
use super::tq::*;
use crate::gen_ts::{self, Prog};
use crate::sim::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use typecheck_ts::lib_support::{CompilerOptions, FileKind, LibFile};
use typecheck_ts::{FatalError, FileId, FileKey, Host, HostError, MemoryHost, Program};

pub fn full(p: &Program) -> String {
  let mut s = match p.check_fallible() {
    Ok(d) => fmt_diags(&d),
    Err(FatalError::Host(h)) => format!("!host {h}\n"),
    Err(FatalError::Cancelled) => "!cancelled\n".into(),
    Err(FatalError::Ice(i)) => format!("!ice {}\n", i.message),
    Err(FatalError::OutOfMemory) => "!oom\n".into(),
  };
  s += "----\n";
  s += &observe(p, true);
  s
}

/// P04: a program that went through any history of edits, option changes,
/// (concurrent, cancelled) queries answers like a fresh one on the final inputs.
pub fn edits(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let nvar = r.range(2, 4) as usize;
  let (base, vars) = gen_ts::variants(&mut r, 4, 4, nvar);
  let opts: Vec<CompilerOptions> = (0..3).map(|_| options(&mut r)).collect();
  let mut cur = base.clone();
  let mut cur_o = 0usize;
  let t0 = ticks();
  premise(REF, || full(&build(&base, &opts[0])));
  let len = ticks() - t0;
  let steps = r.range(2, 9) as usize;
  let mut cfg = swarm(seed, &mut r, len * 3);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 200);
  cfg.apply();
  let mut p = Arc::new(build(&base, &opts[0]));
  let mut ids: BTreeMap<usize, FileId> = BTreeMap::new();
  let mut hist = String::new();
  let look = |p: &Program, ids: &mut BTreeMap<usize, FileId>| {
    for (i, (n, _)) in base.files.iter().enumerate() {
      if let Some(f) = p.file_id(&FileKey::new(n.clone())) {
        ids.insert(i, f);
      }
    }
  };
  active(true);
  let mut unchecked = false;
  let mut dirty = true; // no query since the last reset
  for s in 0..=steps {
    // plan first, so that masking a step leaves the others as they were
    let kind = r.below(100);
    let f = r.below(base.files.len() as u64) as usize;
    let k = r.below(nvar as u64) as usize;
    let oi = r.below(opts.len() as u64) as usize;
    let n_threads = r.range(1, 3) as usize;
    let delay = r.logu(1, 2 * len + 2);
    let cancel = r.chance(60);
    let mut rq = Rng::new(seed, 1000 + s as u64);
    let compare = r.chance(40);
    if !op_enabled(s) {
      continue;
    }
    if kind < 50 {
      if let Some(id) = ids.get(&f).copied() {
        hist += &format!("set m{f} to {k}; ");
        let text = vars[f][k].clone();
        Arc::get_mut(&mut p).unwrap().set_file_text(id, Arc::from(text.as_str()));
        cur.files[f].1 = text;
        unchecked = true;
        if dirty {
          probe("edit_after_edit");
        }
        dirty = true;
        probe("edits");
      }
    } else if kind < 60 {
      hist += &format!("options {oi}; ");
      Arc::get_mut(&mut p).unwrap().set_compiler_options(opts[oi].clone());
      cur_o = oi;
      unchecked = true;
      dirty = true;
      probe("option_changes");
    } else {
      dirty = false;
      if unchecked {
        // inputs that a fresh program cannot handle are not judged
        active(false);
        faults(false);
        premise(REF, || full(&build(&cur, &opts[cur_o])));
        active(true);
        faults(true);
        unchecked = false;
      }
      hist += &format!("{n_threads} threads{}; ", if cancel { " cancelled" } else { "" });
      budget(40 * n_threads as u64 * len + 80_000_000);
      let hs: Vec<_> = (0..n_threads)
        .map(|_| {
          let p = p.clone();
          let ids: Vec<FileId> = ids.values().copied().collect();
          let mut rq = Rng::new(rq.next(), 7);
          spawn(move || {
            for k in 0..rq.range(1, 4) {
              let q = match rq.below(if ids.is_empty() { 1 } else { 6 }) {
                0 => Q::Check,
                1 => Q::Defs(*rq.pick(&ids)),
                2 => Q::Exports(*rq.pick(&ids)),
                3 => Q::Files,
                4 => Q::TypeAt(*rq.pick(&ids), rq.below(300) as u32),
                _ => Q::SymbolAt(*rq.pick(&ids), rq.below(300) as u32),
              };
              let q = if k == 0 && rq.chance(50) { Q::Check } else { q };
              exec(&p, &q);
            }
          })
        })
        .collect();
      if cancel {
        let start = ticks();
        while ticks() < start + delay && !hs.iter().all(|h| h.is_finished()) {
          std::thread::yield_now();
        }
        p.cancel();
        if hs.iter().any(|h| !h.is_finished()) {
          probe("cancelled_in_flight");
        }
      }
      for h in hs {
        if h.join().is_err() {
          violation("panic", format!("a query thread panicked after {hist}"));
        }
      }
      p.clear_cancellation();
      budget(0);
      continue;
    }
    if (compare && dirty) || s == steps {
      active(false);
      faults(false);
      let want = premise(REF, || full(&build(&cur, &opts[cur_o])));
      // a query history may change what later queries see; an edit starts over
      unchecked = false;
      let got = full(&p);
      check!(got == want, "history-dependent", "after {hist}: {}\n{}", first_diff(&got, &want), dump(&cur));
      probe("compared");
      look(&p, &mut ids);
      dirty = false;
      active(true);
      faults(true);
    } else if s == 0 || r.chance(30) {
      look(&p, &mut ids);
      dirty = false;
    }
  }
  active(false);
  faults(false);
  // the last word is an edit
  let f = *ids.keys().next().unwrap_or(&0);
  if let Some(id) = ids.get(&f) {
    cur.files[f].1 = vars[f][nvar - 1].clone();
    Arc::get_mut(&mut p).unwrap().set_file_text(*id, Arc::from(vars[f][nvar - 1].as_str()));
    let want = premise(REF, || full(&build(&cur, &opts[cur_o])));
    let got = full(&p);
    check!(got == want, "history-dependent", "after {hist} set m{f} to {}: {}\n{}", nvar - 1, first_diff(&got, &want), dump(&cur));
    probe("compared");
  }
  sample(hist);
  ok()
}

pub const S_HOST_READ: usize = S_USER0;
pub const S_HOST_RESOLVE: usize = S_USER0 + 1;
pub const S_HOST_OTHER: usize = S_USER0 + 2;

/// A host whose calls fail, panic or stall when the simulator says so.
pub struct FaultyHost {
  pub inner: TsHost,
  /// A file that cannot be read for now.
  pub bad: Arc<std::sync::Mutex<Option<String>>>,
}
fn trip(site: usize, kinds: u32) -> u32 {
  let k = fault(site, kinds);
  if k == 3 {
    sleep_ns(fault_arg() % 1_000_000_000);
    return 0;
  }
  if k == 2 {
    panic!("host exploded");
  }
  k
}
impl Host for FaultyHost {
  fn file_text(&self, file: &FileKey) -> Result<Arc<str>, HostError> {
    if trip(S_HOST_READ, 3) == 1 || self.bad.lock().unwrap().as_deref() == Some(file.as_str()) {
      return Err(HostError::new("disk on fire"));
    }
    self.inner.file_text(file)
  }
  fn resolve(&self, from: &FileKey, specifier: &str) -> Option<FileKey> {
    if trip(S_HOST_RESOLVE, 3) == 1 {
      return None;
    }
    self.inner.resolve(from, specifier)
  }
  fn compiler_options(&self) -> CompilerOptions {
    trip(S_HOST_OTHER, 3);
    self.inner.compiler_options()
  }
  fn lib_files(&self) -> Vec<LibFile> {
    trip(S_HOST_OTHER, 3);
    self.inner.lib_files()
  }
  fn file_kind(&self, file: &FileKey) -> FileKind {
    trip(S_HOST_OTHER, 3);
    self.inner.file_kind(file)
  }
}

/// P05: host failures are reported, contained, and forgotten after they stop.
pub fn hostfaults(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let prog = gen_ts::program(&mut r, 4, 4);
  let o = options(&mut r);
  let t0 = ticks();
  let (want, want_d, qs) = premise(REF, || {
    let a = build(&prog, &o);
    let w = full(&a);
    let a = build(&prog, &o);
    let d = exec(&a, &Q::Check);
    let qs = pool(&a, &prog, &mut r, 40);
    (w, d, qs)
  });
  let len = ticks() - t0;
  let mut cfg = swarm(seed, &mut r, len * 2);
  site_name(S_HOST_READ, "host_file_text: error, panic, stall");
  site_name(S_HOST_RESOLVE, "host_resolve: none, panic, stall");
  site_name(S_HOST_OTHER, "host_other: -, panic, stall");
  let hot = r.logu(5_000, 500_000);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 200);
  if r.chance(80) { cfg.rate(S_HOST_READ, hot); }
  if r.chance(50) { cfg.rate(S_HOST_RESOLVE, hot / 2); }
  if r.chance(40) { cfg.rate(S_HOST_OTHER, hot / 2); }
  cfg.apply();
  let bad: Arc<std::sync::Mutex<Option<String>>> = Default::default();
  let mut p = Arc::new(Program::new(FaultyHost { inner: host(&prog, &o), bad: bad.clone() }, roots(&prog)));
  let reach = premise(REF, || {
    let a = build(&prog, &o);
    a.reachable_files().iter().filter_map(|f| a.file_key(*f)).map(|k| k.as_str().to_string()).filter(|k| k.ends_with(".ts") && !k.ends_with(".d.ts")).collect::<Vec<_>>()
  });
  let unreadable = if r.chance(40) && !reach.is_empty() { Some(r.pick(&reach).clone()) } else { None };
  let rounds = r.range(1, 4) as usize;
  sample(format!("{} files, {rounds} rounds", prog.files.len()));
  let msg = || dump(&prog);
  for round in 0..rounds {
    let n_threads = r.range(1, 3) as usize;
    let mut rr = Rng::new(seed, 100 + round as u64);
    let reset = r.chance(70);
    if !op_enabled(round) {
      continue;
    }
    *bad.lock().unwrap() = if round == 0 { unreadable.clone() } else { None };
    active(true);
    faults(true);
    budget(60 * n_threads as u64 * len + 100_000_000);
    let all_before = fired(S_HOST_READ) + fired(S_HOST_RESOLVE) + fired(S_HOST_OTHER);
    if n_threads == 1 {
      // one request at a time: every read error shows
      let got = exec(&p, &Q::Check);
      let all = fired(S_HOST_READ) + fired(S_HOST_RESOLVE) + fired(S_HOST_OTHER);
      if got.starts_with('!') {
        check!(all > all_before || unreadable.is_some() && round == 0, "error-without-fault", "check failed without a host fault: {got}\n{}", msg());
        probe("requests_failed_by_host");
      } else {
        probe("requests_survived");
        if let (Some(f), 0) = (&unreadable, round) {
          probe("unreadable_file_reported");
          check!(got != want_d, "read-error-hidden", "{f} could not be read, yet the diagnostics are those of the intact program\n{}", msg());
        }
        if all == all_before && round == 0 && unreadable.is_none() {
          check!(got == want_d, "differs-without-fault", "{}\n{}", first_diff(&got, &want_d), msg());
        }
      }
    } else {
      let hs: Vec<_> = (0..n_threads)
        .map(|_| {
          let p = p.clone();
          let ops: Vec<Q> = (0..rr.range(1, 4)).map(|k| if k == 0 || rr.chance(30) { Q::Check } else { rr.pick(&qs).clone() }).collect();
          spawn(move || {
            for q in ops {
              exec(&p, &q);
            }
          })
        })
        .collect();
      for h in hs {
        if h.join().is_err() {
          violation("panic", format!("a host failure escaped from a fallible query\n{}", msg()));
        }
      }
    }
    active(false);
    faults(false);
    budget(0);
    *bad.lock().unwrap() = None;
    if reset || round == rounds - 1 {
      let clean = full(&p);
      if clean != want {
        probe("degraded_until_invalidated");
      }
      // the faults have stopped; starting over gives the fault-free answers
      Arc::get_mut(&mut p).unwrap().set_compiler_options(o.clone());
      let got = full(&p);
      check!(got == want, "not-recovered", "after host faults stopped: {}\n{}", first_diff(&got, &want), msg());
      probe("compared");
    }
  }
  ok()
}

#[allow(unused)]
fn unused(_: &Prog) {}

/// A host that has nothing to offer.
pub struct DeadHost;
impl Host for DeadHost {
  fn file_text(&self, _: &FileKey) -> Result<Arc<str>, HostError> {
    Err(HostError::new("gone"))
  }
  fn resolve(&self, _: &FileKey, _: &str) -> Option<FileKey> {
    None
  }
}

/// P06: a snapshot does not depend on the schedule, and what is restored from
/// it answers the same whoever asks.
pub fn snapshot(seed: u64) {
  let mut r = Rng::new(seed, 1);
  if Rng::new(seed, 2).chance(35) {
    return snapshot_edited(seed);
  }
  let prog = gen_ts::program(&mut r, 4, 4);
  let o = options(&mut r);
  let pre_check = r.chance(40);
  let t0 = ticks();
  let (want_s, want_o, want_d) = premise(REF, || {
    let a = build(&prog, &o);
    if pre_check {
      a.check();
    }
    let snap = a.snapshot();
    let s = serde_json::to_string(&snap).unwrap();
    let c = Program::from_snapshot(DeadHost, serde_json::from_str(&s).unwrap());
    let w = observe(&c, true);
    (s, w, fmt_diags(&snap.diagnostics))
  });
  let len = ticks() - t0;
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  let n_threads = r.range(1, 3) as usize;
  sample(format!("{} files, {} byte snapshot, {n_threads} threads", prog.files.len(), want_s.len()));
  let msg = || dump(&prog);
  active(true);
  budget(60 * len + 80_000_000);
  let b = Arc::new(build(&prog, &o));
  if pre_check {
    b.check();
  }
  let s = serde_json::to_string(&b.snapshot()).unwrap();
  probe("snapshots");
  if s != want_s {
    let i = s.bytes().zip(want_s.bytes()).position(|(a, b)| a != b).unwrap_or(0);
    let lo = i.saturating_sub(200);
    violation("snapshot-differs", format!("got  ..{}\nwant ..{}\n{}", &s[lo..(i + 200).min(s.len())], &want_s[lo..(i + 200).min(want_s.len())], msg()));
  }
  let c = Arc::new(Program::from_snapshot(DeadHost, serde_json::from_str(&s).unwrap()));
  let hs: Vec<_> = (0..n_threads)
    .map(|_| {
      let c = c.clone();
      let d = n_threads == 1 || r.chance(50);
      spawn(move || (d.then(|| exec(&c, &Q::Check)), observe(&c, true)))
    })
    .collect();
  for h in hs {
    match h.join() {
      Ok((d, got)) => {
        if let Some(d) = d {
          check!(d == want_d, "restored-diagnostics-differ", "{}\n{}", first_diff(&d, &want_d), msg());
        }
        check!(got == want_o, "restored-answers-differ", "{}\n{}", first_diff(&got, &want_o), msg());
      }
      Err(_) => violation("panic", format!("a thread panicked\n{}", msg())),
    }
  }
  ok()
}

/// P06 again, for programs that were edited before the snapshot was taken, and
/// for restored programs that are edited afterwards.
fn snapshot_edited(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let nvar = r.range(2, 3) as usize;
  let (base, vars) = gen_ts::variants(&mut r, 3, 4, nvar);
  let o = options(&mut r);
  let nfiles = base.files.len();
  let mut last = base.clone();
  let plan: Vec<(usize, usize, bool)> =
    (0..r.range(1, 4)).map(|_| (r.below(nfiles as u64) as usize, r.below(nvar as u64) as usize, r.chance(50))).collect();
  let after: Vec<(usize, usize)> = (0..r.range(0, 2)).map(|_| (r.below(nfiles as u64) as usize, r.below(nvar as u64) as usize)).collect();
  let cancelled = r.chance(30);
  let t0 = ticks();
  premise(REF, || full(&build(&base, &o)));
  let len = ticks() - t0;
  // every state on the way must be one the checker can cope with
  premise(2 * REF, || {
    let mut b = base.clone();
    for (f, k) in plan.iter().map(|(f, k, _)| (f, k)).chain(after.iter().map(|(f, k)| (f, k))) {
      b.files[*f].1 = vars[*f][*k].clone();
      let p = build(&b, &o);
      p.snapshot();
      full(&p);
    }
  });
  let mut cfg = swarm(seed, &mut r, len * 2);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  let mut p = build(&base, &o);
  let id = |p: &Program, f: usize| p.file_id(&FileKey::new(base.files[f].0.clone()));
  active(true);
  budget(40 * len + 80_000_000);
  let mut hist = String::new();
  let (mut checked, mut dirty) = (false, false);
  for (s, (f, k, ask)) in plan.iter().enumerate() {
    if !op_enabled(s) {
      continue;
    }
    if *ask {
      hist += "check; ";
      if cancelled {
        let p = Arc::new(&p);
        let q = p.clone();
        std::thread::scope(|sc| {
          let h = sc.spawn(move || {
            exec(&q, &Q::Check);
          });
          let end = ticks() + r.logu(1, len + 2);
          while ticks() < end && !h.is_finished() {
            std::thread::yield_now();
          }
          p.cancel();
        });
        p.clear_cancellation();
        dirty = true;
      } else {
        p.check();
        checked = true;
      }
    }
    // files that are not reachable have no id and cannot be edited
    if let Some(id) = id(&p, *f) {
      hist += &format!("set m{f} to {k}; ");
      p.set_file_text(id, Arc::from(vars[*f][*k].as_str()));
      last.files[*f].1 = vars[*f][*k].clone();
      probe("edits_before_snapshot");
      checked = false;
      dirty = false;
    }
  }
  // what was asked since the last edit may show in a snapshot
  if dirty {
    p.set_compiler_options(o.clone());
    checked = false;
  }
  let snap = p.snapshot();
  let s = serde_json::to_string(&snap).unwrap();
  active(false);
  faults(false);
  budget(0);
  sample(format!("{nfiles} files, {hist}"));
  for f in &snap.files {
    if let Some((_, t)) = last.files.iter().find(|(n, _)| *n == f.key.as_str()) {
      check!(f.text.as_deref() == Some(t), "snapshot-text", "after {hist}: {} holds\n{:?}\nnot\n{t}", f.key.as_str(), f.text);
    }
  }
  let want = premise(REF, || {
    let a = build(&last, &o);
    if checked {
      a.check();
    }
    let s = serde_json::to_string(&a.snapshot()).unwrap();
    let c = Program::from_snapshot(DeadHost, serde_json::from_str(&s).unwrap());
    observe(&c, true)
  });
  let got = observe(&Program::from_snapshot(DeadHost, serde_json::from_str(&s).unwrap()), true);
  check!(got == want, "restored-answers-differ", "after {hist}: {}\n{}", first_diff(&got, &want), dump(&last));
  probe("restored_after_edits");
  // edits of the restored program, which now lives on a host that has files
  let mut c = Program::from_snapshot(host(&last, &o), serde_json::from_str(&s).unwrap());
  let mut n = 0;
  for (f, k) in &after {
    if let Some(id) = id(&c, *f) {
      c.set_file_text(id, Arc::from(vars[*f][*k].as_str()));
      last.files[*f].1 = vars[*f][*k].clone();
      n += 1;
    }
  }
  if n > 0 {
    let want = premise(REF, || full(&build(&last, &o)));
    let got = full(&c);
    check!(got == want, "restored-and-edited", "after {hist} snapshot {after:?}: {}\n{}", first_diff(&got, &want), dump(&last));
    probe("edited_after_restore");
  }
  ok()
}
