//! conformance-harness TimeoutManager.
use crate::sim::*;
use conformance_harness::{CancellationToken, TimeoutManager};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Tok {
  epoch: Instant,
  deadline: Instant,
  fired: AtomicU64,
  released: AtomicBool,
  late: AtomicU64,
  early: AtomicU64,
  at_ticks: AtomicU64,
  at_ns: AtomicU64,
  slow: u64,
}
struct Cancel(Arc<Tok>);
impl CancellationToken for Cancel {
  fn cancel(&self) {
    let t = &self.0;
    let now = Instant::now();
    if now < t.deadline {
      t.early.store((t.deadline - now).as_nanos() as u64 + 1, SeqCst);
    }
    if t.released.load(SeqCst) {
      t.late.store(1, SeqCst);
    }
    t.at_ticks.store(ticks(), SeqCst);
    t.at_ns.store((now - t.epoch).as_nanos() as u64, SeqCst);
    t.fired.fetch_add(1, SeqCst);
    if t.slow > 0 {
      probe("token_slow_cancel");
      sleep_ns(t.slow);
    }
  }
}

#[derive(Clone, Debug)]
struct Op {
  wait: u64,
  rel: i64,
  hold: u64,
  nest: bool,
  slow: u64,
}

pub fn timeouts(seed: u64) {
  let mut r = Rng::new(seed, 12);
  let mut cfg = swarm(seed, &mut r, 200_000);
  cfg.stall_ns = r.logu(1_000, 50_000_000);
  if r.chance(60) {
    cfg.rate(S_SPURIOUS, r.logu(1_000, 300_000));
  }
  let stalls = r.chance(50);
  if stalls {
    cfg.rate(S_STALL, r.logu(100, 20_000)).max(S_STALL, 20);
  }
  if r.chance(40) {
    cfg.rate(S_REALTIME, r.logu(10_000, 500_000));
  }
  cfg.apply();
  let nthreads = r.range(1, 4);
  let span = r.logu(100_000, 2_000_000_000);
  let far: i64 = 3_600_000_000_000;
  let mut lists: Vec<Vec<Op>> = vec![];
  let slow_ok = r.chance(20);
  for _ in 0..nthreads {
    let n = r.range(1, 8);
    lists.push(
      (0..n)
        .map(|_| Op {
          wait: if r.chance(50) { 0 } else { r.below(span) },
          rel: match r.below(10) {
            0 => -(r.below(1_000_000) as i64),
            1 => 0,
            2 => far,
            3 => r.below(2_000) as i64,
            _ => r.below(span) as i64,
          },
          hold: match r.below(6) {
            0 => 0,
            1 | 2 => r.below(span),
            _ => r.below(2 * span),
          },
          nest: r.chance(40),
          slow: if slow_ok && r.chance(30) { r.below(span / 8 + 1) } else { 0 },
        })
        .collect(),
    );
  }
  let total_slow: u64 = lists.iter().flatten().map(|o| o.slow).sum();
  // several managers must not disturb each other
  let nm = if r.chance(25) { 2 } else { 1 };
  let drop_holding = r.chance(30);
  budget(200_000_000);
  active(true);
  faults(true);
  let epoch = Instant::now();
  let mgrs: Vec<Arc<TimeoutManager>> = (0..nm).map(|_| Arc::new(TimeoutManager::new())).collect();
  let x16 = cfg.ns_per_tick_x16 as u64;
  let mut hs = vec![];
  for (ti, ops) in lists.into_iter().enumerate() {
    let m = mgrs[ti % nm].clone();
    hs.push(spawn(move || {
      let mut held: Vec<(conformance_harness::TimeoutGuard, Arc<Tok>, i64, u64, u64)> = vec![];
      let mut all = vec![];
      let release = |(g, t, rel, t0, n0): (conformance_harness::TimeoutGuard, Arc<Tok>, i64, u64, u64)| {
        // Promptness: the only excuses for not having fired are the steps other threads took,
        // injected stalls and slow tokens.
        let now = Instant::now();
        let late = now.checked_duration_since(t.deadline).unwrap_or(Duration::ZERO).as_nanos() as u64;
        let slack = (ticks() - t0) * x16 / 16 + fired(S_STALL) * cfg.stall_ns + total_slow + 1_000;
        if t.fired.load(SeqCst) == 0 && rel < far {
          let waited = ((now - epoch).as_nanos() as u64).saturating_sub(n0);
          check!(late <= slack || waited <= slack, "timeout-missed", "deadline passed {late} ns ago (registered {waited} ns ago, excuse {slack} ns) and the token was not cancelled");
        }
        drop(g);
        t.released.store(true, SeqCst);
        let f = t.fired.load(SeqCst);
        (t, f)
      };
      for op in ops {
        if op.wait > 0 {
          sleep_ns(op.wait);
        }
        let t0 = ticks();
        let now = Instant::now();
        let deadline = if op.rel < 0 { now.checked_sub(Duration::from_nanos((-op.rel) as u64)).unwrap_or(now) } else { now + Duration::from_nanos(op.rel as u64) };
        let tok = Arc::new(Tok { epoch, deadline, fired: AtomicU64::new(0), released: AtomicBool::new(false), late: AtomicU64::new(0), early: AtomicU64::new(0), at_ticks: AtomicU64::new(0), at_ns: AtomicU64::new(0), slow: op.slow });
        let n0 = (now - epoch).as_nanos() as u64;
        let g = m.register(deadline, Cancel(tok.clone()));
        if op.rel <= 0 {
          probe("registered_already_expired");
        }
        held.push((g, tok, op.rel, t0, n0));
        if op.nest {
          continue;
        }
        if op.hold > 0 {
          sleep_ns(op.hold);
        }
        while let Some(h) = held.pop() {
          all.push(release(h));
        }
      }
      sleep_ns(1_000);
      // some guards are still held when the manager goes away
      if drop_holding {
        let toks: Vec<_> = held.iter().map(|h| h.1.clone()).collect();
        return (all, toks, held.into_iter().map(|h| h.0).collect::<Vec<_>>());
      }
      for h in held {
        all.push(release(h));
      }
      (all, vec![], vec![])
    }));
  }
  let mut done = vec![];
  let mut open = vec![];
  let mut guards = vec![];
  for h in hs {
    let (a, t, g) = h.join().expect("worker panicked");
    done.extend(a);
    open.extend(t);
    guards.extend(g);
  }
  // liveness once faults stop: whatever is still held and due fires
  faults(false);
  // a stall that began before still lasts, and the manager needs some steps
  sleep_ns(2 * span + total_slow + 1_000_000 + fired(S_STALL) * cfg.stall_ns + 20_000 * x16 / 16);
  for t in &open {
    if Instant::now() > t.deadline {
      check!(t.fired.load(SeqCst) == 1, "timeout-missed", "held past its deadline with no fault left, cancelled {} times", t.fired.load(SeqCst));
    }
  }
  for m in mgrs {
    drop(m);
  }
  let before: Vec<u64> = open.iter().map(|t| t.fired.load(SeqCst)).collect();
  drop(guards);
  sleep_ns(4 * span + fired(S_STALL) * cfg.stall_ns);
  for (i, t) in open.iter().enumerate() {
    check!(t.fired.load(SeqCst) == before[i], "cancelled-after-shutdown", "a token was cancelled after its manager was dropped");
    done.push((t.clone(), before[i]));
  }
  let mut fired_n = 0;
  for (t, at_release) in &done {
    let f = t.fired.load(SeqCst);
    fired_n += f.min(1);
    check!(t.early.load(SeqCst) == 0, "cancelled-early", "cancelled {} ns before its deadline", t.early.load(SeqCst));
    check!(f <= 1, "cancelled-twice", "token cancelled {f} times");
    check!(t.late.load(SeqCst) == 0 && f == *at_release, "cancelled-after-release", "a token was cancelled after its guard had been dropped");
  }
  probe_n("tokens_cancelled", fired_n);
  probe_n("tokens_released_in_time", done.len() as u64 - fired_n);
  sample(format!("{nthreads} threads, {nm} managers, {} registrations, {} cancelled, span {span} ns", done.len(), fired_n));
  ok()
}
