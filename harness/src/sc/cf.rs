//! typecheck-ts-harness: conformance runs, the tsc process pool, snapshots.
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;
use typecheck_ts_harness::*;

const U_REQ: usize = S_USER0;
const U_START: usize = S_USER0 + 1;
const MAXC: usize = 32;

// What the simulated tsc does. Children can be killed anywhere: no locks here.
static mut REPLY: Vec<Vec<u8>> = Vec::new();
static mut SLOW_NS: u64 = 0;
static mut PAD: usize = 0;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
/// failures of the simulated tsc while serving case i
static OWN: [AtomicU64; MAXC] = [Z; MAXC];
/// failures not tied to a case
static ANON: AtomicU64 = Z;
static SERVED: [AtomicU64; MAXC] = [Z; MAXC];
static HUNG: AtomicU64 = Z;

#[allow(static_mut_refs)]
pub fn child(_file: &str, argv: &[String], i: i32, o: i32, _e: i32) -> i32 {
  if !argv.iter().any(|a| a.ends_with("tsc_runner.js")) {
    return 0;
  }
  match fault(U_START, 2) {
    1 => {
      ANON.fetch_add(1, SeqCst);
      return 1;
    }
    2 => sleep_ns(fault_arg() % 50_000_000),
    _ => {}
  }
  let mut buf: Vec<u8> = vec![];
  let mut tmp = [0u8; 4096];
  loop {
    let nl = loop {
      if let Some(p) = buf.iter().position(|b| *b == b'\n') {
        break p;
      }
      let n = fd_read(i, &mut tmp);
      if n <= 0 {
        return 0;
      }
      buf.extend_from_slice(&tmp[..n as usize]);
    };
    let line = String::from_utf8_lossy(&buf[..nl]).into_owned();
    buf.drain(..=nl);
    let k = match line.find("@@case") {
      Some(p) => line[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap_or(0),
      None => return 3,
    };
    SERVED[k].fetch_add(1, SeqCst);
    let reply = unsafe { &REPLY[k] };
    let fail = || {
      OWN[k].fetch_add(1, SeqCst);
    };
    match fault(U_REQ, 9) {
      1 => {
        fail();
        return 1;
      }
      2 => {
        fail();
        fd_write(o, &reply[..reply.len() * 2 / 3]);
        return 0;
      }
      3 => {
        fail();
        fd_write(o, b"(node) something odd\n");
        return 0;
      }
      4 => {
        fail();
        fd_write(o, b"Debugger attached.\n");
      }
      5 => {
        fail();
        fd_write(o, b"{\"diagnostics\":[],\"crash\":{\"message\":\"boom\"}}\n");
        continue;
      }
      6 => {
        HUNG.fetch_add(1, SeqCst);
        loop {
          sleep_ns(3_600_000_000_000);
        }
      }
      7 => sleep_ns(fault_arg() % unsafe { SLOW_NS + 1 }),
      8 => {
        fd_write(o, reply);
        fd_write(o, b"\n");
        ANON.fetch_add(1, SeqCst);
        return 0;
      }
      9 => {
        let pad = vec![b' '; unsafe { PAD }];
        fd_write(o, &pad);
      }
      _ => {}
    }
    if !fd_write(o, reply) || !fd_write(o, b"\n") {
      return 0;
    }
  }
}

pub struct Suite {
  pub root: String,
  pub name: String,
  /// id -> case number
  pub ids: BTreeMap<String, usize>,
  pub rust: Vec<Vec<Value>>,
}
pub const BASE: &str = "/repo/typecheck-ts-harness/baselines";

fn body(r: &mut Rng, k: usize) -> String {
  let pad = "x".repeat(k);
  let mut s = format!("// @noLib: true\n// @@case{k} {pad}\n");
  let n = r.range(1, 3);
  for j in 0..n {
    s.push_str(&match r.below(6) {
      0 => format!("const a{j}: string = {k};\n"),
      1 => format!("const a{j}: number = {k};\n"),
      2 => format!("function f{j}(p: number): string {{ return p; }}\nf{j}({k});\n"),
      3 => format!("export const e{j} = missing{k};\n"),
      4 => format!("interface I{j} {{ a: number }}\nconst o{j}: I{j} = {{ a: \"{k}\" }};\n"),
      _ => format!("type T{j} = {{ v: {k} }};\nexport const t{j}: T{j} = {{ v: {k} }};\n"),
    });
  }
  if r.chance(20) {
    s.push_str(&format!("// @filename: other{k}.ts\nexport const other{k}: number = \"no\";\n"));
  }
  s
}

/// Puts a generated suite on the simulated disk and decides what tsc says about each case.
pub fn suite(r: &mut Rng, maxn: u64) -> Suite {
  let name = "vsuite".to_string();
  let root = format!("/sim/{name}");
  fs::mount("/sim");
  fs::mount(&format!("{BASE}/{name}"));
  fs::mkdirs(&root);
  let n = r.range(1, maxn) as usize;
  let mut ids = BTreeMap::new();
  let dirs = ["", "a/", "a/deep/", "b/", "c/"];
  for k in 1..=n {
    let id = format!("{}c{}.{}", r.pick(&dirs), r.below(900) + 100 * k as u64, r.pick(&["ts", "ts", "ts", "tsx", "d.ts"]));
    if ids.contains_key(&id) {
      continue;
    }
    let text = if r.chance(4) { vec![0x2f, 0x2f, 0xff, 0xfe, 0x0a] } else { body(r, k).into_bytes() };
    let p = format!("{root}/{id}");
    fs::mkdirs(&p[..p.rfind('/').unwrap()]);
    fs::put(&p, &text);
    ids.insert(id, k);
  }
  // things discovery must ignore
  if r.chance(50) {
    fs::put(&format!("{root}/README.md"), b"# no test");
    fs::mkdirs(&format!("{root}/empty"));
  }
  Suite { root, name, ids, rust: vec![vec![]; MAXC] }
}

pub fn opts(s: &Suite) -> ConformanceOptions {
  let mut o = ConformanceOptions::new(PathBuf::from(&s.root));
  o.allow_mismatches = true;
  o.timeout = Duration::from_secs(3600);
  o.node_path = "/vsim/bin/node".into();
  o
}

/// Rust's own diagnostics decide which tsc replies will match.
#[allow(static_mut_refs)]
pub fn plan_replies(r: &mut Rng, s: &mut Suite) {
  let mut o = opts(s);
  o.compare = CompareMode::None;
  let rep = match run_conformance(o) {
    Ok(r) => r,
    Err(e) => skip(format!("fault-free run refused: {e}")),
  };
  let v = serde_json::to_value(&rep).unwrap();
  unsafe { REPLY = vec![vec![]; MAXC] };
  for res in v["results"].as_array().unwrap() {
    let Some(&k) = s.ids.get(res["id"].as_str().unwrap()) else { continue };
    let rust = res["rust"]["diagnostics"].as_array().unwrap().clone();
    let mut ds: Vec<Value> = rust
      .iter()
      .map(|d| {
        let code: String = d["code"].as_str().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
        json!({"code": code.parse::<u32>().unwrap_or(1), "file": d["file"], "start": d["start"], "end": d["end"], "category": d["severity"]})
      })
      .collect();
    match r.below(10) {
      0 => ds.push(json!({"code": 9000 + k, "file": "/x.ts", "start": k, "end": k + 1, "category": "error"})),
      1 => {
        ds.pop();
      }
      2 => {
        if let Some(d) = ds.first_mut() {
          d["code"] = json!(8000 + k)
        }
      }
      3 => {
        if let Some(d) = ds.first_mut() {
          d["start"] = json!(d["start"].as_u64().unwrap_or(0) + 500);
          d["end"] = json!(d["end"].as_u64().unwrap_or(0) + 500);
        }
      }
      _ => {}
    }
    s.rust[k] = rust;
    let reply = json!({"schemaVersion": 2, "metadata": {"typescriptVersion": format!("sim-{k}"), "options": {}}, "diagnostics": ds});
    unsafe { REPLY[k] = reply.to_string().into_bytes() };
  }
}

fn strip(v: &Value) -> Value {
  let mut v = v.clone();
  for k in ["duration_ms", "rust_ms", "tsc_ms", "diff_ms", "query_stats"] {
    v.as_object_mut().unwrap().remove(k);
  }
  v
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp {
  Pass,
  Skip,
  Xfail,
  Flaky,
}
/// Independent accounting of a report.
fn accounts(rep: &Value, want: &[(String, Exp, bool)], what: &str) -> bool {
  let res = rep["results"].as_array().unwrap();
  let got: Vec<&str> = res.iter().map(|x| x["id"].as_str().unwrap()).collect();
  let ids: Vec<&str> = want.iter().map(|x| x.0.as_str()).collect();
  check!(got == ids, "cases-lost-or-repeated", "{what}: reported cases {got:?}, expected {ids:?}");
  let sum = &rep["summary"];
  check!(sum["total"] == json!(res.len()), "bad-total", "{what}: total {} for {} results", sum["total"], res.len());
  let mut tally: BTreeMap<&str, u64> = BTreeMap::new();
  let (mut e, mut u, mut fl, mut xp) = (0, 0, 0, 0);
  for (x, (id, exp, manifest)) in res.iter().zip(want) {
    let o = x["outcome"].as_str().unwrap();
    *tally.entry(o).or_default() += 1;
    let mis = o != "match";
    check!(x["mismatched"] == json!(mis), "bad-verdict", "{what}: {id} outcome {o} but mismatched={}", x["mismatched"]);
    let expected = match exp {
      Exp::Pass => !mis,
      Exp::Skip => true,
      _ => mis,
    };
    check!(x["expectation"]["expected"] == json!(expected), "bad-verdict", "{what}: {id} {exp:?} outcome {o} expected={}", x["expectation"]["expected"]);
    if mis {
      if *exp == Exp::Flaky {
        fl += 1
      } else if expected {
        e += 1
      } else {
        u += 1
      }
    } else if *manifest && matches!(exp, Exp::Xfail | Exp::Flaky) {
      xp += 1;
    }
  }
  for k in ["match", "rust_extra_diagnostics", "rust_missing_diagnostics", "span_mismatch", "code_mismatch", "rust_ice", "tsc_crashed", "timeout"] {
    let n = tally.get(k).copied().unwrap_or(0);
    check!(sum["outcomes"][k] == json!(n), "bad-tally", "{what}: summary says {k}={} but {n} results have it", sum["outcomes"][k]);
  }
  let m = &sum["mismatches"];
  let g = |k: &str| m[k].as_u64().unwrap_or(0);
  check!((g("expected"), g("unexpected"), g("flaky"), g("xpass")) == (e, u, fl, xp), "bad-tally", "{what}: mismatch summary {m}, counted expected={e} unexpected={u} flaky={fl} xpass={xp}");
  // does fail_on=new make this run fail?
  xp > 0 || u > 0
}

pub fn conformance(seed: u64) {
  let mut r = Rng::new(seed, 13);
  let mut cfg = swarm(seed, &mut r, 3_000_000);
  cfg.ns_per_tick_x16 = r.logu(4, 64) as u32;
  cfg.stall_ns = r.logu(1_000, 300_000_000);
  site_name(U_REQ, "tsc_reply_fault");
  site_name(U_START, "tsc_start_fault");
  let quiet = r.chance(15);
  let tsc_mode = r.chance(70);
  let snap_mode = !tsc_mode && r.chance(70);
  if !quiet {
    if r.chance(50) {
      cfg.rate(S_STALL, r.logu(100, 20_000)).max(S_STALL, 12);
    }
    if r.chance(50) {
      cfg.rate(S_SPURIOUS, r.logu(1_000, 200_000));
    }
    if tsc_mode {
      if r.chance(75) {
        cfg.rate(U_REQ, r.logu(20_000, 700_000));
      }
      if r.chance(30) {
        cfg.rate(U_START, r.logu(20_000, 400_000));
      }
      if r.chance(20) {
        cfg.rate(S_SPAWN, r.logu(20_000, 300_000));
      }
      if r.chance(40) {
        cfg.rate(S_PIPE_READ, r.logu(1_000, 200_000)).rate(S_PIPE_WRITE, r.logu(1_000, 200_000));
      }
    }
    if r.chance(35) {
      cfg.rate(S_FS_OPEN, r.logu(10_000, 300_000)).rate(S_FS_READ, r.logu(10_000, 300_000));
      if r.chance(50) {
        cfg.rate(S_FS_META, r.logu(5_000, 100_000));
      }
    }
    if r.chance(20) {
      cfg.rate(S_FS_SLOW, r.logu(10_000, 200_000));
    }
  }
  cfg.apply();
  set_child(child);
  let mut s = suite(&mut r, 10);
  let jobs = r.range(1, 5) as usize;
  let timeout = Duration::from_nanos(if quiet || r.chance(40) { 3_600_000_000_000 } else { r.logu(2_000_000, 20_000_000_000) });
  unsafe {
    SLOW_NS = r.logu(1_000_000, 2 * timeout.as_nanos() as u64);
    PAD = r.below(200_000) as usize;
  }
  // manifest
  let all: Vec<String> = s.ids.keys().cloned().collect();
  let mut exps: BTreeMap<String, Exp> = BTreeMap::new();
  let mut entries = vec![];
  for id in &all {
    if r.chance(35) {
      let (e, n) = *r.pick(&[(Exp::Pass, "pass"), (Exp::Skip, "skip"), (Exp::Xfail, "xfail"), (Exp::Flaky, "flaky")]);
      exps.insert(id.clone(), e);
      entries.push(json!({"id": id, "status": n}));
    }
  }
  let manifest = "/sim/manifest.json";
  fs::put(manifest, json!({"expectations": entries}).to_string().as_bytes());
  let mut base = opts(&s);
  base.compare = if tsc_mode {
    CompareMode::Tsc
  } else if snap_mode {
    CompareMode::Snapshot
  } else {
    CompareMode::None
  };
  base.manifest = if entries.is_empty() { None } else { Some(manifest.into()) };
  base.span_tolerance = if r.chance(20) { 3 } else { 0 };
  base.profile = r.chance(15);
  base.profile_out = "/sim/out/profile.json".into();
  if r.chance(20) {
    let t = r.range(2, 3);
    base.shard = Some(Shard { index: r.below(t) as usize, total: t as usize });
    base.shard_strategy = if r.chance(50) { ShardStrategy::Index } else { ShardStrategy::Hash };
  }
  // ---- reference: one worker, nothing fails
  let reference = premise(3_000_000_000, || {
    plan_replies(&mut r, &mut s);
    if snap_mode {
      // snapshots of all but a few cases
      for (id, k) in &s.ids {
        #[allow(static_mut_refs)]
        let reply = unsafe { &REPLY[*k] };
        if reply.is_empty() || r.chance(10) {
          continue;
        }
        let mut v: Value = serde_json::from_slice(reply).unwrap();
        v.as_object_mut().unwrap().remove("schemaVersion");
        v["schema_version"] = json!(2);
        let p = format!("{BASE}/{}/{}.json", s.name, id);
        fs::mkdirs(&p[..p.rfind('/').unwrap()]);
        fs::put(&p, v.to_string().as_bytes());
      }
    }
    let mut o = base.clone();
    o.profile = false;
    match run_conformance(o) {
      Ok(r) => serde_json::to_value(&r).unwrap(),
      // an empty shard is not an error, an unreadable suite would be
      Err(e) => skip(format!("fault-free run refused: {e}")),
    }
  });
  let ref_ids: Vec<String> = reference["results"].as_array().unwrap().iter().map(|x| x["id"].as_str().unwrap().to_string()).collect();
  if base.shard.is_none() {
    check!(ref_ids == all, "cases-lost-or-repeated", "fault-free sequential run reports {ref_ids:?}, the suite is {all:?}");
  }
  let want: Vec<(String, Exp, bool)> = ref_ids.iter().map(|i| (i.clone(), exps.get(i).copied().unwrap_or(Exp::Pass), exps.contains_key(i))).collect();
  let ref_fails = accounts(&reference, &want, "sequential run");
  for a in OWN.iter().chain(SERVED.iter()).chain([&ANON, &HUNG]) {
    a.store(0, SeqCst);
  }
  // ---- the run under schedule and faults
  let mut o = base.clone();
  o.jobs = jobs;
  o.timeout = timeout;
  o.allow_mismatches = !(quiet && r.chance(50));
  let strict = !o.allow_mismatches;
  let (t0, n0) = (ticks(), now_ns());
  budget(20_000_000_000);
  active(true);
  faults(true);
  let got = run_conformance(o);
  faults(false);
  let elapsed = now_ns() - n0;
  let left = stat(11);
  check!(left == 0, "tsc-left-running", "{left} tsc processes still run after the conformance run returned");
  let hard_fs = fired(S_FS_OPEN) + fired(S_FS_READ) + fired(S_FS_META);
  let got = match got {
    Ok(v) => {
      if strict {
        check!(!ref_fails, "failure-hidden", "the run succeeded although the sequential outcome must fail it");
      }
      serde_json::to_value(&v).unwrap()
    }
    Err(e) => {
      let e = e.to_string();
      if strict && ref_fails && e.contains("mismatches") {
        probe("run_failed_as_it_must");
        sample(format!("{} cases, strict, failed", want.len()));
        ok()
      }
      check!(hard_fs > 0, "spurious-refusal", "no disk fault, yet the run was refused: {e}");
      probe("run_refused_on_disk_fault");
      sample(format!("refused: {e}"));
      ok()
    }
  };
  // Cases may only disappear if the run says so (it did not).
  accounts(&got, &want, "run under faults");
  let slack = (ticks() - t0) * cfg.ns_per_tick_x16 as u64 / 16 + (fired(S_STALL) + fired(S_FS_SLOW)) * cfg.stall_ns;
  let n = want.len() as u64;
  let served_hang = HUNG.load(SeqCst);
  if timeout.as_nanos() as u64 * n < u64::MAX / 4 {
    let cap = n * (timeout.as_nanos() as u64 + 2_000_000_000) + 6_000_000_000 + slack;
    check!(elapsed <= cap, "timeout-not-enforced", "run took {elapsed} ns for {n} cases with timeout {timeout:?} (cap {cap}, hung replies {served_hang})");
  }
  let spawn_failed = fired(S_SPAWN);
  let mut degraded = 0;
  for (a, b) in got["results"].as_array().unwrap().iter().zip(reference["results"].as_array().unwrap()) {
    let id = a["id"].as_str().unwrap();
    let k = s.ids[id];
    if strip(a) == strip(b) {
      continue;
    }
    degraded += 1;
    let outcome = a["outcome"].as_str().unwrap();
    let rerr = a["rust"]["error"].as_str().unwrap_or("");
    let terr = a["tsc"]["error"].as_str().unwrap_or("");
    match outcome {
      "timeout" => {
        check!(elapsed >= timeout.as_nanos() as u64, "spurious-timeout", "{id} timed out although the whole run took {elapsed} ns of a {timeout:?} limit");
        probe("case_timed_out");
      }
      "rust_ice" if rerr.starts_with("failed to load test input") => {
        check!(hard_fs > 0, "spurious-load-error", "{id}: {rerr} without a disk fault");
        probe("case_unreadable");
      }
      "tsc_crashed" if tsc_mode && terr == "tsc unavailable" => {
        check!(spawn_failed > 0, "spurious-tsc-unavailable", "{id}: {terr} without a spawn failure");
        probe("tsc_unavailable");
      }
      "tsc_crashed" if tsc_mode => {
        let (own, anon) = (OWN[k].load(SeqCst), ANON.load(SeqCst));
        check!(own + anon >= 2 || spawn_failed > 0, "tsc-failure-not-retried", "{id}: reported as crashed ({terr}) after {own} failures of its own and {anon} others");
        check!(strip(a)["rust"] == strip(b)["rust"], "wrong-answer", "{id}: Rust side changed\n got {}\nwant {}", a["rust"], b["rust"]);
        probe("case_tsc_crashed");
      }
      "tsc_crashed" if snap_mode => {
        check!(hard_fs > 0, "spurious-missing-snapshot", "{id}: {terr} without a disk fault");
        probe("snapshot_unreadable");
      }
      _ => violation("wrong-answer", format!("{id} (case {k}) differs from the sequential run\n got {}\nwant {}", strip(a), strip(b))),
    }
  }
  if base.profile {
    match fs::get("/sim/out/profile.json") {
      Some(d) => {
        let v: std::result::Result<Value, _> = serde_json::from_slice(&d);
        check!(v.is_ok(), "incomplete-report", "profile file is not complete JSON ({} bytes)", d.len());
        check!(v.unwrap()["tests"].as_array().map(|t| t.len()) == Some(want.len()), "incomplete-report", "profile lists other tests than the run");
      }
      None => violation("incomplete-report", "the run succeeded but there is no profile file"),
    }
  }
  probe_n("cases_run", n);
  probe_n("cases_degraded", degraded);
  if served_hang > 0 {
    probe("tsc_hung")
  }
  if (1..MAXC).any(|k| SERVED[k].load(SeqCst) > 1) {
    probe("request_retried")
  }
  sample(format!("{n} cases, {jobs} jobs, timeout {timeout:?}, {:?}, {degraded} degraded", base.compare));
  ok()
}
