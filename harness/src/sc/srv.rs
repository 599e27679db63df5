//! The optimiser debugger: its HTTP service over simulated connections, and its snapshot mode.
use super::cli::{self, Cmd, Judge};
use super::lx;
use super::progs::debugger as dbgr;
use crate::sim::*;
use optimize_js::il::inst::{Arg, Const, Inst, InstTyp};
use optimize_js::TopLevelMode;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

#[derive(Clone, Debug)]
struct Call {
  src: String,
  global: bool,
  /// 0 a program; otherwise something the service has to refuse.
  bad: u8,
  bytes: Vec<u8>,
}
/// Status and body; none when the connection ended first.
type Answer = Option<(u16, Vec<u8>)>;

fn call(r: &mut Rng, src: &str) -> Call {
  let global = r.chance(40);
  let bad = if r.chance(20) { r.range(1, 5) as u8 } else { 0 };
  let mut body = rmp_serde::to_vec_named(&dbgr::PostCompileReq { source: src.into(), is_global: global }).unwrap();
  match bad {
    1 => body.truncate(r.below(body.len() as u64) as usize),
    2 => body = (0..r.below(40)).map(|_| r.below(256) as u8).collect(),
    _ => {}
  }
  let line = match bad {
    3 => "GET /compile",
    4 => "POST /other",
    _ => "POST /compile",
  };
  let mut bytes = format!("{line} HTTP/1.1\r\nhost: x\r\n").into_bytes();
  bytes.extend_from_slice(match if bad == 5 { 3 } else { r.below(3) } {
    0 => b"" as &[u8],
    1 => b"content-type: application/msgpack\r\n",
    2 => b"Content-Type: application/x-msgpack\r\n",
    _ => b"content-type: application/json\r\n",
  });
  if r.chance(40) {
    bytes.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
    let mut at = 0;
    while at < body.len() {
      let n = (r.logu(1, 2000) as usize).min(body.len() - at);
      bytes.extend_from_slice(format!("{n:x}\r\n").as_bytes());
      bytes.extend_from_slice(&body[at..at + n]);
      bytes.extend_from_slice(b"\r\n");
      at += n;
    }
    bytes.extend_from_slice(b"0\r\n\r\n");
  } else {
    bytes.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
    bytes.extend_from_slice(&body);
  }
  Call { src: src.into(), global, bad, bytes }
}

async fn server(io: DuplexStream) {
  let svc = hyper_util::service::TowerToHyperService::new(dbgr::app());
  let _ = hyper::server::conn::http1::Builder::new().serve_connection(hyper_util::rt::TokioIo::new(io), svc).await;
}

async fn answer(io: &mut (impl AsyncReadExt + Unpin), buf: &mut Vec<u8>) -> Answer {
  loop {
    if let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
      let head = String::from_utf8_lossy(&buf[..h]).to_lowercase();
      let status: u16 = head.get(9..12)?.parse().ok()?;
      let len: usize = head.lines().find_map(|l| l.strip_prefix("content-length:")).map_or(0, |l| l.trim().parse().unwrap_or(0));
      if buf.len() >= h + 4 + len {
        let body = buf[h + 4..h + 4 + len].to_vec();
        buf.drain(..h + 4 + len);
        return Some((status, body));
      }
    }
    let mut b = [0u8; 4096];
    match io.read(&mut b).await {
      Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]),
      _ => return None,
    }
  }
}

/// Sends the calls one after the other, in pieces; the last may break off.
async fn client(mut io: DuplexStream, calls: Vec<Call>, seed: u64, cut: Option<(usize, bool)>) -> Vec<Answer> {
  let mut r = Rng::new(seed, 3);
  let mut out = vec![];
  let mut buf = vec![];
  let small = r.logu(1, 4096);
  for (i, c) in calls.iter().enumerate() {
    let end = match cut {
      Some((at, _)) if i + 1 == calls.len() => at.min(c.bytes.len()),
      _ => c.bytes.len(),
    };
    let stop = end < c.bytes.len();
    if stop {
      probe("broken_off");
    }
    let piece = small.max(c.bytes.len() as u64 / 400);
    let (mut rd, mut wr) = tokio::io::split(&mut io);
    let sent = std::sync::atomic::AtomicUsize::new(0);
    let write = async {
      let mut at = 0;
      while at < end {
        let n = (r.range(1, piece) as usize).min(end - at);
        if wr.write_all(&c.bytes[at..at + n]).await.is_err() {
          return;
        }
        at += n;
        sent.store(at, Ordering::Relaxed);
        if r.chance(30) {
          tokio::task::yield_now().await;
        }
      }
      if stop && !cut.unwrap().1 {
        let _ = wr.shutdown().await;
      }
    };
    tokio::pin!(write);
    // a refusal may come before the request is through
    let early = {
      let read = answer(&mut rd, &mut buf);
      tokio::pin!(read);
      tokio::select! {
        biased;
        _ = &mut write => None,
        a = &mut read => Some(a),
      }
    };
    let a = match early {
      Some(a) if sent.load(Ordering::Relaxed) < c.bytes.len() => {
        out.push(a);
        return out;
      }
      Some(a) => a,
      None if stop && cut.unwrap().1 => return out,
      None => answer(&mut rd, &mut buf).await,
    };
    let gone = a.is_none();
    out.push(a);
    if gone {
      break;
    }
  }
  out
}

fn runtime(threads: usize) -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_multi_thread().worker_threads(threads).build().unwrap()
}

fn ids(i: impl Iterator<Item = String>) -> Vec<String> {
  let mut v: Vec<String> = i.collect();
  v.sort();
  v
}

fn same_blocks<'a>(got: &std::collections::BTreeMap<u32, Vec<dbgr::StableInst>>, want: impl Iterator<Item = (u32, &'a Vec<Inst>)>) -> Result<(), String> {
  for (l, w) in want {
    let Some(g) = got.get(&l) else { return Err(format!("block {l} is missing")) };
    if g.len() != w.len() {
      return Err(format!("block {l} has {} instructions instead of {}", g.len(), w.len()));
    }
    for (g, w) in g.iter().zip(w) {
      let args = g.args.len() == w.args.len()
        && g.args.iter().zip(&w.args).all(|(g, w)| match (g, w) {
          (dbgr::StableArg::Builtin { value }, Arg::Builtin(w)) => value == w,
          (dbgr::StableArg::Fn { value }, Arg::Fn(w)) => *value == *w as u64,
          (dbgr::StableArg::Var { value }, Arg::Var(w)) => value == w,
          (dbgr::StableArg::Const { value }, Arg::Const(w)) => match (value, w) {
            (dbgr::StableConst::Null, Const::Null) | (dbgr::StableConst::Undefined, Const::Undefined) => true,
            (dbgr::StableConst::Bool(a), Const::Bool(b)) => a == b,
            (dbgr::StableConst::Num(a), Const::Num(b)) => *a == b.0 || a.is_nan() && b.0.is_nan(),
            (dbgr::StableConst::Str(a), Const::Str(b)) => a == b,
            (dbgr::StableConst::BigInt(a), Const::BigInt(b)) => *a == b.to_string(),
            _ => false,
          },
          _ => false,
        });
      let bin = g.bin_op.clone().is_none_or(|o| o == format!("{:?}", w.bin_op)) && (g.bin_op.is_some() || w.t != InstTyp::Bin);
      let un = g.un_op.clone().is_none_or(|o| o == format!("{:?}", w.un_op)) && (g.un_op.is_some() || w.t != InstTyp::Un);
      if !args || !bin || !un || g.t != format!("{:?}", w.t) || g.tgts != w.tgts || g.labels != w.labels || !g.spreads.iter().map(|s| *s as usize).eq(w.spreads.iter().copied()) {
        return Err(format!("block {l}: {g:?} instead of {w:?}"));
      }
    }
  }
  Ok(())
}

/// What the compiler itself says, in the response's terms, as far as it can be told independently.
fn matches_program(c: &Call, a: &Answer) -> Result<(), String> {
  let mode = if c.global { TopLevelMode::Global } else { TopLevelMode::Module };
  let Ok(p) = catch_unwind(AssertUnwindSafe(|| optimize_js::compile_source(&c.src, mode, true))) else {
    return if a.is_none() { Ok(()) } else { Err("the compiler gives up but an answer came".into()) };
  };
  let Some((status, body)) = a else { return Err("no answer".into()) };
  match p {
    Err(d) => {
      let e: dbgr::PostCompileErrorRes = rmp_serde::from_slice(body).map_err(|e| format!("{e}"))?;
      if *status != 400 || e.ok || e.diagnostics != d {
        return Err(format!("status {status}, {:?} instead of {d:?}", e.diagnostics));
      }
    }
    Ok(p) => {
      let v: dbgr::PostCompileRes = rmp_serde::from_slice(body).map_err(|e| format!("{e}"))?;
      if *status != 200 || v.functions.len() != p.functions.len() {
        return Err(format!("status {status}, {} functions instead of {}", v.functions.len(), p.functions.len()));
      }
      for (g, w) in v.functions.iter().chain([&v.top_level]).zip(p.functions.iter().chain([&p.top_level])) {
        let steps = w.debug.as_ref().map(|d| d.steps()).unwrap_or_default();
        if g.debug.steps.len() != steps.len() {
          return Err(format!("{} steps instead of {}", g.debug.steps.len(), steps.len()));
        }
        for (gs, ws) in g.debug.steps.iter().zip(steps) {
          if gs.name != ws.name || gs.bblock_order != ws.bblock_order || gs.cfg_children != ws.cfg_children || gs.bblocks.len() != ws.bblocks.len() {
            return Err(format!("step {} {:?} instead of {} {:?}", gs.name, gs.bblock_order, ws.name, ws.bblock_order));
          }
          same_blocks(&gs.bblocks, ws.bblocks.iter().map(|(l, b)| (*l, b))).map_err(|e| format!("step {}: {e}", gs.name))?;
        }
        let graph = &w.body.graph;
        let children: std::collections::BTreeMap<u32, Vec<u32>> = graph.labels_sorted().into_iter().map(|l| (l, graph.children_sorted(l))).collect();
        if g.cfg.bblock_order != graph.calculate_postorder(0).0 || g.cfg.cfg_children != children || g.cfg.bblocks.len() != w.body.bblocks.all().count() {
          return Err(format!("final graph {:?} {:?} instead of {children:?}", g.cfg.bblock_order, g.cfg.cfg_children));
        }
        same_blocks(&g.cfg.bblocks, w.body.bblocks.all()).map_err(|e| format!("final graph: {e}"))?;
      }
      let want = p.symbols.as_ref().map(|s| {
        let mut out: Vec<String> = s.symbols.iter().map(|s| format!("symbol {} {} {} {}", s.id.raw_id(), s.name, s.scope.raw_id(), s.captured)).collect();
        out.extend(s.scopes.iter().map(|s| {
          format!("scope {} {:?} {} {:?} {:?} {:?} {} {}", s.id.raw_id(), s.parent.map(|p| p.raw_id().to_string()), format!("{:?}", s.kind).to_lowercase(),
            ids(s.symbols.iter().map(|s| s.raw_id().to_string())), ids(s.children.iter().map(|s| s.raw_id().to_string())), ids(s.tdz_bindings.iter().map(|s| s.raw_id().to_string())), s.is_dynamic, s.has_direct_eval)
        }));
        if let Some(f) = &s.free_symbols {
          out.extend([&f.top_level].into_iter().chain(&f.functions).enumerate().map(|(i, f)| format!("free {i} {:?}", ids(f.iter().map(|s| s.raw_id().to_string())))));
        }
        ids(out.into_iter())
      });
      let id = |s: &dbgr::StableId| match s { dbgr::StableId::Number(n) => n.clone(), dbgr::StableId::Text(t) => format!("text {t}") };
      let got = v.symbols.as_ref().map(|s| {
        let mut out: Vec<String> = s.symbols.iter().map(|s| format!("symbol {} {} {} {}", id(&s.id), s.name, id(&s.scope), s.captured)).collect();
        out.extend(s.scopes.iter().map(|s| {
          format!("scope {} {:?} {} {:?} {:?} {:?} {} {}", id(&s.id), s.parent.as_ref().map(id), s.kind.replace('_', ""), ids(s.symbols.iter().map(id)), ids(s.children.iter().map(id)), ids(s.tdz_bindings.iter().map(id)), s.is_dynamic, s.has_direct_eval)
        }));
        if let Some(f) = &s.free_symbols {
          out.extend([&f.top_level].into_iter().chain(&f.functions).enumerate().map(|(i, f)| format!("free {i} {:?}", ids(f.iter().map(id)))));
        }
        ids(out.into_iter())
      });
      if want != got {
        return Err(format!("symbols {got:?} instead of {want:?}"));
      }
    }
  }
  Ok(())
}

pub fn service(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let srcs: Vec<String> = (0..r.range(1, 3))
    .map(|_| {
      let n = r.range(0, 8) as usize;
      let mut t = lx::js(&mut r, n);
      if r.chance(10) {
        let junk: &str = *r.pick(&["let let = ;", "\"é𝄞", "}"]);
        t.push_str(junk);
      }
      if r.chance(4) {
        // a large program, mostly comment
        let pad = "0123456789abcdef".repeat(r.logu(4_000, 300_000) as usize);
        t = format!("/*{pad}*/{t}");
      }
      t
    })
    .collect();
  let conns: Vec<Vec<Call>> = (0..r.range(1, 4)).map(|_| (0..r.range(1, 3)).map(|_| { let s = r.pick(&srcs).clone(); call(&mut r, &s) }).collect()).collect();
  let all: Vec<Call> = conns.iter().flatten().cloned().collect();
  let Some((want, len)) = reference(true, || {
    let t0 = ticks();
    let rt = runtime(1);
    let w: Vec<Answer> = all
      .iter()
      .map(|c| {
        let (a, b) = tokio::io::duplex(1 << 20);
        rt.block_on(async move {
          let s = tokio::spawn(server(b));
          let mut o = client(a, vec![c.clone()], 1, None).await;
          let _ = s.await;
          o.pop().unwrap()
        })
      })
      .collect();
    (w, (ticks() - t0).max(200_000))
  }) else {
    return skip("reference too slow");
  };
  for (c, w) in all.iter().zip(&want) {
    if c.bad == 0 {
      if let Err(e) = matches_program(c, w) {
        return violation("wrong-answer", format!("{e}\n{:?} global {}", brief(&c.src), c.global));
      }
    } else {
      check!(w.as_ref().is_some_and(|w| (400..500).contains(&w.0)), "bad-request-accepted", "request form {} was answered {:?}", c.bad, w.as_ref().map(|w| w.0));
    }
  }
  let mut cfg = swarm(seed, &mut r, len);
  cfg.rate(S_THREADS, 0);
  cfg.apply();
  sample(format!("{} connections, {} requests, {} bytes", conns.len(), all.len(), all.iter().map(|c| c.bytes.len()).sum::<usize>()));
  let threads = r.range(1, 4) as usize;
  let plans: Vec<(usize, u64, Option<(usize, bool)>)> = conns
    .iter()
    .map(|c| {
      let last = c.last().unwrap().bytes.len() as u64;
      (r.logu(16, 100_000) as usize, r.next(), if r.chance(25) { Some((r.below(last) as usize, r.chance(50))) } else { None })
    })
    .collect();
  active(true);
  budget(60 * len + 60_000_000);
  let rt = runtime(threads);
  let mut hs = vec![];
  for (i, (c, p)) in conns.iter().zip(&plans).enumerate() {
    if !op_enabled(i) {
      continue;
    }
    let (a, b) = tokio::io::duplex(p.0);
    rt.spawn(server(b));
    hs.push((i, rt.spawn(client(a, c.clone(), p.1, p.2))));
  }
  for (i, h) in hs {
    let got = match rt.block_on(h) {
      Ok(g) => g,
      Err(e) => return violation("panic", format!("client: {e}")),
    };
    let base: usize = conns[..i].iter().map(|c| c.len()).sum();
    for (j, c) in conns[i].iter().enumerate() {
      let broken = plans[i].2.is_some() && j + 1 == conns[i].len();
      let w = &want[base + j];
      match got.get(j) {
        Some(g) if broken => {
          check!(g.as_ref().map_or(true, |g| g.0 >= 400), "partial-request-answered", "connection {i}: a request that broke off was answered {:?}\n{:?}", g.as_ref().map(|g| g.0), brief(&c.src));
        }
        None if broken => {}
        // the service may hang up after refusing something, and hangs up when the compiler gives up
        None => {
          let refused = conns[i][..j].iter().zip(&want[base..]).any(|(c, w)| c.bad > 0 || w.is_none());
          check!(refused, "no-answer", "connection {i}: request {j} was not answered\n{:?}", brief(&c.src));
        }
        Some(None) if j > 0 && conns[i][..j].iter().any(|c| c.bad > 0) => {}
        Some(g) => {
          check!(g == w, "wrong-answer", "connection {i}, request {j}: answered {:?} instead of {:?}\n{:?} global {}", g.as_ref().map(show), w.as_ref().map(show), brief(&c.src), c.global);
          probe(if g.is_some() { "answered" } else { "hung_up" });
        }
      }
    }
  }
  drop(rt);
  ok()
}
fn brief(s: &str) -> String {
  s.replace("0123456789abcdef", "")
}
fn show(a: &(u16, Vec<u8>)) -> String {
  let v: Result<serde_json::Value, _> = rmp_serde::from_slice(&a.1);
  let s = v.map(|v| v.to_string()).unwrap_or_else(|_| String::from_utf8_lossy(&a.1).into_owned());
  format!("{} {} bytes {}", a.0, a.1.len(), s.chars().take(300).collect::<String>())
}

/// The debugger's snapshot mode as a process.
pub fn dump(seed: u64) {
  let (mut r, mut cfg) = cli::begin(seed, 24, 500_000);
  cli::swarm_io(&mut cfg, &mut r);
  fs::mount("/w");
  fs::set_cwd("/w");
  let mut args: Vec<String> = vec!["optimize-js-debugger".into(), "--snapshot".into()];
  let src = if r.chance(10) { cli::source(&mut r, true) } else { let n = r.range(0, 8) as usize; lx::js(&mut r, n).into_bytes() };
  if r.chance(40) {
    args.extend(["--mode".into(), r.pick(&["module", "global"]).to_string()]);
  }
  let from_file = r.chance(50);
  if from_file {
    if !r.chance(10) {
      fs::put("/w/in.js", &src);
    }
    args.push("--input=/w/in.js".into());
  }
  let to_file = r.chance(50);
  let mut files = vec![];
  if to_file {
    let f = if r.chance(15) { "/w/missing/out.json" } else { "/w/out.json" };
    if r.chance(50) {
      fs::put("/w/out.json", b"{\"old\": true}");
    }
    args.extend(["--output".into(), f.into()]);
    files.push(f.to_string());
  }
  cfg.apply();
  let c = Cmd { main: dbgr::run, args, stdin: if from_file { vec![] } else { src.clone() }, files };
  let Some(want) = reference(true, || cli::exec(&c)) else { return skip("no reference") };
  let full = to_file && r.chance(20);
  if full {
    fs::capacity(r.logu(1, 200_000));
  }
  budget(want.ns * 16 / cfg.ns_per_tick_x16 as u64 * 40 + 400_000_000);
  active(true);
  faults(true);
  let got = cli::exec(&c);
  faults(false);
  if want.code == 101 {
    // the compiler itself gives up on this program
    check!(got.code != 0, "failure-hidden", "exit 0, but the undisturbed run fails");
    return ok();
  }
  if cli::judge(&c, &want, &got, &Judge { timed: false, disk_full: full }) {
    if got.code == 0 {
      probe("delivered");
    }
  } else {
    probe("failure_reported");
  }
  ok()
}
