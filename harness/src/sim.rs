//! Safe-ish Rust face of the simulator in ../sim/vsim.c.
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const S_SPURIOUS: usize = 0;
pub const S_CLOCKJUMP: usize = 1;
pub const S_FS_OPEN: usize = 2;
pub const S_FS_READ: usize = 3;
pub const S_FS_WRITE: usize = 4;
pub const S_FS_META: usize = 5;
pub const S_FS_SYNC: usize = 6;
pub const S_PIPE_READ: usize = 7;
pub const S_PIPE_WRITE: usize = 8;
pub const S_SPAWN: usize = 9;
pub const S_STDOUT: usize = 10;
pub const S_STDIN: usize = 11;
pub const S_STALL: usize = 12;
pub const S_THREADS: usize = 13;
pub const S_FS_SLOW: usize = 14;
pub const S_REALTIME: usize = 15;
pub const S_USER0: usize = 16;
pub const S_MAX: usize = 64;

pub const SITE_NAMES: &[&str] = &[
  "futex_spurious_wake", "clock_jump", "fs_open_error", "fs_read_error", "fs_write_error", "fs_meta_error",
  "fs_sync_error", "pipe_read_fault", "pipe_write_fault", "spawn_failure", "stdout_fault", "stdin_fault",
  "thread_stall", "thread_create_failure", "fs_slow", "wall_clock_step",
];

pub const STRAT_NONE: u32 = 0;
pub const STRAT_QUANTUM: u32 = 1;
pub const STRAT_PCT: u32 = 2;
pub const STRAT_RARE: u32 = 3;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
  pub seed: u64,
  pub strategy: u32,
  pub ncpu: u32,
  pub quantum: u64,
  pub pct_depth: u32,
  pub pct_len: u64,
  pub rare_max: u32,
  pub rare_ppm: u32,
  pub ns_per_tick_x16: u32,
  pub tick_budget: u64,
  pub fault_ppm: [u32; S_MAX],
  pub fault_max: [u32; S_MAX],
  pub fault_kinds: [u32; S_MAX],
  pub stall_ns: u64,
  pub jump_ns: u64,
  pub pipe_cap: u32,
  pub shuffle_wake: u32,
}

extern "C" {
  fn vsim_serve(f: extern "C" fn(u64), cov: *const c_char);
  fn vsim_config(c: *const Cfg);
  fn vsim_active(on: c_int);
  fn vsim_faults(on: c_int);
  fn vsim_budget(t: u64);
  fn vsim_guard(on: c_int);
  fn vsim_stop();
  fn vsim_probe(p: *const u8, n: usize, by: u64);
  fn vsim_probe_nth(i: c_int, n: *mut u64) -> *const c_char;
  fn vsim_emit(p: *const u8, n: usize);
  fn vsim_end() -> !;
  fn vsim_dbg(p: *const u8, n: usize);
  fn vsim_stat(i: c_int) -> u64;
  fn vsim_fault_fired(i: c_int) -> u64;
  fn vsim_fault_seen(i: c_int) -> u64;
  fn vsim_fault(site: c_int, kinds: c_int) -> c_int;
  fn vsim_fault_arg() -> u64;
  fn vsim_op_enabled(i: u64) -> c_int;
  fn vsim_now_ns() -> u64;
  fn vsim_ticks() -> u64;
  fn vsim_sleep_ns(n: u64);
  fn vsim_advance_ns(n: u64);
  fn vsim_tid() -> c_int;
  fn vsim_fs_mount(p: *const c_char);
  fn vsim_fs_mkdirs(p: *const c_char);
  fn vsim_fs_put(p: *const c_char, d: *const u8, n: usize);
  fn vsim_fs_get(p: *const c_char, out: *mut *const u8) -> c_long;
  fn vsim_fs_del(p: *const c_char);
  fn vsim_fs_nth(i: c_long, out: *mut *const c_char) -> c_long;
  fn vsim_fs_capacity(n: u64);
  fn vsim_fs_crash_after(n: u64);
  fn vsim_fs_crashed() -> c_int;
  fn vsim_fs_powercut();
  fn vsim_fs_write_count() -> u64;
  fn vsim_fs_shuffle(on: c_int);
  fn vsim_set_cwd(p: *const c_char);
  fn vsim_stdin(d: *const u8, n: usize, hang: c_int);
  fn vsim_stdout(which: c_int, out: *mut *const u8) -> c_long;
  fn vsim_stdio_reset();
  fn vsim_proc_spawn(f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int;
  fn vsim_proc_wait(pid: c_int) -> c_int;
  fn vsim_proc_wait_timeout(pid: c_int, ns: u64) -> c_int;
  fn vsim_proc_kill(pid: c_int);
}

fn c(s: &str) -> CString {
  CString::new(s).unwrap()
}

pub fn serve(f: extern "C" fn(u64), cov: &str) {
  let cov = c(cov);
  unsafe { vsim_serve(f, cov.as_ptr()) }
}
pub fn config(cfg: &Cfg) {
  unsafe { vsim_config(cfg) }
}
/// Turn scheduling randomness and fault injection on or off.
pub fn active(on: bool) {
  unsafe { vsim_active(on as c_int) }
}
pub fn faults(on: bool) {
  unsafe { vsim_faults(on as c_int) }
}
/// Liveness bound: fail the run unless it gets to the next `budget`/`stop` within `t` steps.
pub fn budget(t: u64) {
  unsafe { vsim_budget(t) }
}
static mut GUARDED: bool = false;
/// Computes something the property takes for granted (a sequential reference):
/// if it crashes, panics or needs more than `budget_ticks`, the run says nothing.
pub fn premise<R>(budget_ticks: u64, f: impl FnOnce() -> R) -> R {
  unsafe {
    GUARDED = true;
    vsim_guard(1);
    vsim_budget(budget_ticks);
    let r = f();
    vsim_budget(0);
    vsim_guard(0);
    GUARDED = false;
    r
  }
}
pub fn fault(site: usize, kinds: u32) -> u32 {
  unsafe { vsim_fault(site as c_int, kinds as c_int) as u32 }
}
pub fn fault_arg() -> u64 {
  unsafe { vsim_fault_arg() }
}
pub fn fired(site: usize) -> u64 {
  unsafe { vsim_fault_fired(site as c_int) }
}
pub fn op_enabled(i: usize) -> bool {
  unsafe { vsim_op_enabled(i as u64) != 0 }
}
pub fn now_ns() -> u64 {
  unsafe { vsim_now_ns() }
}
pub fn ticks() -> u64 {
  unsafe { vsim_ticks() }
}
pub fn sleep_ns(n: u64) {
  unsafe { vsim_sleep_ns(n) }
}
pub fn advance_ns(n: u64) {
  unsafe { vsim_advance_ns(n) }
}
pub fn tid() -> i32 {
  unsafe { vsim_tid() }
}
pub fn stat(i: i32) -> u64 {
  unsafe { vsim_stat(i) }
}
pub fn dbg(s: &str) {
  unsafe { vsim_dbg(s.as_ptr(), s.len()) }
}

pub mod fs {
  use super::*;
  pub fn mount(p: &str) {
    unsafe { vsim_fs_mount(c(p).as_ptr()) }
  }
  pub fn mkdirs(p: &str) {
    unsafe { vsim_fs_mkdirs(c(p).as_ptr()) }
  }
  pub fn put(p: &str, d: &[u8]) {
    unsafe { vsim_fs_put(c(p).as_ptr(), d.as_ptr(), d.len()) }
  }
  pub fn get(p: &str) -> Option<Vec<u8>> {
    unsafe {
      let mut q = std::ptr::null();
      let n = vsim_fs_get(c(p).as_ptr(), &mut q);
      if n < 0 {
        None
      } else if n == 0 {
        Some(vec![])
      } else {
        Some(std::slice::from_raw_parts(q, n as usize).to_vec())
      }
    }
  }
  pub fn del(p: &str) {
    unsafe { vsim_fs_del(c(p).as_ptr()) }
  }
  pub fn list() -> Vec<String> {
    let mut v = vec![];
    loop {
      let mut p = std::ptr::null();
      let r = unsafe { vsim_fs_nth(v.len() as c_long, &mut p) };
      if r == 0 {
        break;
      }
      v.push(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned());
    }
    v.sort();
    v
  }
  /// Bytes still free on the simulated disk.
  pub fn capacity(n: u64) {
    unsafe { vsim_fs_capacity(n) }
  }
  pub fn crash_after(n: u64) {
    unsafe { vsim_fs_crash_after(n) }
  }
  pub fn crashed() -> bool {
    unsafe { vsim_fs_crashed() != 0 }
  }
  pub fn powercut() {
    unsafe { vsim_fs_powercut() }
  }
  pub fn write_count() -> u64 {
    unsafe { vsim_fs_write_count() }
  }
  pub fn shuffle_readdir(on: bool) {
    unsafe { vsim_fs_shuffle(on as c_int) }
  }
  pub fn set_cwd(p: &str) {
    unsafe { vsim_set_cwd(c(p).as_ptr()) }
  }
}

pub fn set_stdin(d: &[u8], hang: bool) {
  unsafe { vsim_stdin(d.as_ptr(), d.len(), hang as c_int) }
}
pub fn captured(which: i32) -> Vec<u8> {
  unsafe {
    let mut q = std::ptr::null();
    let n = vsim_stdout(which, &mut q);
    if n <= 0 {
      vec![]
    } else {
      std::slice::from_raw_parts(q, n as usize).to_vec()
    }
  }
}
pub fn stdio_reset() {
  unsafe { vsim_stdio_reset() }
}

pub struct Proc(pub c_int);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Exit {
  Code(i32),
  Signal(i32),
  Running,
}
fn exit_of(st: c_int) -> Exit {
  if st < 0 {
    Exit::Running
  } else if st & 0x7f != 0 {
    Exit::Signal(st & 0x7f)
  } else {
    Exit::Code(st >> 8)
  }
}
extern "C" fn proc_entry(arg: *mut c_void) -> *mut c_void {
  let f: Box<Box<dyn FnOnce() -> i32>> = unsafe { Box::from_raw(arg as *mut _) };
  let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or(101);
  code as usize as *mut c_void
}
impl Proc {
  pub fn spawn(f: impl FnOnce() -> i32 + 'static) -> Proc {
    let b: Box<Box<dyn FnOnce() -> i32>> = Box::new(Box::new(f));
    Proc(unsafe { vsim_proc_spawn(proc_entry, Box::into_raw(b) as *mut c_void) })
  }
  pub fn wait(&self) -> Exit {
    exit_of(unsafe { vsim_proc_wait(self.0) })
  }
  pub fn wait_timeout(&self, ns: u64) -> Exit {
    exit_of(unsafe { vsim_proc_wait_timeout(self.0, ns) })
  }
  pub fn kill(&self) {
    unsafe { vsim_proc_kill(self.0) }
  }
}

/// What `posix_spawn` starts: the simulated external program.
pub type ChildFn = fn(file: &str, argv: &[String], stdin: i32, stdout: i32, stderr: i32) -> i32;
static mut CHILD: Option<ChildFn> = None;
pub fn set_child(f: ChildFn) {
  unsafe { CHILD = Some(f) }
}
#[no_mangle]
extern "C" fn vsim_child_main(file: *const c_char, argv: *const *const c_char, i: c_int, o: c_int, e: c_int) -> c_int {
  let s = |p: *const c_char| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
  let mut v = vec![];
  unsafe {
    let mut p = argv;
    while !(*p).is_null() {
      v.push(s(*p));
      p = p.add(1);
    }
  }
  let f = unsafe { CHILD };
  match f {
    Some(f) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s(file), &v, i, o, e))).unwrap_or(101),
    None => 127,
  }
}
extern "C" {
  fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
  fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
}
/// Raw descriptor access for simulated children.
pub fn fd_read(fd: i32, buf: &mut [u8]) -> isize {
  loop {
    let r = unsafe { read(fd, buf.as_mut_ptr() as *mut c_void, buf.len()) };
    if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
      continue;
    }
    return r;
  }
}
pub fn fd_write(fd: i32, mut b: &[u8]) -> bool {
  while !b.is_empty() {
    let r = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
    if r < 0 {
      if std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
        continue;
      }
      return false;
    }
    b = &b[r as usize..];
  }
  true
}

// ---------------------------------------------------------------- results
struct Out {
  sample: String,
  sites: std::collections::BTreeMap<usize, String>,
  cfg: String,
}
thread_local! { static DUMMY: RefCell<u8> = RefCell::new(0); }
static mut OUT: Option<Out> = None;
#[allow(static_mut_refs)]
fn out() -> &'static mut Out {
  unsafe {
    if OUT.is_none() {
      OUT = Some(Out { sample: String::new(), sites: Default::default(), cfg: String::new() });
    }
    OUT.as_mut().unwrap()
  }
}
/// "sometimes" probe: counts how often a rare condition was really reached.
pub fn probe(name: &str) {
  probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
  unsafe { vsim_probe(name.as_ptr(), name.len(), n) }
}
pub fn sample(s: impl Into<String>) {
  out().sample = s.into();
}
pub fn site_name(site: usize, name: &str) {
  out().sites.insert(site, name.to_string());
}
pub fn describe_cfg(s: String) {
  out().cfg = s;
}

fn finish(status: &str, kind: &str, msg: &str) -> ! {
  unsafe { vsim_stop() };
  let o = out();
  let mut faults = serde_json::Map::new();
  for i in 0..S_MAX {
    let (f, s) = unsafe { (vsim_fault_fired(i as c_int), vsim_fault_seen(i as c_int)) };
    if f == 0 && s == 0 {
      continue;
    }
    let name = if i < SITE_NAMES.len() { SITE_NAMES[i].to_string() } else { o.sites.get(&i).cloned().unwrap_or(format!("user{i}")) };
    faults.insert(name, serde_json::json!([f, s]));
  }
  let mut probes = std::collections::BTreeMap::new();
  for i in 0.. {
    let mut n = 0;
    let p = unsafe { vsim_probe_nth(i, &mut n) };
    if p.is_null() {
      break;
    }
    probes.insert(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned(), n);
  }
  let j = serde_json::json!({
    "status": status, "kind": kind, "msg": msg,
    "ticks": stat(0), "vtime_ns": stat(1), "switches": stat(2), "preempts": stat(3),
    "hash": format!("{:016x}", stat(4)), "edges": stat(5), "threads": stat(6), "procs": stat(7),
    "guards": stat(10), "faults": faults, "probes": probes, "cfg": o.cfg, "sample": o.sample,
  });
  let s = j.to_string();
  unsafe {
    vsim_emit(s.as_ptr(), s.len());
    vsim_end()
  }
}
pub fn ok() -> ! {
  finish("ok", "", "")
}
pub fn violation(kind: &str, msg: impl AsRef<str>) -> ! {
  finish("violation", kind, msg.as_ref())
}
/// A run whose premises were not met; says nothing either way.
pub fn skip(msg: impl AsRef<str>) -> ! {
  finish("skip", "", msg.as_ref())
}
#[no_mangle]
extern "C" fn vsim_rust_fail(kind: *const c_char, msg: *const c_char) {
  let s = |p: *const c_char| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
  let (k, mut m) = (s(kind), s(msg));
  unsafe { vsim_stop() };
  if unsafe { GUARDED } && k != "harness" {
    finish("skip", &k, &m)
  }
  let e = captured(2);
  if !e.is_empty() {
    m.push_str("; stderr: ");
    m.push_str(&String::from_utf8_lossy(&e[e.len().saturating_sub(1500)..]));
  }
  finish(if k == "harness" { "harness" } else { "violation" }, &k, &m)
}

#[macro_export]
macro_rules! check {
  ($c:expr, $kind:expr, $($a:tt)*) => { if !($c) { $crate::sim::violation($kind, format!($($a)*)) } };
}

// ---------------------------------------------------------------- programs and references
extern "C" {
  fn vsim_set_args(n: c_int, a: *const *const c_char) -> c_int;
  fn vsim_fork_ref(f: extern "C" fn(*mut c_void), arg: *mut c_void, out: *mut u8, cap: usize, reseed: c_int) -> isize;
  fn vsim_ref_emit(p: *const u8, n: usize);
  fn vsim_kind_fired(s: c_int, k: c_int) -> u64;
}
pub fn kind_fired(site: usize, kind: i32) -> u64 {
  unsafe { vsim_kind_fired(site as c_int, kind) }
}
/// What `std::env::args` returns from now on.
pub fn set_args(a: &[String]) {
  let c: Vec<std::ffi::CString> = a.iter().map(|s| std::ffi::CString::new(s.as_str()).unwrap()).collect();
  let p: Vec<*const c_char> = c.iter().map(|s| s.as_ptr()).collect();
  if unsafe { vsim_set_args(p.len() as c_int, p.as_ptr()) } != 0 {
    finish("harness", "args", "start dst with more argument slots");
  }
}
/// Computes something in a forked copy of the simulation, sequentially, without
/// faults, with other hash seeds if `reseed`. None if it did not get there.
pub fn reference<T: serde::Serialize + serde::de::DeserializeOwned>(reseed: bool, f: impl FnOnce() -> T) -> Option<T> {
  struct A<T, F: FnOnce() -> T>(Option<F>);
  extern "C" fn go<T: serde::Serialize, F: FnOnce() -> T>(p: *mut c_void) {
    let a = unsafe { &mut *(p as *mut A<T, F>) };
    let v = (a.0.take().unwrap())();
    let s = serde_json::to_string(&v).unwrap();
    unsafe { vsim_ref_emit(s.as_ptr(), s.len()) };
  }
  fn start<T: serde::Serialize, F: FnOnce() -> T>(mut a: A<T, F>, out: &mut [u8], reseed: bool) -> isize {
    unsafe { vsim_fork_ref(go::<T, F>, &mut a as *mut A<T, F> as *mut c_void, out.as_mut_ptr(), out.len(), reseed as c_int) }
  }
  let mut out = vec![0u8; 16 << 20];
  let n = start(A(Some(f)), &mut out, reseed);
  if n <= 0 {
    return None;
  }
  serde_json::from_slice(&out[..n as usize]).ok()
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(seed: u64, stream: u64) -> Self {
    let mut r = Rng(seed ^ stream.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x51_7cc1_b727_220a);
    r.next();
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 { 0 } else { self.next() % n }
  }
  pub fn range(&mut self, a: u64, b: u64) -> u64 {
    a + self.below(b - a + 1)
  }
  pub fn chance(&mut self, pct: u64) -> bool {
    self.below(100) < pct
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.below(v.len() as u64) as usize]
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      let j = self.below(i as u64 + 1) as usize;
      v.swap(i, j);
    }
  }
  /// log-uniform in [a, b]
  pub fn logu(&mut self, a: u64, b: u64) -> u64 {
    let (la, lb) = ((a as f64).ln(), (b as f64).ln());
    let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
    ((la + (lb - la) * u).exp() as u64).clamp(a, b)
  }
}

/// A swarm configuration drawn from the seed: strategy, quantum, CPU count,
/// speed. Fault rates are left at zero for the scenario to set.
pub fn swarm(seed: u64, r: &mut Rng, run_len: u64) -> Cfg {
  let strategy = [STRAT_QUANTUM, STRAT_QUANTUM, STRAT_PCT, STRAT_RARE, STRAT_RARE][r.below(5) as usize];
  Cfg {
    seed,
    strategy,
    ncpu: r.range(1, 8) as u32,
    quantum: if strategy == STRAT_RARE { r.logu(5_000, 5_000_000) } else { r.logu(200, 2_000_000) },
    pct_depth: r.range(1, 12) as u32,
    pct_len: run_len,
    rare_max: r.range(1, 4) as u32,
    rare_ppm: r.logu(2_000, 300_000) as u32,
    ns_per_tick_x16: r.logu(4, 2048) as u32,
    tick_budget: 0,
    fault_ppm: [0; S_MAX],
    fault_max: [0; S_MAX],
    fault_kinds: [0; S_MAX],
    stall_ns: r.logu(1_000, 2_000_000_000),
    jump_ns: r.logu(1_000_000, 60_000_000_000),
    pipe_cap: r.logu(16, 65536) as u32,
    shuffle_wake: r.below(2) as u32,
  }
}
impl Cfg {
  pub fn rate(&mut self, site: usize, ppm: u64) -> &mut Self {
    self.fault_ppm[site] = ppm as u32;
    self
  }
  pub fn max(&mut self, site: usize, n: u32) -> &mut Self {
    self.fault_max[site] = n;
    self
  }
  /// Restrict a site to these fault kinds.
  pub fn kinds(&mut self, site: usize, ks: &[u32]) -> &mut Self {
    self.fault_kinds[site] = ks.iter().fold(0, |m, k| m | 1 << k);
    self
  }
  pub fn apply(&self) {
    config(self);
    let mut f = String::new();
    for i in 0..S_MAX {
      if self.fault_ppm[i] > 0 {
        f.push_str(&format!(" {}={}ppm", SITE_NAMES.get(i).copied().unwrap_or("user"), self.fault_ppm[i]));
      }
    }
    describe_cfg(format!(
      "strategy={} quantum={} pct_depth={} rare={}/{}ppm ncpu={} ns/tick*16={} shuffle_wake={}{}",
      ["none", "quantum", "pct", "rare-edge", "replay"][self.strategy as usize],
      self.quantum, self.pct_depth, self.rare_max, self.rare_ppm, self.ncpu, self.ns_per_tick_x16, self.shuffle_wake, f
    ));
  }
}

/// A simulated thread with a main-thread-sized stack.
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
  std::thread::Builder::new().stack_size(64 << 20).spawn(f).expect("spawn")
}

/// What a panicking thread had to say.
pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
  if let Some(s) = e.downcast_ref::<String>() {
    return s.clone();
  }
  if let Some(s) = e.downcast_ref::<&str>() {
    return s.to_string();
  }
  if let Some(f) = e.downcast_ref::<typecheck_ts::FatalError>() {
    return format!("{f:?}");
  }
  if e.is::<diagnostics::Cancelled>() {
    return "diagnostics::Cancelled".into();
  }
  "(not a string)".into()
}
