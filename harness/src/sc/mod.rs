pub mod smoke;
pub mod tc;
pub mod tq;
pub mod dbg;
pub mod te;
pub mod ti;
pub mod th;
pub mod cf;
pub mod cli;
pub mod lx;
pub mod srv;
#[allow(dead_code, unused_imports, clippy::all)]
pub mod progs;
static mut NAME: String = String::new();
#[allow(static_mut_refs)]
pub fn name() -> &'static str {
  unsafe { &NAME }
}
pub fn select(n: &str) {
  unsafe { NAME = n.to_string() }
}
pub fn run(seed: u64) {
  match name() {
    "smoke" => smoke::run(seed),
    "schedules" => tc::schedules(seed),
    "recursive" => tc::recursive(seed),
    "queries" => tq::queries(seed),
    "cancel" => tq::cancel(seed),
    "snapshot" => te::snapshot(seed),
    "dbg" => dbg::run(seed),
    "edits" => te::edits(seed),
    "typestore" => ti::typestore(seed),
    "relate" => ti::relate(seed),
    "conformance" => cf::conformance(seed),
    "minify" => cli::minify(seed),
    "parsecli" => cli::parse(seed),
    "tsccli" => cli::tsc(seed),
    "pipeline" => lx::pipeline(seed),
    "pcancel" => lx::pcancel(seed),
    "service" => srv::service(seed),
    "dump" => srv::dump(seed),
    "timeouts" => th::timeouts(seed),
    "clockcache" => ti::clockcache(seed),
    "hostfaults" => te::hostfaults(seed),
    n => panic!("no scenario {n}"),
  }
}
