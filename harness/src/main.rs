//! Deterministic-simulation harness for ecma-rs. `dst serve <scenario>` is a fork server
//! (VERIF_COV names a coverage file; it is no argument because programs under test can see the arguments).
#[macro_use]
mod sim;
mod gen_ts;
mod sc;

extern "C" fn run(seed: u64) {
  sc::run(seed);
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() < 3 || args[1] != "serve" {
    eprintln!("usage: dst serve <scenario>   (seed replay|- trace|- timeout_ms per line on stdin)");
    std::process::exit(2);
  }
  sc::select(&args[2]);
  let cov = std::env::var("VERIF_COV").unwrap_or("-".into());
  sim::serve(run, &cov);
}
