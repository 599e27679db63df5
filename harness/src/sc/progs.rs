//! The shipped command-line programs, compiled into the harness from /repo.
fn code(c: std::process::ExitCode) -> i32 {
  if c == std::process::ExitCode::SUCCESS {
    0
  } else {
    let s = format!("{c:?}");
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(1)
  }
}
pub mod minify {
  include!("/repo/minify-js-cli/src/main.rs");
  pub fn run() -> i32 {
    main();
    0
  }
}
pub mod parse {
  include!("/repo/parse-js-cli/src/main.rs");
  pub fn run() -> i32 {
    main();
    0
  }
}
pub mod tsc {
  include!("/repo/typecheck-ts-cli/src/main.rs");
  pub fn run() -> i32 {
    super::code(main())
  }
}
pub mod test262 {
  include!("/repo/test262/src/main.rs");
  pub fn run() -> i32 {
    main();
    0
  }
}
pub mod runner {
  include!("/repo/parse-js/src/bin/conformance_runner.rs");
  pub fn run() -> i32 {
    main();
    0
  }
}
pub mod harness {
  include!("/repo/typecheck-ts-harness/src/main.rs");
  pub fn run() -> i32 {
    super::code(main())
  }
}
pub mod debugger {
  include!("/repo/optimize-js-debugger/src/main.rs");
  pub fn app() -> Router {
    build_app()
  }
  /// `main` with --snapshot; the server it starts otherwise is run by the scenario itself.
  pub fn run() -> i32 {
    let args: Vec<String> = env::args().skip(1).collect();
    match run_snapshot_mode(&args) {
      Ok(true) => 0,
      Ok(false) => panic!("no --snapshot"),
      Err(err) => {
        eprintln!("error: {err}");
        1
      }
    }
  }
}
