use crate::sim::*;
use std::sync::Arc;
use typecheck_ts::{FileKey, MemoryHost, Program};
pub fn run(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let mut cfg = swarm(seed, &mut r, 20_000_000);
  cfg.rate(S_SPURIOUS, 1000).rate(S_STALL, 1000);
  cfg.apply();
  let build = || {
    let mut host = MemoryHost::with_options(typecheck_ts::lib_support::CompilerOptions { no_default_lib: true, ..Default::default() });
    for i in 0..6 {
      let k = FileKey::new(format!("f{i}.ts"));
      let src = format!("export function f{i}(a: number, b: string): string {{ const x: number = b; return a; }}\nexport const v{i} = f{i}(1, 'x');\nexport interface I{i} {{ a: number; b: string }}\nconst q: I{i} = {{ a: 'x', b: 1 }};\n");
      host.insert(k, Arc::<str>::from(src));
    }
    let roots: Vec<_> = (0..6).map(|i| FileKey::new(format!("f{i}.ts"))).collect();
    Program::new(host, roots)
  };
  let t0 = ticks();
  let want = format!("{:?}", build().check());
  let t1 = ticks();
  active(true);
  let p = Arc::new(build());
  let hs: Vec<_> = (0..3).map(|_| { let p = p.clone(); std::thread::spawn(move || format!("{:?}", p.check())) }).collect();
  for h in hs {
    let got = h.join().unwrap();
    check!(got == want, "differs", "got {got}\nwant {want}");
  }
  sample(format!("{} ticks {}", want.len(), t1 - t0));
  ok()
}
