use super::tc::*;
use crate::gen_ts::Prog;
use crate::sim::*;
use std::sync::Arc;
pub fn run(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let m0 = "export type A2 = { readonly [P in keyof { a: 1; b: 2 }]?: { a: 1; b: 2 }[P] | null };\nexport interface I3 {\n  a: A2;\n}\nexport enum E4 { a, b = 5, c = \"cc\" }\nconst s1_0: I3[\"a\"] = E4.a;\n";
  let p = Prog { files: [m0].iter().enumerate().map(|(i, t)| (format!("m{i}.ts"), t.to_string())).collect(), roots: vec!["m0.ts".into()] };
  let o = options(&mut r);
  let t0 = ticks();
  let (want, one) = premise(REF, || { let b = build(&p, &o); let t = ticks(); let d = diags(&b); let one = ticks() - t; (d, one) });
  let len = ticks() - t0;
  let mut cfg = swarm(seed, &mut r, len);
  cfg.apply();
  active(true);
  budget(20 * len + 20_000_000);
  let b = Arc::new(build(&p, &o));
  let body = { let f = b.file_id(&typecheck_ts::FileKey::new("m0.ts")).unwrap(); let v = b.bodies_in_file(f); v };
  let n = r.range(2, 3);
  let hs: Vec<_> = (0..n).map(|_| { let b = b.clone(); let body = body.clone(); spawn(move || { body.iter().map(|x| format!("{:?}", b.check_body(*x).diagnostics())).collect::<String>() }) }).collect();
  let got: Vec<String> = hs.into_iter().map(|h| h.join().unwrap()).collect();
  active(false);
  budget(0);
  let _ = (one, want);
  check!(got.iter().all(|g| *g == got[0]), "differ", "n={n} {got:?}");
  ok()
}
