//! Interned type store, relation/evaluation caches, sharded cache.
use crate::sim::*;
use ordered_float::OrderedFloat;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use types_ts_interned::*;

#[derive(Clone, Debug)]
pub enum Rec {
  Prim(u64),
  Str(u64),
  Num(u64),
  Bool(bool),
  Union(Vec<usize>),
  Inter(Vec<usize>),
  Array(usize, bool),
  Tuple(Vec<(usize, bool, bool)>),
  Obj { props: Vec<(u64, usize, bool, bool, bool)>, idx: Vec<(u64, usize, bool)>, calls: Vec<Sig> },
  Call(Vec<Sig>),
  Ref(u64, Vec<usize>),
  TParam(u64),
  Cond(usize, usize, usize, usize, bool),
  Mapped(u64, usize, usize, u64, u64, Option<usize>),
  Tpl(u64, Vec<(usize, u64)>),
  Intr(u64, usize),
  Index(usize, usize),
  KeyOf(usize),
  Pred(Option<usize>, bool),
}
#[derive(Clone, Debug)]
pub struct Sig {
  params: Vec<(usize, bool, u64)>,
  rest: bool,
  ret: usize,
  this: Option<usize>,
}
fn sig(r: &mut Rng, n: usize) -> Sig {
  let k = r.below(3);
  Sig {
    params: (0..k).map(|_| (r.below(n as u64) as usize, r.chance(20), r.below(8))).collect(),
    rest: r.chance(10),
    ret: r.below(n as u64) as usize,
    this: if r.chance(10) { Some(r.below(n as u64) as usize) } else { None },
  }
}
/// `n` type descriptions, each built from earlier ones.
pub fn recipes(r: &mut Rng, n: usize, defs: u64) -> Vec<Rec> {
  let mut v: Vec<Rec> = (0..12).map(Rec::Prim).collect();
  let names = r.range(2, 10);
  while v.len() < n {
    let len = v.len() as u64;
    // mostly recent types, so that structures grow
    let at = |r: &mut Rng| if r.chance(60) { (len - 1 - r.below(len.min(16))) as usize } else { r.below(len) as usize };
    let many = |r: &mut Rng, a, b| -> Vec<usize> { (0..r.range(a, b)).map(|_| at(r)).collect() };
    let x = match r.below(21) {
      0 | 1 => Rec::Str(r.below(names)),
      2 => Rec::Num(r.below(6)),
      3 => Rec::Bool(r.chance(50)),
      4 | 5 | 6 => Rec::Union(many(r, 1, 5)),
      7 => Rec::Inter(many(r, 1, 3)),
      8 => Rec::Array(at(r), r.chance(30)),
      9 => Rec::Tuple((0..r.range(0, 3)).map(|_| (at(r), r.chance(20), r.chance(10))).collect()),
      10 | 11 | 12 => {
        let k = r.range(0, 4);
        let mut used = std::collections::HashSet::new();
        let mut props = vec![];
        for _ in 0..k {
          let nm = r.below(names + 4);
          let dup = !used.insert(nm);
          if dup && props.iter().filter(|p: &&(u64, usize, bool, bool, bool)| p.0 == nm).count() > 1 {
            continue;
          }
          props.push((nm, at(r), r.chance(25), r.chance(25), r.chance(10)));
        }
        let idx = if r.chance(25) { vec![(r.below(3), at(r), r.chance(30))] } else { vec![] };
        let calls = if r.chance(15) { (0..r.range(1, 2)).map(|_| sig(r, len as usize)).collect() } else { vec![] };
        Rec::Obj { props, idx, calls }
      }
      13 => Rec::Call((0..r.range(1, 3)).map(|_| sig(r, len as usize)).collect()),
      14 => {
        if defs == 0 {
          continue;
        }
        let d = r.below(defs);
        Rec::Ref(d, vec![at(r)])
      }
      15 => Rec::TParam(r.below(4)),
      16 => Rec::Cond(at(r), at(r), at(r), at(r), r.chance(50)),
      17 => Rec::Mapped(r.below(4), at(r), at(r), r.below(3), r.below(3), if r.chance(20) { Some(at(r)) } else { None }),
      18 => Rec::Tpl(r.below(4), (0..r.range(1, 2)).map(|_| (at(r), r.below(4))).collect()),
      19 => match r.below(3) {
        0 => Rec::Intr(r.below(5), at(r)),
        1 => Rec::Index(at(r), at(r)),
        _ => Rec::KeyOf(at(r)),
      },
      _ => Rec::Pred(if r.chance(70) { Some(at(r)) } else { None }, r.chance(50)),
    };
    v.push(x);
  }
  v
}
fn modi(k: u64) -> MappedModifier {
  match k {
    0 => MappedModifier::Add,
    1 => MappedModifier::Remove,
    _ => MappedModifier::Preserve,
  }
}
/// Interns recipes into one store; members are permuted with `r` where order must not matter.
pub struct Maker<'a> {
  pub s: &'a Arc<TypeStore>,
  pub v: &'a [Rec],
  pub memo: Vec<Option<TypeId>>,
  pub perm: bool,
}
impl<'a> Maker<'a> {
  pub fn new(s: &'a Arc<TypeStore>, v: &'a [Rec], perm: bool) -> Self {
    Maker { s, v, memo: vec![None; v.len()], perm }
  }
  fn sh<T>(&self, r: &mut Rng, v: &mut Vec<T>) {
    if self.perm {
      r.shuffle(v)
    }
  }
  fn sig(&mut self, g: &Sig, r: &mut Rng) -> SignatureId {
    let n = g.params.len();
    let params = g
      .params
      .iter()
      .enumerate()
      .map(|(i, (t, o, nm))| Param { name: Some(self.s.intern_name(format!("p{}", nm + if self.perm { r.below(3) } else { 0 }))), ty: self.get(*t, r), optional: *o, rest: g.rest && i + 1 == n })
      .collect();
    let ret = self.get(g.ret, r);
    let this_param = g.this.map(|t| self.get(t, r));
    self.s.intern_signature(Signature { params, ret, type_params: vec![], this_param })
  }
  pub fn get(&mut self, i: usize, r: &mut Rng) -> TypeId {
    if let Some(t) = self.memo[i] {
      return t;
    }
    let s = self.s;
    let p = s.primitive_ids();
    let rec = self.v[i].clone();
    let k = match &rec {
      Rec::Prim(k) => {
        let a = [p.any, p.unknown, p.never, p.void, p.null, p.undefined, p.boolean, p.number, p.string, p.bigint, p.symbol, p.unique_symbol];
        self.memo[i] = Some(a[*k as usize]);
        return a[*k as usize];
      }
      Rec::Str(n) => TypeKind::StringLiteral(s.intern_name(format!("s{n}"))),
      Rec::Num(n) => TypeKind::NumberLiteral(OrderedFloat::from(*n as f64)),
      Rec::Bool(b) => TypeKind::BooleanLiteral(*b),
      Rec::Union(m) | Rec::Inter(m) => {
        let mut m: Vec<_> = m.iter().map(|x| self.get(*x, r)).collect();
        self.sh(r, &mut m);
        let direct = r.chance(50);
        if matches!(rec, Rec::Union(_)) {
          if direct {
            let t = s.union(m);
            self.memo[i] = Some(t);
            return t;
          }
          TypeKind::Union(m)
        } else {
          if direct {
            let t = s.intersection(m);
            self.memo[i] = Some(t);
            return t;
          }
          TypeKind::Intersection(m)
        }
      }
      Rec::Array(t, ro) => TypeKind::Array { ty: self.get(*t, r), readonly: *ro },
      Rec::Tuple(e) => TypeKind::Tuple(e.iter().map(|(t, o, rest)| TupleElem { ty: self.get(*t, r), optional: *o, rest: *rest, readonly: false }).collect()),
      Rec::Obj { props, idx, calls } => {
        let mut properties: Vec<_> = props
          .iter()
          .map(|(n, t, o, ro, m)| Property {
            key: if *n >= 8 { PropKey::Number(*n as i64) } else { PropKey::String(s.intern_name(format!("s{n}"))) },
            data: PropData { ty: self.get(*t, r), optional: *o, readonly: *ro, accessibility: None, is_method: *m, origin: None, declared_on: None },
          })
          .collect();
        self.sh(r, &mut properties);
        let indexers = idx
          .iter()
          .map(|(k, t, ro)| Indexer { key_type: [p.string, p.number, p.symbol][*k as usize], value_type: self.get(*t, r), readonly: *ro })
          .collect();
        let mut call_signatures: Vec<_> = calls.iter().map(|g| self.sig(g, r)).collect();
        self.sh(r, &mut call_signatures);
        let shape = s.intern_shape(Shape { properties, call_signatures, construct_signatures: vec![], indexers });
        TypeKind::Object(s.intern_object(ObjectType { shape }))
      }
      Rec::Call(g) => {
        let mut overloads: Vec<_> = g.iter().map(|g| self.sig(g, r)).collect();
        self.sh(r, &mut overloads);
        TypeKind::Callable { overloads }
      }
      Rec::Ref(d, a) => TypeKind::Ref { def: DefId(*d + 1), args: a.iter().map(|x| self.get(*x, r)).collect() },
      Rec::TParam(n) => TypeKind::TypeParam(TypeParamId(*n as u32)),
      Rec::Cond(a, b, c, d, x) => TypeKind::Conditional { check: self.get(*a, r), extends: self.get(*b, r), true_ty: self.get(*c, r), false_ty: self.get(*d, r), distributive: *x },
      Rec::Mapped(p, a, b, ro, o, x) => TypeKind::Mapped(MappedType {
        param: TypeParamId(*p as u32),
        source: self.get(*a, r),
        value: self.get(*b, r),
        readonly: modi(*ro),
        optional: modi(*o),
        name_type: None,
        as_type: x.map(|x| self.get(x, r)),
      }),
      Rec::Tpl(h, c) => TypeKind::TemplateLiteral(TemplateLiteralType { head: format!("h{h}"), spans: c.iter().map(|(t, l)| TemplateChunk { literal: format!("l{l}"), ty: self.get(*t, r) }).collect() }),
      Rec::Intr(k, t) => TypeKind::Intrinsic {
        kind: [IntrinsicKind::Uppercase, IntrinsicKind::Lowercase, IntrinsicKind::Capitalize, IntrinsicKind::Uncapitalize, IntrinsicKind::NoInfer][*k as usize],
        ty: self.get(*t, r),
      },
      Rec::Index(a, b) => TypeKind::IndexedAccess { obj: self.get(*a, r), index: self.get(*b, r) },
      Rec::KeyOf(a) => TypeKind::KeyOf(self.get(*a, r)),
      Rec::Pred(a, x) => TypeKind::Predicate { parameter: None, asserted: a.map(|a| self.get(a, r)), asserts: *x },
    };
    let t = s.intern_type(k);
    self.memo[i] = Some(t);
    t
  }
}
fn collide3(raw: u128, _d: u64, salt: u64) -> u128 {
  if salt < 2 {
    raw % 3
  } else {
    raw
  }
}
fn collide64(raw: u128, _d: u64, salt: u64) -> u128 {
  if salt < 1 {
    raw % 64
  } else {
    raw
  }
}
fn collide_shapes(raw: u128, d: u64, salt: u64) -> u128 {
  if salt < 4 && (d == 0x7368_6170 || d == 0x7369_676e || d == 0x6f62_6a65) {
    raw % 5
  } else {
    raw
  }
}
fn show(s: &Arc<TypeStore>, t: TypeId) -> String {
  TypeDisplay::new(s.as_ref(), t).to_string()
}

/// P07: every thread gets the same identifier for the same type, whatever the interleaving.
pub fn typestore(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let n = r.range(20, 120) as usize;
  let v = recipes(&mut r, n, 3);
  let opts = TypeOptions { exact_optional_property_types: r.chance(30), no_unchecked_indexed_access: r.chance(30), ..Default::default() };
  let t0 = ticks();
  let (ref_ids, ref_show, ref_store) = premise(80_000_000, || {
    let s = TypeStore::with_options(opts);
    let mut m = Maker::new(&s, &v, false);
    let ids: Vec<_> = (0..v.len()).map(|i| m.get(i, &mut r)).collect();
    let sh: Vec<_> = ids.iter().map(|t| show(&s, *t)).collect();
    (ids, sh, s)
  });
  let len = ticks() - t0;
  let mut cfg = swarm(seed, &mut r, len * 2);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  let coll = r.below(8);
  let store = match coll {
    0 => TypeStore::with_options_and_fingerprint(opts, collide3),
    1 => TypeStore::with_options_and_fingerprint(opts, collide64),
    2 => TypeStore::with_options_and_fingerprint(opts, collide_shapes),
    _ => TypeStore::with_options(opts),
  };
  let colliding = coll < 3;
  let nthreads = r.range(2, 4) as usize;
  sample(format!("{n} types, {nthreads} threads, colliding fingerprints: {colliding}"));
  let va = Arc::new(v.clone());
  active(true);
  budget(200 * nthreads as u64 * len + 100_000_000);
  let seeds: Vec<u64> = (0..nthreads).map(|_| r.next()).collect();
  let hs: Vec<_> = seeds
    .into_iter()
    .map(|sd| {
      let (store, v, ref_show) = (store.clone(), va.clone(), ref_show.clone());
      spawn(move || {
        let mut r = Rng::new(sd, 3);
        let mut order: Vec<usize> = (0..v.len()).collect();
        r.shuffle(&mut order);
        let mut m = Maker::new(&store, &v, true);
        for i in order {
          let t = m.get(i, &mut r);
          if r.chance(10) {
            let d = show(&store, t);
            check!(colliding || d == ref_show[i], "display-differs", "type {i} {:?} shows as {d}, alone as {}", v[i], ref_show[i]);
          }
          if r.chance(5) {
            check!(store.contains_type_id(t) && store.intern_type(store.type_kind(t)) == t, "not-canonical", "interning the definition of type {i} again gives another identifier");
          }
        }
        m.memo.into_iter().map(|t| t.unwrap()).collect::<Vec<_>>()
      })
    })
    .collect();
  let got: Vec<Vec<TypeId>> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| violation("panic", "an interning thread panicked"))).collect();
  active(false);
  budget(0);
  for (t, g) in got.iter().enumerate() {
    for i in 0..v.len() {
      check!(g[i] == got[0][i], "threads-disagree", "type {i} {:?} is {:?} for thread 0 and {:?} for thread {t}", v[i], got[0][i], g[i]);
      if !colliding {
        check!(g[i] == ref_ids[i], "schedule-dependent-id", "type {i} {:?} ({}) is {:?}, alone {:?} ({})", v[i], show(&store, g[i]), g[i], ref_ids[i], ref_show[i]);
      }
    }
  }
  let g = &got[0];
  // one identifier per type, one type per identifier
  let mut fwd: HashMap<TypeId, TypeId> = HashMap::new();
  let mut bwd: HashMap<TypeId, TypeId> = HashMap::new();
  for i in 0..v.len() {
    let a = *fwd.entry(ref_ids[i]).or_insert(g[i]);
    check!(a == g[i], "duplicate-identity", "type {i} {:?} has two identifiers", v[i]);
    let b = *bwd.entry(g[i]).or_insert(ref_ids[i]);
    check!(b == ref_ids[i], "identifier-reused", "identifier {:?} stands for {} and {}", g[i], show(&ref_store, b), ref_show[i]);
    let d = show(&store, g[i]);
    check!(colliding || d == ref_show[i], "display-differs", "type {i} {:?} shows as {d}, alone as {}", v[i], ref_show[i]);
  }
  // a total order, the same as the reference's
  for _ in 0..60 {
    let (i, j, k) = (r.below(n as u64) as usize, r.below(n as u64) as usize, r.below(n as u64) as usize);
    let o = store.type_cmp(g[i], g[j]);
    check!(o == store.type_cmp(g[j], g[i]).reverse() && (o == std::cmp::Ordering::Equal) == (g[i] == g[j]), "order-not-antisymmetric", "{} / {}", ref_show[i], ref_show[j]);
    if o.is_le() && store.type_cmp(g[j], g[k]).is_le() {
      check!(store.type_cmp(g[i], g[k]).is_le(), "order-not-transitive", "{} / {} / {}", ref_show[i], ref_show[j], ref_show[k]);
    }
    if !colliding {
      check!(o == ref_store.type_cmp(ref_ids[i], ref_ids[j]), "order-differs", "{} / {}", ref_show[i], ref_show[j]);
    }
  }
  if colliding {
    probe("colliding_stores");
  }
  // what was interned survives a snapshot
  let snap = store.snapshot();
  let json = serde_json::to_string(&snap).unwrap();
  let back = TypeStore::from_snapshot(serde_json::from_str(&json).unwrap());
  for i in 0..v.len() {
    check!(back.contains_type_id(g[i]), "lost-in-snapshot", "type {i} {:?} is not in the restored store", v[i]);
    let (a, b) = (back.type_kind(g[i]), store.type_kind(g[i]));
    check!(a == b, "changed-in-snapshot", "type {i}: {a:?} was {b:?}");
    check!(show(&back, g[i]) == show(&store, g[i]), "changed-in-snapshot", "type {i} shows differently after restoring");
  }
  check!(serde_json::to_string(&back.snapshot()).unwrap() == json, "snapshot-unstable", "the restored store has another snapshot");
  if !colliding {
    let mut m = Maker::new(&back, &v, true);
    for i in 0..v.len() {
      let t = m.get(i, &mut r);
      check!(t == g[i], "restored-id-differs", "type {i} {:?} is {t:?} in the restored store, {:?} before", v[i], g[i]);
    }
    probe("restored_and_reinterned");
  }
  ok()
}

/// Definitions: non-recursive generic aliases.
#[derive(Clone)]
pub struct Exp {
  store: Option<Arc<TypeStore>>,
  params: Vec<TypeParamId>,
  bodies: Vec<TypeId>,
}
impl TypeExpander for Exp {
  fn expand(&self, _: &TypeStore, def: DefId, _: &[TypeId]) -> Option<ExpandedType> {
    let b = *self.bodies.get((def.0 as usize).wrapping_sub(1))?;
    Some(ExpandedType { params: self.params.clone(), ty: b })
  }
}
impl RelateTypeExpander for Exp {
  fn expand_ref(&self, store: &TypeStore, def: DefId, args: &[TypeId]) -> Option<TypeId> {
    let b = *self.bodies.get((def.0 as usize).wrapping_sub(1))?;
    let _ = store;
    let s = self.store.as_ref()?;
    let mut ev = TypeEvaluator::with_caches(s.clone(), &NoExp, EvaluatorCaches::new(CacheConfig { max_entries: 4096, shard_count: 1 }));
    Some(ev.evaluate_with_bindings(b, self.params.iter().copied().zip(args.iter().copied())))
  }
}
struct NoExp;
impl TypeExpander for NoExp {
  fn expand(&self, _: &TypeStore, _: DefId, _: &[TypeId]) -> Option<ExpandedType> {
    None
  }
}
#[derive(Clone, Copy, Debug)]
enum Op {
  Assign(usize, usize),
  Compare(usize, usize),
  Strict(usize, usize),
  Explain(usize, usize),
  Eval(usize),
}
fn run_op(op: Op, g: &[TypeId], ctx: &RelateCtx, ev: &mut TypeEvaluator<Exp>) -> String {
  match op {
    Op::Assign(a, b) => ctx.is_assignable(g[a], g[b]).to_string(),
    Op::Compare(a, b) => ctx.is_comparable(g[a], g[b]).to_string(),
    Op::Strict(a, b) => ctx.is_strict_subtype(g[a], g[b]).to_string(),
    Op::Explain(a, b) => format!("{:?}", ctx.explain_assignable(g[a], g[b])),
    Op::Eval(a) => format!("{:?}", ev.evaluate(g[a])),
  }
}

/// P08: shared caches never change a relation or evaluation result.
pub fn relate(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let n = r.range(20, 70) as usize;
  let v = recipes(&mut r, n, 4);
  let recursive = false;
  let hook = r.chance(70);
  let cached_ref = r.chance(40);
  let opts = TypeOptions {
    strict_null_checks: r.chance(70),
    strict_function_types: r.chance(70),
    exact_optional_property_types: r.chance(30),
    no_unchecked_indexed_access: r.chance(30),
    ..Default::default()
  };
  let nops = r.range(10, 60) as usize;
  let ops: Vec<Op> = (0..nops)
    .map(|_| {
      let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
      match r.below(8) {
        0..=2 => Op::Assign(a, b),
        3 => Op::Compare(a, b),
        4 => Op::Strict(a, b),
        5 => Op::Explain(a, b),
        _ => Op::Eval(a),
      }
    })
    .collect();
  let mk = |s: &Arc<TypeStore>, r: &mut Rng| {
    let mut m = Maker::new(s, &v, false);
    let g: Vec<_> = (0..v.len()).map(|i| m.get(i, r)).collect();
    // bodies of definitions: simple, non-recursive uses of the parameter
    let tp = s.intern_type(TypeKind::TypeParam(TypeParamId(50)));
    let p = s.primitive_ids();
    let nm = s.intern_name("value");
    let sh = s.intern_shape(Shape {
      properties: vec![Property { key: PropKey::String(nm), data: PropData { ty: tp, optional: false, readonly: false, accessibility: None, is_method: false, origin: None, declared_on: None } }],
      call_signatures: vec![],
      construct_signatures: vec![],
      indexers: vec![],
    });
    let boxed = s.intern_type(TypeKind::Object(s.intern_object(ObjectType { shape: sh })));
    let arr = s.intern_type(TypeKind::Array { ty: tp, readonly: false });
    let cond = s.intern_type(TypeKind::Conditional { check: tp, extends: p.string, true_ty: arr, false_ty: tp, distributive: true });
    let rec = if recursive {
      let me = s.intern_type(TypeKind::Ref { def: DefId(4), args: vec![tp] });
      let nx = s.intern_name("next");
      let prop = |k, ty| Property { key: PropKey::String(k), data: PropData { ty, optional: false, readonly: false, accessibility: None, is_method: false, origin: None, declared_on: None } };
      let sh = s.intern_shape(Shape { properties: vec![prop(nm, tp), prop(nx, s.union(vec![me, p.null]))], call_signatures: vec![], construct_signatures: vec![], indexers: vec![] });
      s.intern_type(TypeKind::Object(s.intern_object(ObjectType { shape: sh })))
    } else {
      arr
    };
    (g, Exp { store: Some(s.clone()), params: vec![TypeParamId(50)], bodies: vec![boxed, s.union(vec![tp, p.null]), cond, rec] })
  };
  let t0 = ticks();
  let (want, store, g, exp) = premise(200_000_000, || {
    let s = TypeStore::with_options(opts);
    let (g, exp) = mk(&s, &mut r);
    let w: Vec<String> = ops
      .iter()
      .map(|op| {
        let off = CacheConfig { max_entries: if cached_ref { 100_000 } else { 0 }, shard_count: 1 };
        let hooks = RelateHooks { expander: if hook { Some(&exp) } else { None }, ..Default::default() };
        let ctx = RelateCtx::with_hooks_cache_and_normalizer_caches(s.clone(), opts, hooks, RelationCache::new(off), EvaluatorCaches::new(off));
        let mut ev = TypeEvaluator::with_caches(s.clone(), &exp, EvaluatorCaches::new(off));
        run_op(*op, &g, &ctx, &mut ev)
      })
      .collect();
    (w, s, g, exp)
  });
  let len = ticks() - t0;
  let cc = |r: &mut Rng| CacheConfig { max_entries: if r.chance(10) { 0 } else { r.logu(1, 256) as usize }, shard_count: r.range(1, 4) as usize };
  let (c1, c2, c3) = (cc(&mut r), cc(&mut r), cc(&mut r));
  let mut cfg = swarm(seed, &mut r, len * 2);
  cfg.rate(S_SPURIOUS, 2000).rate(S_STALL, 500);
  cfg.apply();
  // the store itself may be shared with the reference or fresh
  let (store, g, exp) = if r.chance(50) {
    let s = TypeStore::with_options(opts);
    let (g, e) = mk(&s, &mut r);
    (s, g, e)
  } else {
    (store, g, exp)
  };
  let nthreads = r.range(2, 4) as usize;
  sample(format!("{n} types, {nops} questions, {nthreads} threads, caches {c1:?} {c2:?} {c3:?}"));
  let rel = RelationCache::new(c1);
  let norm = EvaluatorCaches::new(c2);
  let evc = EvaluatorCaches::new(c3);
  let inval = r.chance(20);
  let shared = Arc::new((ops, want, g, exp, v.clone()));
  active(true);
  budget(100 * nthreads as u64 * len + 100_000_000);
  let hs: Vec<_> = (0..nthreads)
    .map(|t| {
      let (sh, store, rel, norm, evc) = (shared.clone(), store.clone(), rel.clone(), norm.clone(), evc.clone());
      let sd = r.next();
      spawn(move || {
        let mut r = Rng::new(sd, 5);
        let (ops, want, g, exp, v) = (&sh.0, &sh.1, &sh.2, &sh.3, &sh.4);
        let hooks = RelateHooks { expander: if hook { Some(exp) } else { None }, ..Default::default() };
        let ctx = RelateCtx::with_hooks_cache_and_normalizer_caches(store.clone(), opts, hooks, rel.clone(), norm.clone());
        let mut ev = TypeEvaluator::with_caches(store.clone(), exp, evc.clone());
        for k in 0..r.range(5, 60) as usize {
          let i = r.below(ops.len() as u64) as usize;
          let what = r.below(40);
          if !op_enabled(t * 64 + k) {
            continue;
          }
          if inval && what == 0 {
            rel.invalidate();
            norm.invalidate();
            evc.invalidate();
          } else if inval && what == 1 {
            rel.clear();
            norm.clear();
            evc.clear();
          }
          let got = run_op(ops[i], g, &ctx, &mut ev);
          if got != want[i] {
            let d = |x: usize| show(&store, g[x]);
            let text = match ops[i] {
              Op::Assign(a, b) | Op::Compare(a, b) | Op::Strict(a, b) | Op::Explain(a, b) => format!("{} -> {}", d(a), d(b)),
              Op::Eval(a) => d(a),
            };
            violation("cache-changes-answer", format!("thread {t} step {k} {:?} [{text}]: got {got}, alone {}\n{v:?}", ops[i], want[i]));
          }
          probe("answers");
        }
      })
    })
    .collect();
  for h in hs {
    if h.join().is_err() {
      violation("panic", "a relation thread panicked");
    }
  }
  active(false);
  budget(0);
  check!(rel.len() <= c1.max_entries, "cache-over-capacity", "{} of {}", rel.len(), c1.max_entries);
  probe_n("cache_hits", rel.stats().hits + norm.stats().eval.hits + evc.stats().eval.hits);
  probe_n("cache_evictions", rel.stats().evictions + norm.stats().eval.evictions + evc.stats().eval.evictions);
  ok()
}

#[derive(Clone, Debug)]
enum CEv {
  Insert(u64),
  Remove(Option<u64>),
  Get(Option<u64>),
  Contains(bool),
  Clear,
}
#[derive(Clone, Debug)]
struct CRec {
  call: u64,
  ret: u64,
  ev: CEv,
}
/// Linearizability of one key's history against a register with optional value.
fn linear(h: &[CRec], lossy: bool) -> bool {
  fn go(h: &[CRec], done: &mut Vec<bool>, state: Option<u64>, seen: &mut std::collections::HashSet<(Vec<bool>, Option<u64>)>, lossy: bool) -> bool {
    if done.iter().all(|d| *d) {
      return true;
    }
    if !seen.insert((done.clone(), state)) {
      return false;
    }
    let min_ret = h.iter().zip(done.iter()).filter(|(_, d)| !**d).map(|(c, _)| c.ret).min().unwrap();
    for i in 0..h.len() {
      if done[i] || h[i].call > min_ret {
        continue;
      }
      // with eviction, a present value may disappear at any point
      let states: &[Option<u64>] = if lossy && state.is_some() { &[state, None] } else { &[state] };
      for st in states {
        let next = match &h[i].ev {
          CEv::Insert(v) => Some(Some(*v)),
          CEv::Remove(x) => (*x == *st).then_some(None),
          CEv::Get(x) => (*x == *st).then_some(*st),
          CEv::Contains(b) => (*b == st.is_some()).then_some(*st),
          CEv::Clear => Some(None),
        };
        if let Some(n) = next {
          done[i] = true;
          if go(h, done, n, seen, lossy) {
            return true;
          }
          done[i] = false;
        }
      }
    }
    false
  }
  go(h, &mut vec![false; h.len()], None, &mut Default::default(), lossy)
}
/// P09: the sharded cache is a linearizable bounded map.
pub fn clockcache(seed: u64) {
  let mut r = Rng::new(seed, 1);
  let nkeys = r.range(1, 8);
  let cfg_c = CacheConfig { max_entries: if r.chance(5) { 0 } else { r.logu(1, 24) as usize }, shard_count: r.below(5) as usize };
  let shards = cfg_c.shard_count.max(1);
  // can any shard overflow?
  let lossy = (cfg_c.max_entries / shards) < nkeys as usize;
  let nthreads = r.range(2, 4) as usize;
  let per = r.range(2, 14) as usize;
  let clears = r.chance(25);
  let mut cfg = swarm(seed, &mut r, 2000 * per as u64);
  cfg.rate(S_SPURIOUS, 5000).rate(S_STALL, 2000);
  cfg.apply();
  sample(format!("{cfg_c:?}, {nkeys} keys, {nthreads} threads x {per} operations, clears: {clears}"));
  let cache: Arc<ShardedCache<u64, u64>> = Arc::new(ShardedCache::new(cfg_c));
  let log: Arc<Mutex<Vec<(u64, CRec)>>> = Default::default();
  let gets = Arc::new(Mutex::new((0u64, 0u64)));
  active(true);
  budget(400_000_000);
  let hs: Vec<_> = (0..nthreads)
    .map(|t| {
      let (cache, log, gets) = (cache.clone(), log.clone(), gets.clone());
      let sd = r.next();
      spawn(move || {
        let mut r = Rng::new(sd, 2);
        let mut mine = vec![];
        let (mut ng, mut ni) = (0, 0);
        for k in 0..per {
          let key = r.below(nkeys);
          let what = r.below(100);
          if !op_enabled(t * 64 + k) {
            continue;
          }
          let val = ((t as u64) << 32) | (k as u64 + 1);
          let call = ticks();
          let ev = match what {
            0..=39 => {
              ni += 1;
              cache.insert(key, val);
              CEv::Insert(val)
            }
            40..=69 => {
              ng += 1;
              CEv::Get(cache.get(&key))
            }
            70..=79 => CEv::Contains(cache.contains(&key)),
            80..=89 => CEv::Remove(cache.remove(&key)),
            90..=94 => {
              let n = cache.len();
              check!(n <= cfg_c.max_entries, "over-capacity", "len {n} with {cfg_c:?}");
              continue;
            }
            95..=97 => {
              let e = cache.entries();
              let mut ks: Vec<_> = e.iter().map(|e| e.0).collect();
              ks.sort();
              ks.dedup();
              check!(ks.len() == e.len(), "duplicate-entry", "{e:?}");
              check!(e.len() <= cfg_c.max_entries, "over-capacity", "{} entries with {cfg_c:?}", e.len());
              continue;
            }
            _ => {
              if !clears {
                continue;
              }
              cache.clear();
              CEv::Clear
            }
          };
          let ret = ticks();
          if let CEv::Clear = ev {
            // shard by shard: per key it is atomic
            for kk in 0..nkeys {
              mine.push((kk, CRec { call, ret, ev: ev.clone() }));
            }
          } else {
            mine.push((key, CRec { call, ret, ev }));
          }
        }
        log.lock().unwrap().extend(mine);
        let mut g = gets.lock().unwrap();
        g.0 += ng;
        g.1 += ni;
      })
    })
    .collect();
  for h in hs {
    if h.join().is_err() {
      violation("panic", "a cache thread panicked");
    }
  }
  active(false);
  budget(0);
  let log = std::mem::take(&mut *log.lock().unwrap());
  let (ng, ni) = *gets.lock().unwrap();
  for k in 0..nkeys {
    let mut h: Vec<CRec> = log.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
    // what is there afterwards is part of the history
    h.push(CRec { call: u64::MAX - 1, ret: u64::MAX, ev: CEv::Contains(cache.contains(&k)) });
    if h.len() > 26 {
      probe("history_too_long");
      continue;
    }
    probe("histories_checked");
    check!(linear(&h, lossy || cfg_c.max_entries == 0), "not-linearizable", "{cfg_c:?} key {k}: {h:#?}");
  }
  let st = cache.stats();
  probe_n("evictions", st.evictions);
  if !clears {
    check!(st.hits + st.misses == ng, "stats-lost", "{st:?} after {ng} lookups");
    if cfg_c.max_entries >= shards {
      check!(st.insertions == ni, "stats-lost", "{st:?} after {ni} insertions");
    }
    check!(lossy || st.evictions == 0, "needless-eviction", "{st:?} with {cfg_c:?} and {nkeys} keys");
  }
  // alone, an inserted entry is there, and room is used
  if cfg_c.max_entries >= shards {
    cache.clear();
    check!(cache.len() == 0 && cache.entries().is_empty(), "clear-incomplete", "{} left", cache.len());
    let mut top = 0;
    for k in 0..40u64 {
      cache.insert(k + 100, k);
      check!(cache.get(&(k + 100)) == Some(k), "insert-lost", "key {k} right after its insertion, {cfg_c:?}");
      let n = cache.len();
      check!(n >= top && n <= cfg_c.max_entries, "over-capacity", "len went from {top} to {n}, {cfg_c:?}");
      top = n;
    }
    if shards == 1 {
      check!(top == cfg_c.max_entries.min(40), "room-unused", "{top} entries of {}", cfg_c.max_entries);
    }
    let e = cache.entries();
    for (k, v) in &e {
      check!(*k == v + 100, "wrong-value", "{k} -> {v}");
      check!(cache.remove(k) == Some(*v) && !cache.contains(k) && cache.get(k).is_none(), "remove-incomplete", "{k}");
    }
    check!(cache.len() == 0, "remove-incomplete", "{} left", cache.len());
  } else if cfg_c.max_entries == 0 {
    check!(cache.len() == 0 && cache.get(&0).is_none(), "disabled-cache-stores", "{}", cache.len());
  }
  ok()
}
