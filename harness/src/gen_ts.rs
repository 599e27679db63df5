//! Seeded generator of multi-file TypeScript programs: cyclic imports, inferred
//! return types that depend on other files, generics, overloads, merging,
//! narrowing, and deliberate type errors.
use crate::sim::Rng;

pub const MINI_LIB: &str = r#"
interface Object { toString(): string; }
interface Function { apply(this: Function, thisArg: any, argArray?: any): any; call(this: Function, thisArg: any, ...argArray: any[]): any; }
interface CallableFunction extends Function {}
interface NewableFunction extends Function {}
interface IArguments { length: number; }
interface String { length: number; charAt(pos: number): string; toUpperCase(): string; split(s: string): string[]; }
interface Number { toFixed(d?: number): string; }
interface Boolean { valueOf(): boolean; }
interface RegExp { test(s: string): boolean; }
interface Symbol { toString(): string; }
interface ReadonlyArray<T> { readonly length: number; readonly [n: number]: T; map<U>(f: (v: T, i: number) => U): U[]; }
interface Array<T> { length: number; [n: number]: T; push(...items: T[]): number; map<U>(f: (v: T, i: number) => U): U[]; filter(f: (v: T) => boolean): T[]; }
interface PromiseLike<T> { then<U>(f: (v: T) => U): PromiseLike<U>; }
interface Promise<T> { then<U>(f: (v: T) => U): Promise<U>; }
interface TemplateStringsArray extends ReadonlyArray<string> { readonly raw: readonly string[]; }
type Partial<T> = { [P in keyof T]?: T[P] };
type Required<T> = { [P in keyof T]-?: T[P] };
type Readonly<T> = { readonly [P in keyof T]: T[P] };
type Pick<T, K extends keyof T> = { [P in K]: T[P] };
type Record<K extends keyof any, T> = { [P in K]: T };
type Exclude<T, U> = T extends U ? never : T;
type Extract<T, U> = T extends U ? T : never;
type NonNullable<T> = T & {};
type ReturnType<T extends (...args: any) => any> = T extends (...args: any) => infer R ? R : any;
"#;

#[derive(Clone, Debug)]
pub struct Prog {
  pub files: Vec<(String, String)>,
  pub roots: Vec<String>,
}

#[derive(Clone, Copy, PartialEq)]
enum K {
  Iface,
  Alias,
  Class,
  Func,
  Val,
  Enum,
}

struct Item {
  file: usize,
  name: String,
  kind: K,
}

const PRIMS: &[&str] = &["number", "string", "boolean", "unknown", "null", "undefined", "\"lit\"", "42", "true", "any", "never", "void"];

pub struct Gen<'a> {
  r: &'a mut Rng,
  items: Vec<Item>,
  nfiles: usize,
  n: usize,
  /// Well-founded programs: every item depends only on earlier items. The items
  /// of one file are spread over the order, so files still import each other in
  /// cycles; only recursive *types* are left out (DESIGN.md, known finding).
  dag: bool,
  cur: usize,
  pure_ty: bool,
  /// Every exported declaration carries full type annotations.
  full: bool,
  /// Which of EXTRA exist.
  extra: [bool; 3],
}

/// Declaration files and an `export =` module beside the ordinary modules.
pub const EXTRA: [&str; 3] = ["amb.d.ts", "pkg/index.d.ts", "eq.ts"];

impl<'a> Gen<'a> {
  fn prim(&mut self) -> String {
    self.r.pick(PRIMS).to_string()
  }
  fn refs(&mut self, file: usize, want: &[K], used: &mut Vec<usize>) -> Option<String> {
    let end = if self.dag { self.cur.min(self.items.len()) } else { self.items.len() };
    let c: Vec<usize> = (0..end).filter(|i| want.contains(&self.items[*i].kind)).collect();
    if c.is_empty() {
      return None;
    }
    let i = *self.r.pick(&c);
    if self.items[i].file != file {
      used.push(i);
    }
    Some(self.items[i].name.clone())
  }
  fn plain(&mut self, file: usize, used: &mut Vec<usize>) -> Option<String> {
    self.refs(file, &[K::Iface, K::Alias, K::Class, K::Enum], used)
  }
  fn ty(&mut self, file: usize, depth: u32, used: &mut Vec<usize>) -> String {
    if depth == 0 || self.r.chance(35) {
      return self.prim();
    }
    match self.r.below(14) {
      0 | 1 | 2 => self.plain(file, used).unwrap_or_else(|| "number".into()),
      11 | 12 if self.pure_ty => self.prim(),
      3 => format!("{} | {}", self.ty(file, depth - 1, used), self.ty(file, depth - 1, used)),
      4 => format!("{{ a: {}; b?: {} }}", self.ty(file, depth - 1, used), self.ty(file, depth - 1, used)),
      5 => format!("({})[]", self.ty(file, depth - 1, used)),
      6 => format!("[{}, {}]", self.ty(file, depth - 1, used), self.ty(file, depth - 1, used)),
      7 => format!("(x: {}) => {}", self.ty(file, depth - 1, used), self.ty(file, depth - 1, used)),
      8 => match self.refs(file, &[K::Iface, K::Class], used) {
        Some(n) => format!("Partial<{n}>"),
        None => "string".into(),
      },
      9 => match self.refs(file, &[K::Iface, K::Class], used) {
        Some(n) => format!("keyof {n}"),
        None => "string".into(),
      },
      10 => match self.refs(file, &[K::Iface, K::Class], used) {
        Some(n) => format!("{n}[\"a\"]"),
        None => "string".into(),
      },
      11 => match self.refs(file, &[K::Func], used) {
        Some(n) => format!("ReturnType<typeof {n}>"),
        None => "string".into(),
      },
      12 => match self.refs(file, &[K::Val, K::Func], used) {
        Some(n) => format!("typeof {n}"),
        None => "number".into(),
      },
      _ => format!("{} & {{ c: {} }}", self.refs(file, &[K::Iface], used).unwrap_or_else(|| "{ a: number }".into()), self.prim()),
    }
  }
  fn lit(&mut self) -> String {
    match self.r.below(8) {
      0 => format!("{}", self.r.below(100)),
      1 => format!("\"s{}\"", self.r.below(9)),
      2 => "true".into(),
      3 => "null".into(),
      4 => "undefined".into(),
      5 => "[1, \"two\"]".into(),
      6 => format!("{{ a: {}, b: \"x\" }}", self.r.below(9)),
      _ => "`t${1}`".into(),
    }
  }
  fn expr(&mut self, file: usize, depth: u32, locals: &[&str], used: &mut Vec<usize>) -> String {
    if depth == 0 {
      return if !locals.is_empty() && self.r.chance(60) { self.r.pick(locals).to_string() } else { self.lit() };
    }
    match self.r.below(13) {
      0 => self.lit(),
      1 => {
        if locals.is_empty() { self.lit() } else { self.r.pick(locals).to_string() }
      }
      2 | 3 => match self.refs(file, &[K::Func], used) {
        Some(n) => format!("{n}({}, {})", self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used)),
        None => self.lit(),
      },
      4 => self.refs(file, &[K::Val], used).unwrap_or_else(|| self.lit()),
      5 => format!("({} + {})", self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used)),
      6 => format!("({} ? {} : {})", self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used)),
      7 => match self.refs(file, &[K::Class], used) {
        Some(n) => format!("new {n}({})", self.expr(file, depth - 1, locals, used)),
        None => self.lit(),
      },
      8 => format!("{{ a: {}, b: {} }}", self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used)),
      9 => format!("[{}, {}]", self.expr(file, depth - 1, locals, used), self.expr(file, depth - 1, locals, used)),
      10 => format!("((p: {}) => {})", self.prim(), self.expr(file, depth - 1, &["p"], used)),
      11 => match self.refs(file, &[K::Val, K::Enum], used) {
        Some(n) => format!("{n}.a"),
        None => self.lit(),
      },
      _ => format!("({} as {})", self.expr(file, depth - 1, locals, used), self.ty(file, 1, used)),
    }
  }
  fn ann(&mut self, file: usize, pct: u64, used: &mut Vec<usize>) -> String {
    if self.full || self.r.chance(pct) { format!(": {}", self.ty(file, 2, used)) } else { String::new() }
  }
  fn body(&mut self, file: usize, used: &mut Vec<usize>) -> String {
    let mut s = String::new();
    for i in 0..self.r.below(3) {
      match self.r.below(6) {
        0 => s.push_str(&format!("  const l{i}{} = {};\n", self.ann(file, 40, used), self.expr(file, 2, &["x", "y"], used))),
        1 => s.push_str(&format!("  if (typeof x === \"string\") {{ return {}; }}\n", self.expr(file, 1, &["x", "y"], used))),
        2 => s.push_str(&format!("  for (let i = 0; i < 3; i++) {{ let q = {}; }}\n", self.expr(file, 1, &["x", "i"], used))),
        3 => s.push_str(&format!("  switch (y) {{ case 1: return {}; default: break; }}\n", self.expr(file, 1, &["x", "y"], used))),
        4 => s.push_str(&format!("  const g{i} = (z: {}) => {};\n", self.ty(file, 1, used), self.expr(file, 2, &["x", "z"], used))),
        _ => s.push_str(&format!("  while (x) {{ x = {}; break; }}\n", self.expr(file, 1, &["y"], used))),
      }
    }
    if self.r.chance(85) {
      s.push_str(&format!("  return {};\n", self.expr(file, 2, &["x", "y"], used)));
    }
    s
  }
  fn item(&mut self, idx: usize, used: &mut Vec<usize>) -> String {
    let (file, name, kind) = (self.items[idx].file, self.items[idx].name.clone(), self.items[idx].kind);
    self.cur = idx;
    self.pure_ty = self.dag && matches!(kind, K::Iface | K::Alias);
    match kind {
      K::Iface => {
        let ext = if self.r.chance(25) {
          // only earlier interfaces: cyclic extends is a separate, rarer case
          let c: Vec<usize> = (0..idx).filter(|i| self.items[*i].kind == K::Iface).collect();
          if c.is_empty() { String::new() } else {
            let i = *self.r.pick(&c);
            if self.items[i].file != file { used.push(i); }
            format!(" extends {}", self.items[i].name)
          }
        } else { String::new() };
        let mut s = format!("export interface {name}{ext} {{\n  a: {};\n  b?: {};\n  m(x: {}): {};\n}}\n", self.ty(file, 2, used), self.ty(file, 1, used), self.ty(file, 1, used), self.ty(file, 2, used));
        if self.r.chance(15) {
          s.push_str(&format!("export interface {name} {{ extra{}: {}; }}\n", idx, self.ty(file, 1, used)));
        }
        s
      }
      K::Alias => match self.r.below(4) {
        0 => format!("export type {name} = {};\n", self.ty(file, 3, used)),
        1 => format!("export type {name}<T = {}> = T extends string ? {} : {{ v: T }};\n", self.prim(), self.ty(file, 2, used)),
        2 => {
          let n = self.refs(file, &[K::Iface], used).unwrap_or_else(|| "{ a: 1; b: 2 }".into());
          format!("export type {name} = {{ readonly [P in keyof {n}]?: {n}[P] | {} }};\n", self.prim())
        }
        _ => format!("export type {name} = {{ kind: \"a\"; v: {} }} | {{ kind: \"b\"; w: {} }};\n", self.ty(file, 2, used), self.ty(file, 2, used)),
      },
      K::Class => {
        let ext = if self.r.chance(30) {
          let c: Vec<usize> = (0..idx).filter(|i| self.items[*i].kind == K::Class).collect();
          if c.is_empty() { String::new() } else {
            let i = *self.r.pick(&c);
            if self.items[i].file != file { used.push(i); }
            format!(" extends {}", self.items[i].name)
          }
        } else { String::new() };
        let sup = if ext.is_empty() { "" } else { "super(p); " };
        format!(
          "export class {name}{ext} {{\n  a{} = {};\n  private hid = {};\n  static st = {};\n  constructor(p: {}) {{ {sup}this.a = p as any; }}\n  m(x{}, y: number){} {{\n{}  }}\n}}\n",
          self.ann(file, 50, used), self.expr(file, 1, &[], used), self.lit(), self.lit(), self.ty(file, 1, used), self.ann(file, 70, used), self.ann(file, 0, used), self.body(file, used)
        )
      }
      K::Func => {
        let (ax, ay, ar) = (self.ann(file, 80, used), self.ann(file, 80, used), self.ann(file, 45, used));
        match self.r.below(6) {
          0 => format!("export const {name} = (x{ax}, y{ay}){ar} => {};\n", self.expr(file, 3, &["x", "y"], used)),
          1 => format!("export function {name}<T extends {}>(x: T, y{ay}){} {{\n{}}}\n", self.ty(file, 1, used), self.ann(file, 0, used), self.body(file, used)),
          2 => format!(
            "export function {name}(x: string, y: number): {};\nexport function {name}(x: number, y: string): {};\nexport function {name}(x: any, y: any): any {{\n{}}}\n",
            self.ty(file, 1, used), self.ty(file, 1, used), self.body(file, used)
          ),
          _ => format!("export function {name}(x{ax}, y{ay}){ar} {{\n{}}}\n", self.body(file, used)),
        }
      }
      K::Val => {
        let kw = *self.r.pick(&["const", "const", "let"]);
        format!("export {kw} {name}{} = {};\n", self.ann(file, 40, used), self.expr(file, 3, &[], used))
      }
      K::Enum => format!("export enum {name} {{ a, b = 5, c = \"cc\" }}\n"),
    }
  }
  fn render_file(&mut self, file: usize) -> String {
    let mut used = vec![];
    let mut out = String::new();
    let mine: Vec<usize> = (0..self.items.len()).filter(|i| self.items[*i].file == file).collect();
    for i in mine {
      out.push_str(&self.item(i, &mut used));
    }
    self.cur = usize::MAX;
    self.pure_ty = false;
    if self.r.chance(30) {
      let (n, a, e) = (self.n, self.ann(file, 70, &mut used), self.expr(file, 2, &[], &mut used));
      out.push_str(&format!("const s{file}_{n}{a} = {e};\n"));
      self.n += 1;
    }
    if self.nfiles > 1 && self.r.chance(25) {
      let o = self.r.below(self.nfiles as u64) as usize;
      if o != file {
        out.push_str(&format!("export * from \"./m{o}\";\n"));
      }
    }
    if self.nfiles > 1 && self.r.chance(20) {
      let o = self.r.below(self.nfiles as u64) as usize;
      if o != file {
        out.push_str(&format!("import * as ns{o} from \"./m{o}\";\nexport const viaNs{file} = ns{o};\n"));
      }
    }
    if self.r.chance(5) {
      out.push_str("import { missing } from \"./nowhere\";\nexport const useMissing = missing;\n");
    }
    if self.r.chance(12) {
      out.push_str(&format!("namespace NS{file} {{ export const inner = {}; export interface T {{ q: number }} }}\nexport const fromNs{file}: NS{file}.T = {{ q: NS{file}.inner }};\n", self.lit()));
    }
    // one name in several declaration spaces
    if self.r.chance(25) {
      let (p, q) = (self.prim(), self.lit());
      let t = match self.r.below(5) {
        0 => format!("export interface D{file} {{ p: {p} }}\nexport const D{file} = {{ p: {q} }};\n"),
        1 => format!("export type D{file} = {p};\nexport function D{file}(x: D{file}) {{ return x; }}\n"),
        2 => format!("export function D{file}(x: {p}): number {{ return 1; }}\nexport namespace D{file} {{ export const k = {q}; }}\n"),
        3 => format!("interface D{file} {{ p: {p} }}\nexport class D{file} {{ q = {q}; }}\n"),
        _ => format!("type D{file} = {p};\nconst D{file}: D{file} = {q};\nexport {{ D{file} }};\n"),
      };
      out.push_str(&t);
    }
    let lead = self.other_forms(file, &mut out);
    used.sort();
    used.dedup();
    let mut head = lead;
    for i in used {
      let it = &self.items[i];
      let ty_only = matches!(it.kind, K::Iface | K::Alias) && self.r.chance(30);
      head.push_str(&format!("import {}{{ {} }} from \"./m{}\";\n", if ty_only { "type " } else { "" }, self.items[i].name, self.items[i].file));
    }
    head + &out
  }
}

impl Gen<'_> {
  /// A type that refers to nothing.
  fn leaf(&mut self) -> String {
    match self.r.below(4) {
      0 => format!("{} | {}", self.prim(), self.prim()),
      1 => format!("{{ l: {} }}", self.prim()),
      _ => self.prim(),
    }
  }
  fn render_extra(&mut self, e: usize) -> String {
    match e {
      0 => {
        let mut s = String::new();
        if self.r.chance(85) {
          s += &format!("declare const G0: {};\n", self.leaf());
        }
        if self.r.chance(85) {
          s += &format!("declare function gf(x: {}): {};\n", self.leaf(), self.leaf());
        }
        if self.r.chance(85) {
          s += &format!("interface GI {{ a: {}; b?: {} }}\n", self.leaf(), self.leaf());
        }
        if self.r.chance(70) {
          s += &format!("declare module \"ext\" {{\n  export const e0: {};\n  export interface EI {{ q: {} }}\n  export default function d(x: {}): {};\n}}\n", self.leaf(), self.leaf(), self.leaf(), self.leaf());
        }
        if self.r.chance(70) {
          s += &format!("declare namespace GN {{ const k: {}; interface T {{ z: {} }} }}\n", self.leaf(), self.leaf());
        }
        if self.extra[1] && self.r.chance(20) {
          s = format!("/// <reference types=\"pkg\" />\n{s}");
        }
        s
      }
      1 => {
        let mut s = format!("export declare const pk: {};\nexport interface PI {{ x: {} }}\n", self.leaf(), self.leaf());
        if self.r.chance(60) {
          s += &format!("declare global {{ interface GI {{ fromPkg: {} }} const PG: {}; }}\n", self.leaf(), self.leaf());
        }
        if self.r.chance(30) {
          s += &format!("export default function pd(x: {}): {};\n", self.leaf(), self.leaf());
        }
        s
      }
      _ => match self.r.below(3) {
        0 => format!("const whole = {{ a: {}, n: {} }};\nexport = whole;\n", self.lit(), self.r.below(9)),
        1 => format!("function whole(x: {}): {} {{ return x as any; }}\nnamespace whole {{ export interface W {{ w: {} }} }}\nexport = whole;\n", self.leaf(), self.leaf(), self.leaf()),
        _ => format!("class whole {{ a = {}; }}\nexport = whole;\n", self.lit()),
      },
    }
  }
  /// Uses of the extra files and further forms of import and export. Returns
  /// what has to come first in the file.
  fn other_forms(&mut self, file: usize, out: &mut String) -> String {
    let mut head = String::new();
    let mut refs = String::new();
    if self.extra == [false; 3] {
      return head;
    }
    if self.extra[0] {
      if self.r.chance(25) {
        refs += "/// <reference path=\"./amb.d.ts\" />\n";
      }
      if self.r.chance(35) {
        let t = match self.r.below(5) {
          0 => format!("export const useG{file} = G0;\n"),
          1 => format!("export const useF{file} = gf({});\n", self.lit()),
          2 => format!("export const useI{file} = (p: GI) => p.a;\n"),
          3 => format!("export const useN{file}: GN.T = {{ z: GN.k }};\n"),
          _ => format!("export function takes{file}(g: GI, k: typeof G0) {{ return [g.b, k]; }}\n"),
        };
        out.push_str(&t);
      }
      if self.r.chance(30) {
        head += "import ext0, { e0, type EI } from \"ext\";\n";
        out.push_str(&format!("export const useE{file} = [e0, ext0({})];\nexport let ei{file}: EI;\n", self.lit()));
      }
    }
    if self.extra[1] {
      if self.r.chance(15) {
        refs += "/// <reference types=\"pkg\" />\n";
      }
      if self.r.chance(30) {
        head += "import { pk, PI } from \"pkg\";\n";
        out.push_str(&format!("export const useP{file}: PI = {{ x: pk }};\n"));
      }
      if self.r.chance(15) {
        out.push_str(&format!("export const usePG{file} = PG;\n"));
      }
    }
    if self.extra[2] && self.r.chance(30) {
      head += &format!("import eq{file} = require(\"./eq\");\n");
      out.push_str(&format!("export const useEq{file} = eq{file};\n"));
    }
    if self.r.chance(12) {
      out.push_str(&match self.r.below(3) {
        0 => format!("export default function (x: number) {{ return {}; }}\n", self.lit()),
        1 => format!("export default {};\n", self.lit()),
        _ => format!("export default class DC{file} {{ q = {}; }}\n", self.lit()),
      });
    }
    if self.nfiles > 1 {
      let o = self.r.below(self.nfiles as u64) as usize;
      if o != file && self.r.chance(15) {
        head += &format!("import def{o} from \"./m{o}\";\n");
        out.push_str(&format!("export const viaDef{file} = def{o};\n"));
      }
      let theirs: Vec<usize> = (0..self.items.len()).filter(|i| self.items[*i].file == o).collect();
      if o != file && !theirs.is_empty() {
        let i = *self.r.pick(&theirs);
        let (n, k) = (self.items[i].name.clone(), self.items[i].kind);
        if self.r.chance(15) {
          out.push_str(&format!("export {{ {n} as re{file}_{n} }} from \"./m{o}\";\n"));
        }
        if self.r.chance(8) {
          out.push_str(&format!("export * as star{file} from \"./m{o}\";\n"));
        }
        if matches!(k, K::Iface | K::Class) && self.r.chance(20) {
          out.push_str(&format!("export let it{file}: import(\"./m{o}\").{n};\n"));
        }
        if k == K::Iface && self.r.chance(20) {
          out.push_str(&format!("declare module \"./m{o}\" {{ interface {n} {{ aug{file}: {} }} }}\n", self.prim()));
        }
      }
    }
    if self.r.chance(8) {
      out.push_str(&format!("declare global {{ interface GI {{ m{file}: {} }} var gv{file}: {}; }}\n", self.prim(), self.prim()));
      if self.r.chance(50) {
        out.push_str(&format!("export const useGv{file} = gv{file};\n"));
      }
    }
    refs + &head
  }
}

/// The owning file of every item, in dependency order.
fn owners(r: &mut Rng, nfiles: usize, max_items: u64, spread: u64) -> Vec<usize> {
  let mut o = vec![];
  for f in 0..nfiles {
    for _ in 0..r.range(1, max_items) {
      o.push(f);
    }
  }
  if r.chance(spread) {
    r.shuffle(&mut o);
  }
  o
}

/// Files import each other in cycles; no recursive types.
pub fn program(r: &mut Rng, max_files: u64, max_items: u64) -> Prog {
  program_with(r, max_files, max_items, 60, false)
}
/// Like `program`, but a file imports declarations of earlier files only.
pub fn layered(r: &mut Rng, max_files: u64, max_items: u64) -> Prog {
  program_with(r, max_files, max_items, 0, false)
}
/// Like `layered`, with every exported signature annotated.
pub fn annotated(r: &mut Rng, max_files: u64, max_items: u64) -> Prog {
  program_with(r, max_files, max_items, 0, true)
}
fn program_with(r: &mut Rng, max_files: u64, max_items: u64, spread: u64, full: bool) -> Prog {
  let nfiles = r.range(1, max_files) as usize;
  let extra = extras(r);
  let max_items = if extra == [false; 3] { max_items } else { (max_items * 2 / 3).max(2) };
  let mut g = Gen { r, items: vec![], nfiles, n: 0, dag: true, cur: 0, pure_ty: false, full, extra };
  for f in owners(g.r, nfiles, max_items, spread) {
    {
      let kind = *g.r.pick(&[K::Iface, K::Alias, K::Class, K::Func, K::Func, K::Func, K::Val, K::Val, K::Enum]);
      let i = g.items.len();
      let name = match kind {
        K::Iface => format!("I{i}"),
        K::Alias => format!("A{i}"),
        K::Class => format!("C{i}"),
        K::Func => format!("f{i}"),
        K::Val => format!("v{i}"),
        K::Enum => format!("E{i}"),
      };
      g.items.push(Item { file: f, name, kind });
    }
  }
  let mut files: Vec<(String, String)> = (0..nfiles).map(|f| (format!("m{f}.ts"), g.render_file(f))).collect();
  for e in (0..3).filter(|e| extra[*e]) {
    files.push((EXTRA[e].into(), g.render_extra(e)));
  }
  let mut roots = if g.r.chance(50) { (0..nfiles).map(|f| format!("m{f}.ts")).collect() } else { vec!["m0.ts".to_string()] };
  if extra[0] && g.r.chance(60) {
    roots.push(EXTRA[0].into());
  }
  Prog { files, roots }
}

fn extras(r: &mut Rng) -> [bool; 3] {
  if r.chance(40) { [r.chance(60), r.chance(50), r.chance(40)] } else { [false; 3] }
}

/// Another rendering of one file: same item names (mostly), different bodies and types.
pub fn variants(r: &mut Rng, max_files: u64, max_items: u64, nvar: usize) -> (Prog, Vec<Vec<String>>) {
  let nfiles = r.range(1, max_files) as usize;
  let extra = extras(r);
  let max_items = if extra == [false; 3] { max_items } else { (max_items * 2 / 3).max(2) };
  let mut g = Gen { r, items: vec![], nfiles, n: 0, dag: true, cur: 0, pure_ty: false, full: false, extra };
  for f in owners(g.r, nfiles, max_items, 60) {
    {
      let kind = *g.r.pick(&[K::Iface, K::Alias, K::Class, K::Func, K::Func, K::Val, K::Val, K::Enum]);
      let i = g.items.len();
      let p = match kind { K::Iface => "I", K::Alias => "A", K::Class => "C", K::Func => "f", K::Val => "v", K::Enum => "E" };
      g.items.push(Item { file: f, name: format!("{p}{i}"), kind });
    }
  }
  let mut vars = vec![];
  for f in 0..nfiles {
    let mut v = vec![];
    for k in 0..nvar {
      let mut t = g.render_file(f);
      if k > 0 && g.r.chance(12) {
        // drop an item, or break the syntax
        if g.r.chance(50) {
          let cut = t.find("export ").unwrap_or(0);
          t.truncate(cut.max(t.len() / 2));
          while !t.is_char_boundary(t.len()) { t.pop(); }
        } else {
          t.push_str("export const = ;\n");
        }
      }
      v.push(t);
    }
    vars.push(v);
  }
  if g.r.chance(45) {
    // named types that stay while what they stand for changes
    for t in vars[0].iter_mut() {
      let ty = *g.r.pick(&["string", "number", "string | number"]);
      t.push_str(&format!("export interface FlipA {{ f: {ty} }}\n"));
    }
    let u = nfiles - 1;
    let import = if u == 0 { "" } else { "import type { FlipA } from \"./m0\";\n" };
    for t in vars[u].iter_mut() {
      t.push_str(import);
      t.push_str("interface FixA { f: string }\ndeclare const fixA: FixA;\nexport const flipUse: FlipA = fixA;\nexport const flipBack = (p: FlipA): FixA => p;\nexport type FlipC = FlipA extends FixA ? 1 : 2;\nexport const flipC: FlipC = 1;\n");
    }
  }
  let mut files: Vec<(String, String)> = (0..nfiles).map(|f| (format!("m{f}.ts"), vars[f][0].clone())).collect();
  for e in (0..3).filter(|e| extra[*e]) {
    let v: Vec<String> = (0..nvar).map(|_| g.render_extra(e)).collect();
    files.push((EXTRA[e].into(), v[0].clone()));
    vars.push(v);
  }
  let mut roots = if g.r.chance(50) { (0..nfiles).map(|f| format!("m{f}.ts")).collect() } else { vec!["m0.ts".to_string()] };
  if extra[0] && g.r.chance(60) {
    roots.push(EXTRA[0].into());
  }
  (Prog { files, roots }, vars)
}
