//! LLVM textual IR -> flat register code.
//!
//! Every SSA value is flattened into scalar slots (aggregates and vectors leaf
//! by leaf; i128 as two 64-bit slots).  Operands are either a frame slot or,
//! with the top bit set, an index into the function's constant pool.

use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const CBIT: u32 = 0x8000_0000;
pub const FUNC_BASE: u64 = 1 << 40;
pub const GLOBAL_BASE: u64 = 0x10000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Void,
  Int(u32),
  Ptr,
  Float(u32),
  Arr(u64, Rc<Ty>),
  Vec(u64, Rc<Ty>),
  Struct(Vec<Rc<Ty>>, bool),
  Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Leaf {
  pub off: u32,
  pub bits: u8,
}

impl Ty {
  pub fn align(&self) -> u64 {
    match self {
      Ty::Int(n) => {
        if *n <= 8 {
          1
        } else if *n <= 16 {
          2
        } else if *n <= 32 {
          4
        } else if *n <= 64 {
          8
        } else {
          16
        }
      }
      Ty::Ptr => 8,
      Ty::Float(n) => *n as u64 / 8,
      Ty::Arr(_, t) => t.align(),
      Ty::Vec(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
      Ty::Struct(ts, packed) => {
        if *packed {
          1
        } else {
          ts.iter().map(|t| t.align()).max().unwrap_or(1)
        }
      }
      _ => 1,
    }
  }
  pub fn bits(&self) -> u64 {
    match self {
      Ty::Int(n) => *n as u64,
      Ty::Ptr => 64,
      Ty::Float(n) => *n as u64,
      _ => self.size() * 8,
    }
  }
  pub fn size(&self) -> u64 {
    match self {
      Ty::Int(n) => {
        let b = (*n as u64 + 7) / 8;
        if *n > 64 {
          16
        } else {
          b
        }
      }
      Ty::Ptr => 8,
      Ty::Float(n) => *n as u64 / 8,
      Ty::Arr(n, t) => n * t.alloc_size(),
      Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
      Ty::Struct(ts, packed) => {
        let mut o = 0;
        for t in ts {
          if !packed {
            o = align_up(o, t.align());
          }
          o += t.alloc_size();
        }
        if !packed {
          o = align_up(o, self.align());
        }
        o
      }
      _ => 0,
    }
  }
  pub fn alloc_size(&self) -> u64 {
    align_up(self.size(), self.align())
  }
  pub fn field_off(&self, i: u64) -> u64 {
    match self {
      Ty::Struct(ts, packed) => {
        let mut o = 0;
        for (j, t) in ts.iter().enumerate() {
          if !packed {
            o = align_up(o, t.align());
          }
          if j as u64 == i {
            return o;
          }
          o += t.alloc_size();
        }
        panic!("field_off")
      }
      Ty::Arr(_, t) => i * t.alloc_size(),
      Ty::Vec(_, t) => i * t.bits() / 8,
      _ => panic!("field_off of scalar"),
    }
  }
  pub fn leaves(&self) -> Vec<Leaf> {
    let mut v = Vec::new();
    self.leaves_at(0, &mut v);
    v
  }
  fn leaves_at(&self, off: u64, v: &mut Vec<Leaf>) {
    match self {
      Ty::Int(n) if *n <= 64 => v.push(Leaf { off: off as u32, bits: *n as u8 }),
      Ty::Int(_) => {
        v.push(Leaf { off: off as u32, bits: 64 });
        v.push(Leaf { off: off as u32 + 8, bits: 64 });
      }
      Ty::Ptr => v.push(Leaf { off: off as u32, bits: 64 }),
      Ty::Float(n) => v.push(Leaf { off: off as u32, bits: *n as u8 }),
      Ty::Arr(n, t) | Ty::Vec(n, t) => {
        for i in 0..*n {
          t.leaves_at(off + self.field_off(i), v)
        }
      }
      Ty::Struct(ts, _) => {
        for (i, t) in ts.iter().enumerate() {
          t.leaves_at(off + self.field_off(i as u64), v)
        }
      }
      _ => {}
    }
  }
  pub fn nleaves(&self) -> usize {
    match self {
      Ty::Int(n) => {
        if *n <= 64 {
          1
        } else {
          2
        }
      }
      Ty::Ptr | Ty::Float(_) => 1,
      Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nleaves(),
      Ty::Struct(ts, _) => ts.iter().map(|t| t.nleaves()).sum(),
      _ => 0,
    }
  }
  fn elem(&self, i: u64) -> Rc<Ty> {
    match self {
      Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
      Ty::Struct(ts, _) => ts[i as usize].clone(),
      _ => panic!("elem of scalar"),
    }
  }
  /// (first leaf, type) of the sub-value at an index path.
  fn sub(self: &Rc<Ty>, path: &[u64]) -> (usize, Rc<Ty>) {
    let mut t = self.clone();
    let mut off = 0;
    for &i in path {
      match &*t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => off += i as usize * e.nleaves(),
        Ty::Struct(ts, _) => off += ts[..i as usize].iter().map(|t| t.nleaves()).sum::<usize>(),
        _ => panic!("sub"),
      }
      let e = t.elem(i);
      t = e;
    }
    (off, t)
  }
}

pub fn align_up(x: u64, a: u64) -> u64 {
  (x + a - 1) / a * a
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
  Id(&'a str),
  Loc(&'a str),
  Glob(&'a str),
  Meta(&'a str),
  Attr(&'a str),
  Int(i128),
  Str(Vec<u8>),
  P(u8),
}

fn lex<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
  let b = s.as_bytes();
  let mut i = 0;
  let idch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
  while i < b.len() {
    let c = b[i];
    match c {
      b' ' | b'\t' | b'\r' | b'\n' => i += 1,
      b';' => {
        while i < b.len() && b[i] != b'\n' {
          i += 1
        }
      }
      b'%' | b'@' => {
        let st;
        let en;
        if b.get(i + 1) == Some(&b'"') {
          st = i + 2;
          i += 2;
          while b[i] != b'"' {
            i += 1
          }
          en = i;
          i += 1;
        } else {
          st = i + 1;
          i += 1;
          while i < b.len() && idch(b[i]) {
            i += 1
          }
          en = i;
        }
        out.push(if c == b'%' { Tok::Loc(&s[st..en]) } else { Tok::Glob(&s[st..en]) });
      }
      b'!' => {
        let st = i + 1;
        i += 1;
        while i < b.len() && idch(b[i]) {
          i += 1
        }
        out.push(Tok::Meta(&s[st..i]));
      }
      b'#' => {
        let st = i + 1;
        i += 1;
        while i < b.len() && idch(b[i]) {
          i += 1
        }
        out.push(Tok::Attr(&s[st..i]));
      }
      b'"' => {
        let (v, n) = lex_str(&b[i..]);
        out.push(Tok::Str(v));
        i += n;
      }
      b'c' if b.get(i + 1) == Some(&b'"') => {
        let (v, n) = lex_str(&b[i + 1..]);
        out.push(Tok::Str(v));
        i += n + 1;
      }
      b'0'..=b'9' | b'-' => {
        let st = i;
        i += 1;
        while i < b.len() && (idch(b[i]) || b[i] == b'+') {
          i += 1
        }
        let t = &s[st..i];
        match t.parse::<i128>() {
          Ok(v) => out.push(Tok::Int(v)),
          Err(_) => out.push(Tok::Id(t)),
        }
      }
      _ if idch(c) => {
        let st = i;
        while i < b.len() && idch(b[i]) {
          i += 1
        }
        out.push(Tok::Id(&s[st..i]));
      }
      _ => {
        out.push(Tok::P(c));
        i += 1;
      }
    }
  }
}

fn lex_str(b: &[u8]) -> (Vec<u8>, usize) {
  let mut v = Vec::new();
  let mut i = 1;
  while b[i] != b'"' {
    if b[i] == b'\\' {
      if b[i + 1] == b'\\' {
        v.push(b'\\');
        i += 2;
      } else {
        let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
        v.push(u8::from_str_radix(h, 16).unwrap());
        i += 3;
      }
    } else {
      v.push(b[i]);
      i += 1;
    }
  }
  (v, i + 1)
}

#[derive(Clone, Copy, Debug)]
pub struct Edge {
  pub pc: u32,
  pub mv: u32,
  pub n: u32,
  pub blk: u32,
}

#[derive(Debug)]
pub struct SwitchOp {
  pub v: u32,
  pub w: u8,
  pub cases: Vec<(u64, u32)>,
  pub default: u32,
  /// case value -> edge, for many cases
  pub map: HashMap<u64, u32>,
}

#[derive(Debug)]
pub struct CallOp {
  pub target: Target,
  pub args: Vec<u32>,
  pub d: u32,
  pub nret: u32,
  /// widths of the scalar argument slots (for externals)
  pub aw: Vec<u8>,
}

#[derive(Debug, Clone)]
pub enum Target {
  Func(u32),
  Ext(Ext),
  Ptr(u32),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ext {
  Unknown(u32),
  SymRange,
  Assume,
  Fail,
  Cover,
  Concretize,
  Observe,
  ExpectPanic,
  Spawn,
  JoinAll,
  YieldPoint,
  IsSymx,
  Panic,
  Abort,
  Malloc,
  Calloc,
  Realloc,
  Free,
  PosixMemalign,
  Memcmp,
  Bcmp,
  Strlen,
  Syscall,
  Write,
  Zero,
  Errno,
  Getrandom,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum IK {
  Memcpy,
  Memset,
  Umin,
  Umax,
  Smin,
  Smax,
  Ucmp,
  Scmp,
  UaddSat,
  UsubSat,
  SaddSat,
  SsubSat,
  UaddO,
  UsubO,
  UmulO,
  SaddO,
  SsubO,
  SmulO,
  Ctlz,
  Cttz,
  Ctpop,
  Bswap,
  Bitrev,
  Fshl,
  Fshr,
  Abs,
}

#[derive(Debug)]
pub enum Op {
  Bin { op: u8, w: u8, d: u32, a: u32, b: u32 },
  /// predicates: 0 eq 1 ne 2 ult 3 ule 4 ugt 5 uge 6 slt 7 sle 8 sgt 9 sge
  Cmp { p: u8, w: u8, d: u32, a: u32, b: u32 },
  WideCmp { p: u8, d: u32, a: u32, b: u32 },
  WideBin { op: u8, d: u32, a: u32, b: u32 },
  Zext { w: u8, d: u32, a: u32 },
  Sext { fw: u8, w: u8, d: u32, a: u32 },
  Trunc { w: u8, d: u32, a: u32 },
  Select { n: u32, d: u32, c: u32, a: u32, b: u32, w: u8 },
  Copy { n: u32, d: u32, a: u32 },
  Load { d: u32, p: u32, bits: u8 },
  LoadN { d: u32, p: u32, leaves: Box<[Leaf]> },
  Store { v: u32, p: u32, bits: u8 },
  StoreN { v: u32, p: u32, leaves: Box<[Leaf]> },
  GepC { d: u32, p: u32, off: i64 },
  Gep1 { d: u32, p: u32, off: i64, i: u32, iw: u8, s: i64 },
  GepN { d: u32, p: u32, off: i64, terms: Box<[(u32, u8, i64)]> },
  Alloca { d: u32, size: u64, align: u32 },
  Br { e: u32 },
  CondBr { c: u32, t: u32, f: u32 },
  Switch(Box<SwitchOp>),
  Ret { n: u32, v: u32 },
  Call(Box<CallOp>),
  Intr { k: IK, w: u8, d: u32, a: u32, b: u32, c: u32 },
  AtomicRmw { op: u8, d: u32, p: u32, v: u32, bits: u8 },
  CmpXchg { d: u32, p: u32, c: u32, n: u32, bits: u8 },
  AtomicLoad { d: u32, p: u32, bits: u8 },
  AtomicStore { v: u32, p: u32, bits: u8 },
  TlsAddr { d: u32, p: u32 },
  BitcastVI { d: u32, a: u32, n: u32, ew: u8 },
  BitcastIV { d: u32, a: u32, n: u32, ew: u8 },
  Unreachable,
  Unsupported(Box<str>),
}

pub struct Func {
  pub name: String,
  pub param_slots: u32,
  pub nret: u32,
  pub nregs: u32,
  pub code: Vec<Op>,
  pub consts: Vec<u64>,
  pub edges: Vec<Edge>,
  pub moves: Vec<(u32, u32)>,
  pub entry_blk: u32,
  pub ext: Option<Ext>,
  pub defined: bool,
  pub dbg: u32,
}

pub struct Module {
  pub funcs: Vec<Func>,
  pub fn_by_name: HashMap<String, u32>,
  pub image: Vec<u8>, // from GLOBAL_BASE
  pub tls: (u64, u64),
  pub nblocks: u32,
  /// global block id -> (function, dbg ids)
  pub blk_dbg: Vec<(u32, Vec<u32>)>,
  pub dbg: Dbg,
  pub ext_names: Vec<String>,
  /// [start, end) of read-only globals
  pub const_end: u64,
}

#[derive(Default)]
pub struct Dbg {
  pub loc: HashMap<u32, (u32, u32, u32)>, // id -> (line, scope, inlinedAt)
  pub scope: HashMap<u32, (u32, u32)>,    // lexical block -> (parent scope, file)
  pub subp: HashMap<u32, (String, u32, u32)>, // id -> (name, file, line)
  pub file: HashMap<u32, String>,
}

impl Dbg {
  pub fn subprogram_of(&self, mut scope: u32) -> Option<&(String, u32, u32)> {
    for _ in 0..64 {
      if let Some(s) = self.subp.get(&scope) {
        return Some(s);
      }
      scope = self.scope.get(&scope)?.0;
    }
    None
  }
}

fn ext_of(name: &str) -> Option<Ext> {
  Some(match name {
    "symx_range" => Ext::SymRange,
    "symx_assume" => Ext::Assume,
    "symx_fail" => Ext::Fail,
    "symx_cover" => Ext::Cover,
    "symx_concretize" => Ext::Concretize,
    "symx_observe" => Ext::Observe,
    "symx_expect_panic" => Ext::ExpectPanic,
    "symx_spawn" => Ext::Spawn,
    "symx_join_all" => Ext::JoinAll,
    "symx_yield" => Ext::YieldPoint,
    "symx_is_symbolic" => Ext::IsSymx,
    "malloc" => Ext::Malloc,
    "calloc" => Ext::Calloc,
    "realloc" => Ext::Realloc,
    "free" => Ext::Free,
    "posix_memalign" => Ext::PosixMemalign,
    "memcmp" => Ext::Memcmp,
    "bcmp" => Ext::Bcmp,
    "strlen" => Ext::Strlen,
    "syscall" => Ext::Syscall,
    "write" | "writev" => Ext::Write,
    "getrandom" => Ext::Getrandom,
    "__errno_location" => Ext::Errno,
    "abort" | "exit" | "_exit" => Ext::Abort,
    "getenv" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_self"
    | "pthread_key_delete" | "sched_yield" | "gettid" => Ext::Zero,
    _ => {
      if name.ends_with("rust_begin_unwind")
        || name.ends_with("10rust_panic")
        || name.ends_with("panic_nounwind_fmt")
        || name.ends_with("___rust_alloc_error_handler")
        || name.contains("18handle_alloc_error")
      {
        Ext::Panic
      } else {
        return None;
      }
    }
  })
}

struct P<'a> {
  t: &'a [Tok<'a>],
  i: usize,
}

struct GEnv {
  globals: HashMap<String, u64>,
}

type R<T> = Result<T, String>;

const ATTR_STOP: &[&str] = &[
  "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "splat",
  "sub", "add", "trunc", "xor", "asm", "none", "mul", "bitcast", "addrspacecast", "ptrtoaddr",
];

impl<'a> P<'a> {
  fn new(t: &'a [Tok<'a>]) -> P<'a> {
    P { t, i: 0 }
  }
  fn peek(&self) -> Option<&'a Tok<'a>> {
    self.t.get(self.i)
  }
  fn next(&mut self) -> R<&'a Tok<'a>> {
    let r = self.t.get(self.i).ok_or("eol")?;
    self.i += 1;
    Ok(r)
  }
  fn eat(&mut self, c: u8) -> bool {
    if self.peek() == Some(&Tok::P(c)) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn want(&mut self, c: u8) -> R<()> {
    if self.eat(c) {
      Ok(())
    } else {
      Err(format!("expected {} got {:?}", c as char, self.peek()))
    }
  }
  fn eat_id(&mut self, s: &str) -> bool {
    if self.peek() == Some(&Tok::Id(s)) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn id(&mut self) -> R<&'a str> {
    match self.next()? {
      Tok::Id(s) => Ok(s),
      t => Err(format!("expected id got {:?}", t)),
    }
  }
  fn skip_parens(&mut self) -> R<()> {
    self.want(b'(')?;
    let mut d = 1;
    while d > 0 {
      match self.next()? {
        Tok::P(b'(') => d += 1,
        Tok::P(b')') => d -= 1,
        _ => {}
      }
    }
    Ok(())
  }
  fn is_ty(&self) -> bool {
    match self.peek() {
      Some(Tok::Id(s)) => {
        matches!(*s, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80")
          || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
      }
      Some(Tok::P(c)) => matches!(c, b'{' | b'[' | b'<'),
      _ => false,
    }
  }
  fn ty(&mut self) -> R<Rc<Ty>> {
    let t = match self.next()? {
      Tok::Id(s) => match *s {
        "void" => Ty::Void,
        "ptr" => {
          if self.eat_id("addrspace") {
            self.skip_parens()?;
          }
          Ty::Ptr
        }
        "float" => Ty::Float(32),
        "double" => Ty::Float(64),
        "half" => Ty::Float(16),
        "label" | "metadata" | "token" | "fp128" | "x86_fp80" => Ty::Other,
        _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {}", s))?),
        _ => return Err(format!("type {}", s)),
      },
      Tok::P(b'{') => self.struct_body(b'}', false)?,
      Tok::P(b'<') => {
        if self.eat(b'{') {
          let r = self.struct_body(b'}', true)?;
          self.want(b'>')?;
          r
        } else {
          let (n, e) = self.arr_body()?;
          self.want(b'>')?;
          Ty::Vec(n, e)
        }
      }
      Tok::P(b'[') => {
        let (n, e) = self.arr_body()?;
        self.want(b']')?;
        Ty::Arr(n, e)
      }
      t => return Err(format!("type tok {:?}", t)),
    };
    Ok(Rc::new(t))
  }
  fn struct_body(&mut self, end: u8, packed: bool) -> R<Ty> {
    let mut v = Vec::new();
    if self.eat(end) {
      return Ok(Ty::Struct(v, packed));
    }
    loop {
      v.push(self.ty()?);
      if self.eat(end) {
        break;
      }
      self.want(b',')?;
    }
    Ok(Ty::Struct(v, packed))
  }
  fn arr_body(&mut self) -> R<(u64, Rc<Ty>)> {
    let n = match self.next()? {
      Tok::Int(n) => *n as u64,
      t => return Err(format!("array len {:?}", t)),
    };
    if !self.eat_id("x") {
      return Err("array x".into());
    }
    Ok((n, self.ty()?))
  }
  /// Skip parameter/return attributes up to a value or type.
  fn attrs(&mut self, value_next: bool) -> R<()> {
    loop {
      match self.peek() {
        Some(Tok::Id(s)) => {
          if value_next && ATTR_STOP.contains(s) {
            return Ok(());
          }
          if self.is_ty() {
            return Ok(());
          }
          let is_align = *s == "align";
          self.i += 1;
          if is_align {
            if let Some(Tok::Int(_)) = self.peek() {
              self.i += 1;
              continue;
            }
          }
          if self.peek() == Some(&Tok::P(b'(')) {
            self.skip_parens()?;
          }
        }
        Some(Tok::Str(_)) => {
          self.i += 1;
          if self.eat(b'=') {
            self.i += 1;
          }
        }
        _ => return Ok(()),
      }
    }
  }

  /// A constant of the given type as leaf values.
  fn constant(&mut self, ty: &Rc<Ty>, g: &GEnv) -> R<Vec<u64>> {
    let m = |v: i128, t: &Ty| -> Vec<u64> {
      match t {
        Ty::Int(n) if *n > 64 => vec![v as u64, (v >> 64) as u64],
        Ty::Int(n) => vec![v as u64 & crate::expr::mask(*n)],
        _ => vec![v as u64],
      }
    };
    match self.next()? {
      Tok::Int(v) => Ok(m(*v, ty)),
      Tok::Glob(n) => Ok(vec![*g.globals.get(*n).ok_or_else(|| format!("unknown global {}", n))?]),
      Tok::Str(s) => Ok(s.iter().map(|b| *b as u64).collect()),
      Tok::P(b'[') => {
        let mut v = Vec::new();
        if self.eat(b']') {
          return Ok(v);
        }
        loop {
          let t = self.ty()?;
          v.extend(self.constant(&t, g)?);
          if self.eat(b']') {
            return Ok(v);
          }
          self.want(b',')?;
        }
      }
      Tok::P(b'{') => self.const_struct(g),
      Tok::P(b'<') => {
        if self.eat(b'{') {
          let r = self.const_struct(g)?;
          self.want(b'>')?;
          return Ok(r);
        }
        let mut v = Vec::new();
        loop {
          let t = self.ty()?;
          v.extend(self.constant(&t, g)?);
          if self.eat(b'>') {
            return Ok(v);
          }
          self.want(b',')?;
        }
      }
      Tok::Id(s) => match *s {
        "true" => Ok(vec![1]),
        "false" => Ok(vec![0]),
        "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(vec![0; ty.nleaves()]),
        "splat" => {
          self.want(b'(')?;
          let t = self.ty()?;
          let v = self.constant(&t, g)?;
          self.want(b')')?;
          let n = ty.nleaves() / v.len();
          Ok((0..n).flat_map(|_| v.clone()).collect())
        }
        "getelementptr" => {
          while !self.eat(b'(') {
            if self.eat_id("inrange") {
              self.skip_parens()?;
            } else {
              self.i += 1;
            }
          }
          let t = self.ty()?;
          self.want(b',')?;
          let pt = self.ty()?;
          let mut p = self.constant(&pt, g)?[0];
          let mut cur = Rc::new(Ty::Arr(0, t));
          while self.eat(b',') {
            let it = self.ty()?;
            let iw = match &*it {
              Ty::Int(n) => *n,
              _ => return Err("gep idx".into()),
            };
            let i = crate::expr::sext(self.constant(&it, g)?[0], iw);
            match &*cur {
              Ty::Struct(..) => p = p.wrapping_add(cur.field_off(i as u64)),
              Ty::Arr(_, e) | Ty::Vec(_, e) => p = p.wrapping_add((i as u64).wrapping_mul(e.alloc_size())),
              _ => return Err("gep const".into()),
            }
            let e = cur.elem(i as u64);
            cur = e;
          }
          self.want(b')')?;
          Ok(vec![p])
        }
        "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
          self.want(b'(')?;
          let t = self.ty()?;
          let v = self.constant(&t, g)?;
          if !self.eat_id("to") {
            return Err("const cast".into());
          }
          let t2 = self.ty()?;
          self.want(b')')?;
          Ok(m(v[0] as i128, &t2))
        }
        "sub" | "add" | "xor" | "mul" => {
          let op = *s;
          while !self.eat(b'(') {
            self.i += 1;
          }
          let t = self.ty()?;
          let a = self.constant(&t, g)?[0];
          self.want(b',')?;
          let t2 = self.ty()?;
          let b = self.constant(&t2, g)?[0];
          self.want(b')')?;
          let r = match op {
            "sub" => a.wrapping_sub(b),
            "add" => a.wrapping_add(b),
            "mul" => a.wrapping_mul(b),
            _ => a ^ b,
          };
          Ok(m(r as i128, &t))
        }
        s => {
          // floating point literal
          if let Ty::Float(64) = **ty {
            if let Some(h) = s.strip_prefix("0x") {
              return Ok(vec![u64::from_str_radix(h, 16).map_err(|e| e.to_string())?]);
            }
            return Ok(vec![s.parse::<f64>().map_err(|e| e.to_string())?.to_bits()]);
          }
          if let Ty::Float(32) = **ty {
            if let Some(h) = s.strip_prefix("0x") {
              let d = f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?);
              return Ok(vec![(d as f32).to_bits() as u64]);
            }
            return Ok(vec![s.parse::<f32>().map_err(|e| e.to_string())?.to_bits() as u64]);
          }
          Err(format!("constant {}", s))
        }
      },
      t => Err(format!("constant tok {:?}", t)),
    }
  }
  fn const_struct(&mut self, g: &GEnv) -> R<Vec<u64>> {
    let mut v = Vec::new();
    if self.eat(b'}') {
      return Ok(v);
    }
    loop {
      let t = self.ty()?;
      v.extend(self.constant(&t, g)?);
      if self.eat(b'}') {
        return Ok(v);
      }
      self.want(b',')?;
    }
  }
}

struct Instr<'a> {
  res: Option<&'a str>,
  toks: Vec<Tok<'a>>,
  dbg: u32,
}

struct Block<'a> {
  name: &'a str,
  ins: Vec<Instr<'a>>,
}

struct RawFn<'a> {
  header: &'a str,
  body: Vec<&'a str>,
}

fn dbg_of(toks: &[Tok]) -> u32 {
  for i in (0..toks.len().saturating_sub(1)).rev() {
    if toks[i] == Tok::Meta("dbg") {
      if let Tok::Meta(n) = &toks[i + 1] {
        return n.parse().unwrap_or(0);
      }
    }
  }
  0
}

pub fn parse_module(text: &str) -> Result<Module, String> {
  let mut raw_fns: Vec<RawFn> = Vec::new();
  let mut globals: Vec<&str> = Vec::new();
  let mut declares: Vec<&str> = Vec::new();
  let mut dbg = Dbg::default();
  let mut cur: Option<RawFn> = None;
  for line in text.lines() {
    if let Some(f) = &mut cur {
      if line == "}" {
        raw_fns.push(cur.take().unwrap());
      } else if !line.is_empty() {
        f.body.push(line);
      }
      continue;
    }
    if line.starts_with("define ") {
      cur = Some(RawFn { header: line, body: Vec::new() });
    } else if line.starts_with('@') {
      globals.push(line);
    } else if line.starts_with("declare ") {
      declares.push(line);
    } else if line.starts_with('!') {
      parse_meta(line, &mut dbg);
    }
  }
  // function ids
  let mut fn_by_name: HashMap<String, u32> = HashMap::new();
  let mut genv = GEnv { globals: HashMap::new() };
  let fn_name = |h: &str| -> Result<String, String> {
    let at = h.find('@').ok_or("no @ in header")?;
    let mut toks = Vec::new();
    // the name token only
    let rest = &h[at..];
    let end = if rest.as_bytes().get(1) == Some(&b'"') {
      rest[2..].find('"').map(|e| e + 3).unwrap()
    } else {
      rest.find('(').unwrap()
    };
    lex(&rest[..end], &mut toks);
    match &toks[0] {
      Tok::Glob(n) => Ok(n.to_string()),
      _ => Err("fn name".into()),
    }
  };
  let mut names = Vec::new();
  for f in &raw_fns {
    names.push((fn_name(f.header)?, true));
  }
  for d in &declares {
    names.push((fn_name(d)?, false));
  }
  for (i, (n, _)) in names.iter().enumerate() {
    fn_by_name.insert(n.clone(), i as u32);
    genv.globals.insert(n.clone(), FUNC_BASE + 16 * i as u64);
  }
  // globals: pass 1, addresses (constants first, then mutable, then TLS)
  struct G<'a> {
    name: &'a str,
    toks: Vec<Tok<'a>>,
    ty: Rc<Ty>,
    init_at: Option<usize>,
    align: u64,
    konst: bool,
    tls: bool,
  }
  let mut gs: Vec<G> = Vec::new();
  let mut aliases: Vec<(String, Vec<Tok>)> = Vec::new();
  for line in &globals {
    let mut toks = Vec::new();
    lex(line, &mut toks);
    let name = match &toks[0] {
      Tok::Glob(n) => *n,
      _ => return Err("global name".into()),
    };
    if name.starts_with("llvm.") {
      continue;
    }
    if toks.iter().take(12).any(|t| *t == Tok::Id("alias")) && !line.contains(" global ") && !line.contains(" constant ") {
      aliases.push((name.to_string(), toks));
      continue;
    }
    let mut i = 2;
    let mut tls = false;
    let mut external = false;
    let konst;
    loop {
      match &toks[i] {
        Tok::Id("global") => {
          konst = false;
          break;
        }
        Tok::Id("constant") => {
          konst = true;
          break;
        }
        Tok::Id("thread_local") => tls = true,
        Tok::Id("external") | Tok::Id("extern_weak") => external = true,
        _ => {}
      }
      i += 1;
    }
    i += 1;
    let (ty, at) = {
      let mut p = P { t: &toks, i };
      let ty = p.ty()?;
      (ty, p.i)
    };
    let mut align = ty.align().max(1);
    for j in 0..toks.len() - 1 {
      if toks[j] == Tok::Id("align") {
        if let Tok::Int(a) = toks[j + 1] {
          if j > at {
            align = a as u64;
          }
        }
      }
    }
    gs.push(G { name, toks, ty, init_at: if external { None } else { Some(at) }, align, konst, tls });
  }
  gs.sort_by_key(|g| (!g.konst, g.tls));
  let mut addr = GLOBAL_BASE;
  let mut const_end = 0;
  let mut tls = (0, 0);
  let mut addrs = Vec::new();
  for g in &gs {
    if !g.konst && const_end == 0 {
      addr = align_up(addr, 4096);
      const_end = addr;
    }
    if g.tls && tls.0 == 0 {
      addr = align_up(addr, 64);
      tls.0 = addr;
    }
    addr = align_up(addr, g.align.max(8));
    if g.init_at.is_none() {
      // external data: null unless someone needs it
      addrs.push(0);
      genv.globals.insert(g.name.to_string(), 0);
      continue;
    }
    addrs.push(addr);
    genv.globals.insert(g.name.to_string(), addr);
    addr += g.ty.alloc_size().max(1);
  }
  if tls.0 != 0 {
    tls.1 = addr;
  }
  let end = align_up(addr, 4096);
  if const_end == 0 {
    const_end = end;
  }
  for (n, toks) in &aliases {
    let tgt = toks.iter().rev().find_map(|t| if let Tok::Glob(g) = t { Some(*g) } else { None }).unwrap();
    if let Some(a) = genv.globals.get(tgt).copied() {
      genv.globals.insert(n.clone(), a);
      if a >= FUNC_BASE {
        fn_by_name.insert(n.clone(), ((a - FUNC_BASE) / 16) as u32);
      }
    }
  }
  let mut image = vec![0u8; (end - GLOBAL_BASE) as usize];
  for (g, a) in gs.iter().zip(&addrs) {
    let Some(at) = g.init_at else { continue };
    let mut p = P { t: &g.toks, i: at };
    let v = p.constant(&g.ty, &genv).map_err(|e| format!("global {}: {}", g.name, e))?;
    let leaves = g.ty.leaves();
    if leaves.len() != v.len() {
      return Err(format!("global {} initialiser {} vs {}", g.name, leaves.len(), v.len()));
    }
    for (l, x) in leaves.iter().zip(v) {
      let n = (l.bits as usize + 7) / 8;
      let o = (a - GLOBAL_BASE) as usize + l.off as usize;
      image[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
    }
  }
  let mut m = Module {
    funcs: Vec::new(),
    fn_by_name,
    image,
    tls,
    nblocks: 0,
    blk_dbg: Vec::new(),
    dbg,
    ext_names: Vec::new(),
    const_end,
  };
  for (i, (n, defined)) in names.iter().enumerate() {
    let ext = ext_of(n).or_else(|| {
      if *defined {
        None
      } else {
        m.ext_names.push(n.clone());
        Some(Ext::Unknown(m.ext_names.len() as u32 - 1))
      }
    });
    m.funcs.push(Func {
      name: n.clone(),
      param_slots: 0,
      nret: 0,
      nregs: 0,
      code: Vec::new(),
      consts: Vec::new(),
      edges: Vec::new(),
      moves: Vec::new(),
      entry_blk: 0,
      ext,
      defined: *defined,
      dbg: 0,
    });
    let _ = i;
  }
  for (i, f) in raw_fns.iter().enumerate() {
    if m.funcs[i].ext.is_some() {
      continue;
    }
    lower_fn(&mut m, i as u32, f, &genv).map_err(|e| format!("in {}: {}", names[i].0, e))?;
  }
  Ok(m)
}

fn meta_num(line: &str, key: &str) -> u32 {
  if let Some(p) = line.find(key) {
    let s = &line[p + key.len()..];
    let s = s.trim_start_matches('!');
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    return s[..e].parse().unwrap_or(0);
  }
  0
}

fn meta_str<'a>(line: &'a str, key: &str) -> &'a str {
  if let Some(p) = line.find(key) {
    let s = &line[p + key.len()..];
    if let Some(e) = s.find('"') {
      return &s[..e];
    }
  }
  ""
}

fn parse_meta(line: &str, d: &mut Dbg) {
  let Some(eq) = line.find(" = ") else { return };
  let Ok(id) = line[1..eq].parse::<u32>() else { return };
  let mut body = &line[eq + 3..];
  if let Some(b) = body.strip_prefix("distinct ") {
    body = b;
  }
  if body.starts_with("!DILocation(") {
    d.loc.insert(id, (meta_num(body, "line: "), meta_num(body, "scope: "), meta_num(body, "inlinedAt: ")));
  } else if body.starts_with("!DISubprogram(") {
    d.subp.insert(
      id,
      (meta_str(body, "(name: \"").to_string(), meta_num(body, "file: "), meta_num(body, " line: ")),
    );
  } else if body.starts_with("!DILexicalBlock") {
    d.scope.insert(id, (meta_num(body, "scope: "), meta_num(body, "file: ")));
  } else if body.starts_with("!DIFile(") {
    let f = meta_str(body, "filename: \"");
    let dir = meta_str(body, "directory: \"");
    let full = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", dir, f) };
    d.file.insert(id, full);
  }
}

struct Lower<'m, 'a> {
  g: &'m GEnv,
  fns: &'m HashMap<String, u32>,
  exts: Vec<Option<Ext>>,
  vals: HashMap<&'a str, (u32, Rc<Ty>)>,
  nregs: u32,
  consts: Vec<u64>,
  cmap: HashMap<u64, u32>,
  code: Vec<Op>,
  edges: Vec<Edge>,
  moves: Vec<(u32, u32)>,
}

/// Types of instruction results, without lowering.
fn skip_flags(p: &mut P) {
  while let Some(Tok::Id(s)) = p.peek() {
    if matches!(
      *s,
      "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak"
        | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inalloca"
    ) {
      p.i += 1;
    } else if *s == "inrange" {
      p.i += 1;
      let _ = p.skip_parens();
    } else {
      break;
    }
  }
}

fn call_prefix(p: &mut P) -> R<Rc<Ty>> {
  // after "call"/"invoke": flags, cc, attributes, then the return type
  skip_flags(p);
  while let Some(Tok::Id(s)) = p.peek() {
    match *s {
      "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" => p.i += 1,
      "cc" => p.i += 2,
      _ => break,
    }
  }
  p.attrs(false)?;
  let t = p.ty()?;
  // function type for varargs
  if p.peek() == Some(&Tok::P(b'(')) {
    p.skip_parens()?;
  }
  Ok(t)
}

fn is_cast(op: &str) -> bool {
  matches!(
    op,
    "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui"
      | "fptosi" | "fptrunc" | "fpext"
  )
}

fn bin_code(op: &str) -> Option<u8> {
  use crate::expr as e;
  Some(match op {
    "add" => e::ADD,
    "sub" => e::SUB,
    "mul" => e::MUL,
    "udiv" => e::UDIV,
    "sdiv" => e::SDIV,
    "urem" => e::UREM,
    "srem" => e::SREM,
    "shl" => e::SHL,
    "lshr" => e::LSHR,
    "ashr" => e::ASHR,
    "and" => e::AND,
    "or" => e::OR,
    "xor" => e::XOR,
    _ => return None,
  })
}

impl<'m, 'a> Lower<'m, 'a> {
  fn result_ty(&self, ins: &Instr<'a>) -> R<Rc<Ty>> {
    let toks = &ins.toks;
    let mut p = P::new(toks);
    let mut op = p.id()?;
    while matches!(op, "tail" | "musttail" | "notail") {
      op = p.id()?;
    }
    let i1 = || Rc::new(Ty::Int(1));
    Ok(match op {
      "icmp" | "fcmp" => {
        skip_flags(&mut p);
        p.id()?;
        let t = p.ty()?;
        match &*t {
          Ty::Vec(n, _) => Rc::new(Ty::Vec(*n, i1())),
          _ => i1(),
        }
      }
      "select" => {
        skip_flags(&mut p);
        let ct = p.ty()?;
        self.skip_value(&mut p, &ct)?;
        p.want(b',')?;
        p.ty()?
      }
      "load" => {
        skip_flags(&mut p);
        p.ty()?
      }
      "getelementptr" | "alloca" => Rc::new(Ty::Ptr),
      "call" | "invoke" => call_prefix(&mut p)?,
      "phi" | "freeze" | "landingpad" | "va_arg" => {
        skip_flags(&mut p);
        p.ty()?
      }
      "insertvalue" | "insertelement" => p.ty()?,
      "extractvalue" => {
        let t = p.ty()?;
        self.skip_value(&mut p, &t)?;
        let mut path = Vec::new();
        while p.eat(b',') {
          if let Some(Tok::Int(n)) = p.peek() {
            path.push(*n as u64);
            p.i += 1;
          } else {
            break;
          }
        }
        t.sub(&path).1
      }
      "extractelement" => p.ty()?.elem(0),
      "shufflevector" => {
        let t = p.ty()?;
        self.skip_value(&mut p, &t)?;
        p.want(b',')?;
        let t2 = p.ty()?;
        self.skip_value(&mut p, &t2)?;
        p.want(b',')?;
        let mt = p.ty()?;
        match &*mt {
          Ty::Vec(n, _) => Rc::new(Ty::Vec(*n, t.elem(0))),
          _ => return Err("shuffle".into()),
        }
      }
      "atomicrmw" => {
        skip_flags(&mut p);
        p.id()?;
        let pt = p.ty()?;
        self.skip_value(&mut p, &pt)?;
        p.want(b',')?;
        p.ty()?
      }
      "cmpxchg" => {
        skip_flags(&mut p);
        let pt = p.ty()?;
        self.skip_value(&mut p, &pt)?;
        p.want(b',')?;
        let t = p.ty()?;
        Rc::new(Ty::Struct(vec![t, i1()], false))
      }
      _ if is_cast(op) => {
        let mut k = toks.len();
        for (j, t) in toks.iter().enumerate() {
          if *t == Tok::Id("to") {
            k = j;
            break;
          }
        }
        p.i = k + 1;
        p.ty()?
      }
      _ => {
        skip_flags(&mut p);
        p.ty()?
      }
    })
  }

  fn skip_value(&self, p: &mut P<'_>, ty: &Rc<Ty>) -> R<()> {
    match p.peek() {
      Some(Tok::Loc(_)) => {
        p.i += 1;
        Ok(())
      }
      _ => p.constant(ty, self.g).map(|_| ()),
    }
  }

  fn kon(&mut self, v: &[u64]) -> u32 {
    if v.len() == 1 {
      if let Some(i) = self.cmap.get(&v[0]) {
        return *i | CBIT;
      }
    }
    let i = self.consts.len() as u32;
    self.consts.extend_from_slice(v);
    if v.len() == 1 {
      self.cmap.insert(v[0], i);
    }
    i | CBIT
  }

  fn value(&mut self, p: &mut P<'_>, ty: &Rc<Ty>) -> R<u32> {
    match p.peek() {
      Some(Tok::Loc(n)) => {
        p.i += 1;
        Ok(self.vals.get(n).ok_or_else(|| format!("undefined %{}", n))?.0)
      }
      _ => {
        let v = p.constant(ty, self.g)?;
        if v.is_empty() {
          return Ok(CBIT);
        }
        Ok(self.kon(&v))
      }
    }
  }

  fn tyval(&mut self, p: &mut P<'_>) -> R<(Rc<Ty>, u32)> {
    let t = p.ty()?;
    p.attrs(true)?;
    let v = self.value(p, &t)?;
    Ok((t, v))
  }
}

fn lower_fn(m: &mut Module, fid: u32, f: &RawFn, g: &GEnv) -> R<()> {
  // header: parameters
  let mut htoks = Vec::new();
  lex(f.header, &mut htoks);
  let mut p = P::new(&htoks);
  while !matches!(p.peek(), Some(Tok::Glob(_))) {
    p.i += 1;
  }
  // return type: re-scan from the start
  let ret_ty = {
    let mut q = P::new(&htoks);
    q.i = 1;
    let mut r = None;
    while q.i < p.i {
      if q.is_ty() {
        let save = q.i;
        if let Ok(t) = q.ty() {
          if q.i == p.i {
            r = Some(t);
            break;
          }
        }
        q.i = save + 1;
      } else if q.peek() == Some(&Tok::P(b'(')) {
        q.skip_parens()?;
      } else {
        q.i += 1;
      }
    }
    r.ok_or("return type")?
  };
  p.i += 1;
  p.want(b'(')?;
  let mut lw = Lower {
    g,
    fns: &m.fn_by_name,
    exts: m.funcs.iter().map(|f| f.ext).collect(),
    vals: HashMap::new(),
    nregs: 0,
    consts: Vec::new(),
    cmap: HashMap::new(),
    code: Vec::new(),
    edges: Vec::new(),
    moves: Vec::new(),
  };
  let mut unnamed = 0usize;
  let names: Vec<String> = (0..256).map(|i| i.to_string()).collect();
  let mut pnames: Vec<(String, Rc<Ty>)> = Vec::new();
  if !p.eat(b')') {
    loop {
      if p.eat(b'.') || p.eat_id("...") {
        while !p.eat(b')') {
          p.i += 1;
        }
        break;
      }
      let t = p.ty()?;
      p.attrs(true)?;
      let n = match p.peek() {
        Some(Tok::Loc(n)) => {
          p.i += 1;
          if let Ok(k) = n.parse::<usize>() {
            unnamed = unnamed.max(k + 1);
          }
          n.to_string()
        }
        _ => {
          let n = names[unnamed].clone();
          unnamed += 1;
          n
        }
      };
      pnames.push((n, t));
      if p.eat(b')') {
        break;
      }
      p.want(b',')?;
    }
  }
  let fdbg = dbg_of(&htoks);
  // body: join continuation lines, split into blocks
  let mut lines: Vec<String> = Vec::new();
  for l in &f.body {
    let t = l.trim_start();
    if t.starts_with("#dbg") || t.starts_with(';') || t.is_empty() {
      continue;
    }
    let is_label = !l.starts_with(' ');
    let cont = !is_label && (l.starts_with("   ") || t.starts_with(']'));
    if cont && !lines.is_empty() {
      let last = lines.last_mut().unwrap();
      last.push(' ');
      last.push_str(t);
    } else {
      lines.push(l.to_string());
    }
  }
  let nparams_names: Vec<&str> = pnames.iter().map(|x| &*x.0).collect();
  for (i, (_, t)) in pnames.iter().enumerate() {
    let n = t.nleaves() as u32;
    lw.vals.insert(nparams_names[i], (lw.nregs, t.clone()));
    lw.nregs += n;
  }
  let param_slots = lw.nregs;
  let mut blocks: Vec<Block> = Vec::new();
  for l in &lines {
    if !l.starts_with(' ') {
      let mut toks = Vec::new();
      let end = l.rfind(':').ok_or("label")?;
      let lab = if let Some(c) = l.find(": ") { &l[..c] } else { &l[..end] };
      let lab = lab.trim_end_matches(':').trim_matches('"');
      lex("", &mut toks);
      blocks.push(Block { name: lab, ins: Vec::new() });
      continue;
    }
    if blocks.is_empty() {
      blocks.push(Block { name: "", ins: Vec::new() });
    }
    let mut toks = Vec::new();
    lex(l, &mut toks);
    let dbg = dbg_of(&toks);
    let (res, toks) = if toks.len() > 1 && toks[1] == Tok::P(b'=') {
      let r = match &toks[0] {
        Tok::Loc(n) => *n,
        _ => return Err("result".into()),
      };
      (Some(r), toks[2..].to_vec())
    } else {
      (None, toks)
    };
    blocks.last_mut().unwrap().ins.push(Instr { res, toks, dbg });
  }
  // the entry block of a function without label takes the next unnamed number
  let entry_num = unnamed.to_string();
  let blk_id: HashMap<&str, u32> = blocks
    .iter()
    .enumerate()
    .map(|(i, b)| (if b.name.is_empty() { &*entry_num } else { b.name }, m.nblocks + i as u32))
    .collect();
  // pass A: result registers (aliases where the operand is already known)
  for b in &blocks {
    for ins in &b.ins {
      let Some(r) = ins.res else { continue };
      let t = lw.result_ty(ins).map_err(|e| format!("{} at %{} {:?}", e, r, &ins.toks[..ins.toks.len().min(12)]))?;
      let op = if let Tok::Id(s) = &ins.toks[0] { *s } else { "" };
      let mut reg = None;
      match op {
        "extractvalue" => {
          let mut p = P::new(&ins.toks);
          p.i = 1;
          let at = p.ty()?;
          if let Some(Tok::Loc(n)) = p.peek() {
            if let Some((r0, _)) = lw.vals.get(n) {
              p.i += 1;
              let mut path = Vec::new();
              while p.eat(b',') {
                if let Some(Tok::Int(n)) = p.peek() {
                  path.push(*n as u64);
                  p.i += 1;
                } else {
                  break;
                }
              }
              reg = Some(*r0 + at.sub(&path).0 as u32);
            }
          }
        }
        "freeze" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" => {
          let mut p = P::new(&ins.toks);
          p.i = 1;
          let at = p.ty()?;
          let same = at.leaves().iter().map(|l| l.bits).eq(t.leaves().iter().map(|l| l.bits));
          if same {
            if let Some(Tok::Loc(n)) = p.peek() {
              if let Some((r0, _)) = lw.vals.get(n) {
                reg = Some(*r0);
              }
            }
          }
        }
        _ => {}
      }
      let reg = reg.unwrap_or_else(|| {
        let x = lw.nregs;
        lw.nregs += t.nleaves() as u32;
        x
      });
      lw.vals.insert(r, (reg, t));
    }
  }
  // phis per block
  struct Phi<'a> {
    d: u32,
    n: u32,
    inc: HashMap<&'a str, u32>,
  }
  let mut phis: HashMap<&str, Vec<Phi>> = HashMap::new();
  for b in &blocks {
    let bn = if b.name.is_empty() { &*entry_num } else { b.name };
    let mut v = Vec::new();
    for ins in &b.ins {
      if ins.toks[0] != Tok::Id("phi") {
        continue;
      }
      let mut p = P::new(&ins.toks);
      p.i = 1;
      skip_flags(&mut p);
      let t = p.ty()?;
      let mut inc = HashMap::new();
      loop {
        p.want(b'[')?;
        let val = lw.value(&mut p, &t)?;
        p.want(b',')?;
        let from = match p.next()? {
          Tok::Loc(n) => *n,
          t => return Err(format!("phi from {:?}", t)),
        };
        p.want(b']')?;
        inc.insert(from, val);
        if !p.eat(b',') {
          break;
        }
        if !matches!(p.peek(), Some(Tok::P(b'['))) {
          break;
        }
      }
      v.push(Phi { d: lw.vals[ins.res.unwrap()].0, n: t.nleaves() as u32, inc });
    }
    phis.insert(bn, v);
  }
  // pass B
  let mut block_pc: Vec<u32> = Vec::new();
  let mut patch: Vec<(usize, usize)> = Vec::new(); // edge idx -> block idx
  let bidx: HashMap<&str, usize> =
    blocks.iter().enumerate().map(|(i, b)| (if b.name.is_empty() { &*entry_num } else { b.name }, i)).collect();
  for b in &blocks {
    block_pc.push(lw.code.len() as u32);
    let bn = if b.name.is_empty() { &*entry_num } else { b.name };
    let mut mk_edge = |lw: &mut Lower, to: &str| -> R<u32> {
      let ti = *bidx.get(to).ok_or_else(|| format!("label {}", to))?;
      let mv = lw.moves.len() as u32;
      let mut n = 0;
      for ph in &phis[to] {
        let src = *ph.inc.get(bn).ok_or_else(|| format!("phi edge {} -> {}", bn, to))?;
        for k in 0..ph.n {
          lw.moves.push((ph.d + k, src + k));
          n += 1;
        }
      }
      let e = lw.edges.len();
      lw.edges.push(Edge { pc: 0, mv, n, blk: blk_id[to] });
      patch.push((e, ti));
      Ok(e as u32)
    };
    for ins in &b.ins {
      if ins.toks[0] == Tok::Id("phi") {
        continue;
      }
      let start = lw.code.len();
      match lower_ins(&mut lw, ins, &mut mk_edge) {
        Ok(()) => {}
        Err(e) => {
          lw.code.truncate(start);
          lw.code.push(Op::Unsupported(format!("{}: {:?}", e, &ins.toks[..ins.toks.len().min(10)]).into()));
        }
      }
    }
  }
  for (e, t) in patch {
    lw.edges[e].pc = block_pc[t];
  }
  let mut blk_dbg = Vec::new();
  for b in &blocks {
    let s: HashSet<u32> = b.ins.iter().map(|i| i.dbg).filter(|d| *d != 0).collect();
    let mut v: Vec<u32> = s.into_iter().collect();
    v.sort();
    blk_dbg.push((fid, v));
  }
  let nret = ret_ty.nleaves() as u32;
  let (nregs, code, consts, edges, moves) = (lw.nregs, lw.code, lw.consts, lw.edges, lw.moves);
  let fun = &mut m.funcs[fid as usize];
  fun.param_slots = param_slots;
  fun.nret = nret;
  fun.nregs = nregs;
  fun.code = code;
  fun.consts = consts;
  fun.edges = edges;
  fun.moves = moves;
  fun.entry_blk = m.nblocks;
  fun.dbg = fdbg;
  m.nblocks += blocks.len() as u32;
  m.blk_dbg.extend(blk_dbg);
  Ok(())
}

fn lower_ins<'m, 'a>(
  lw: &mut Lower<'m, 'a>,
  ins: &Instr<'a>,
  mk_edge: &mut dyn FnMut(&mut Lower, &str) -> R<u32>,
) -> R<()> {
  let toks = &ins.toks;
  let mut p = P::new(toks);
  let mut op = p.id()?;
  while matches!(op, "tail" | "musttail" | "notail") {
    op = p.id()?;
  }
  let (d, rty) = match ins.res {
    Some(r) => lw.vals[r].clone(),
    None => (0, Rc::new(Ty::Void)),
  };
  if let Some(code) = bin_code(op) {
    skip_flags(&mut p);
    let t = p.ty()?;
    let a = lw.value(&mut p, &t)?;
    p.want(b',')?;
    let b = lw.value(&mut p, &t)?;
    match &*t {
      Ty::Int(w) if *w <= 64 => lw.code.push(Op::Bin { op: code, w: *w as u8, d, a, b }),
      Ty::Int(128) => lw.code.push(Op::WideBin { op: code, d, a, b }),
      Ty::Vec(n, e) => match &**e {
        Ty::Int(w) if *w <= 64 => {
          for i in 0..*n as u32 {
            lw.code.push(Op::Bin { op: code, w: *w as u8, d: d + i, a: a + i, b: b + i })
          }
        }
        _ => return Err("vector bin".into()),
      },
      t => return Err(format!("bin type {:?}", t)),
    }
    return Ok(());
  }
  match op {
    "icmp" => {
      skip_flags(&mut p);
      let pr = match p.id()? {
        "eq" => 0,
        "ne" => 1,
        "ult" => 2,
        "ule" => 3,
        "ugt" => 4,
        "uge" => 5,
        "slt" => 6,
        "sle" => 7,
        "sgt" => 8,
        "sge" => 9,
        s => return Err(format!("icmp {}", s)),
      };
      let t = p.ty()?;
      let a = lw.value(&mut p, &t)?;
      p.want(b',')?;
      let b = lw.value(&mut p, &t)?;
      match &*t {
        Ty::Ptr => lw.code.push(Op::Cmp { p: pr, w: 64, d, a, b }),
        Ty::Int(w) if *w <= 64 => lw.code.push(Op::Cmp { p: pr, w: *w as u8, d, a, b }),
        Ty::Int(128) => lw.code.push(Op::WideCmp { p: pr, d, a, b }),
        Ty::Vec(n, e) => {
          let w = e.bits() as u8;
          for i in 0..*n as u32 {
            lw.code.push(Op::Cmp { p: pr, w, d: d + i, a: a + i, b: b + i })
          }
        }
        t => return Err(format!("icmp {:?}", t)),
      }
    }
    "select" => {
      skip_flags(&mut p);
      let (ct, c) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (t, a) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, b) = lw.tyval(&mut p)?;
      let ls = t.leaves();
      if let Ty::Vec(n, _) = &*ct {
        for i in 0..*n as u32 {
          lw.code.push(Op::Select { n: 1, d: d + i, c: c + i, a: a + i, b: b + i, w: ls[i as usize].bits })
        }
      } else {
        for (i, l) in ls.iter().enumerate() {
          let i = i as u32;
          lw.code.push(Op::Select { n: 1, d: d + i, c, a: a + i, b: b + i, w: l.bits })
        }
      }
    }
    "zext" | "sext" | "trunc" => {
      skip_flags(&mut p);
      let t = p.ty()?;
      let a = lw.value(&mut p, &t)?;
      let (f, w) = match (&*t, &*rty) {
        (Ty::Int(f), Ty::Int(w)) => (*f, *w),
        (Ty::Vec(n, f), Ty::Vec(_, w)) => {
          let (fw, w) = (f.bits() as u8, w.bits() as u8);
          for i in 0..*n as u32 {
            lw.code.push(match op {
              "zext" => Op::Zext { w, d: d + i, a: a + i },
              "sext" => Op::Sext { fw, w, d: d + i, a: a + i },
              _ => Op::Trunc { w, d: d + i, a: a + i },
            });
          }
          return Ok(());
        }
        _ => return Err("vector cast".into()),
      };
      match op {
        "zext" => {
          if w > 64 {
            if f > 64 {
              return Err("wide zext".into());
            }
            lw.code.push(Op::Zext { w: 64, d, a });
            let z = lw.kon(&[0]);
            lw.code.push(Op::Copy { n: 1, d: d + 1, a: z });
          } else {
            lw.code.push(Op::Zext { w: w as u8, d, a })
          }
        }
        "sext" => {
          if w > 64 {
            return Err("wide sext".into());
          }
          lw.code.push(Op::Sext { fw: f as u8, w: w as u8, d, a })
        }
        _ => {
          if w > 64 {
            return Err("wide trunc".into());
          }
          lw.code.push(Op::Trunc { w: w as u8, d, a })
        }
      }
    }
    "freeze" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "addrspacecast" => {
      let t = p.ty()?;
      let a = lw.value(&mut p, &t)?;
      let same = t.leaves().iter().map(|l| l.bits).eq(rty.leaves().iter().map(|l| l.bits));
      if same {
        if a != d {
          lw.code.push(Op::Copy { n: t.nleaves() as u32, d, a });
        }
      } else {
        match (&*t, &*rty) {
          (Ty::Vec(n, e), Ty::Int(w)) if *w <= 64 => {
            lw.code.push(Op::BitcastVI { d, a, n: *n as u32, ew: e.bits() as u8 })
          }
          (Ty::Int(w), Ty::Vec(n, e)) if *w <= 64 => {
            lw.code.push(Op::BitcastIV { d, a, n: *n as u32, ew: e.bits() as u8 })
          }
          (Ty::Int(f), Ty::Ptr) | (Ty::Ptr, Ty::Int(f)) if op != "bitcast" => {
            let w = rty.bits() as u8;
            if (*f as u64) < 64 && w < 64 {
              lw.code.push(Op::Trunc { w, d, a })
            } else {
              lw.code.push(Op::Zext { w, d, a })
            }
          }
          _ => return Err("cast".into()),
        }
      }
    }
    "load" => {
      let atomic = toks.iter().any(|t| *t == Tok::Id("atomic"));
      skip_flags(&mut p);
      let t = p.ty()?;
      p.want(b',')?;
      let (_, ptr) = lw.tyval(&mut p)?;
      let ls = t.leaves();
      if ls.len() == 1 {
        if atomic {
          lw.code.push(Op::AtomicLoad { d, p: ptr, bits: ls[0].bits })
        } else {
          lw.code.push(Op::Load { d, p: ptr, bits: ls[0].bits })
        }
      } else {
        if let Ty::Vec(_, e) = &*t {
          if e.bits() % 8 != 0 {
            return Err("vector load".into());
          }
        }
        lw.code.push(Op::LoadN { d, p: ptr, leaves: ls.into() })
      }
    }
    "store" => {
      let atomic = toks.iter().any(|t| *t == Tok::Id("atomic"));
      skip_flags(&mut p);
      let (t, v) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, ptr) = lw.tyval(&mut p)?;
      let ls = t.leaves();
      if ls.len() == 1 {
        if atomic {
          lw.code.push(Op::AtomicStore { v, p: ptr, bits: ls[0].bits })
        } else {
          lw.code.push(Op::Store { v, p: ptr, bits: ls[0].bits })
        }
      } else {
        if let Ty::Vec(_, e) = &*t {
          if e.bits() % 8 != 0 {
            return Err("vector store".into());
          }
        }
        lw.code.push(Op::StoreN { v, p: ptr, leaves: ls.into() })
      }
    }
    "getelementptr" => {
      skip_flags(&mut p);
      let t = p.ty()?;
      p.want(b',')?;
      let (pt, base) = lw.tyval(&mut p)?;
      if *pt != Ty::Ptr {
        return Err("vector gep".into());
      }
      let mut off = 0i64;
      let mut terms: Vec<(u32, u8, i64)> = Vec::new();
      let mut cur = Rc::new(Ty::Arr(0, t));
      while p.eat(b',') {
        if !p.is_ty() {
          break;
        }
        let it = p.ty()?;
        let iw = match &*it {
          Ty::Int(n) => *n,
          _ => return Err("gep idx".into()),
        };
        let v = lw.value(&mut p, &it)?;
        let k = if v & CBIT != 0 { Some(crate::expr::sext(lw.consts[(v & !CBIT) as usize], iw)) } else { None };
        match &*cur {
          Ty::Struct(..) => off += cur.field_off(k.ok_or("gep struct idx")? as u64) as i64,
          Ty::Arr(_, e) | Ty::Vec(_, e) => {
            let s = e.alloc_size() as i64;
            match k {
              Some(k) => off = off.wrapping_add(k.wrapping_mul(s)),
              None => terms.push((v, iw as u8, s)),
            }
          }
          _ => return Err("gep".into()),
        }
        let e = cur.elem(k.unwrap_or(0) as u64);
        cur = e;
      }
      lw.code.push(match terms.len() {
        0 => Op::GepC { d, p: base, off },
        1 => Op::Gep1 { d, p: base, off, i: terms[0].0, iw: terms[0].1, s: terms[0].2 },
        _ => Op::GepN { d, p: base, off, terms: terms.into() },
      });
    }
    "alloca" => {
      skip_flags(&mut p);
      let t = p.ty()?;
      let mut size = t.alloc_size();
      let mut align = t.align() as u32;
      while p.eat(b',') {
        if p.eat_id("align") {
          if let Tok::Int(n) = p.next()? {
            align = *n as u32;
          }
        } else if p.is_ty() {
          let nt = p.ty()?;
          match p.peek() {
            Some(Tok::Int(_)) => size *= p.constant(&nt, lw.g)?[0],
            _ => return Err("dynamic alloca".into()),
          }
        } else {
          break;
        }
      }
      lw.code.push(Op::Alloca { d, size, align: align.max(1) });
    }
    "br" => {
      let t = p.ty()?;
      if *t == Ty::Other {
        if let Tok::Loc(l) = p.next()? {
          let e = mk_edge(lw, l)?;
          lw.code.push(Op::Br { e });
        }
      } else {
        let c = lw.value(&mut p, &t)?;
        p.want(b',')?;
        p.ty()?;
        let Tok::Loc(a) = p.next()? else { return Err("br".into()) };
        p.want(b',')?;
        p.ty()?;
        let Tok::Loc(b) = p.next()? else { return Err("br".into()) };
        let te = mk_edge(lw, a)?;
        let fe = mk_edge(lw, b)?;
        lw.code.push(Op::CondBr { c, t: te, f: fe });
      }
    }
    "switch" => {
      let t = p.ty()?;
      let v = lw.value(&mut p, &t)?;
      let w = match &*t {
        Ty::Int(w) if *w <= 64 => *w as u8,
        _ => return Err("switch type".into()),
      };
      p.want(b',')?;
      p.ty()?;
      let Tok::Loc(dl) = p.next()? else { return Err("switch".into()) };
      let default = mk_edge(lw, dl)?;
      let mut by_label: HashMap<&str, u32> = HashMap::new();
      by_label.insert(dl, default);
      p.want(b'[')?;
      let mut cases = Vec::new();
      while !p.eat(b']') {
        let ct = p.ty()?;
        let k = p.constant(&ct, lw.g)?[0];
        p.want(b',')?;
        p.ty()?;
        let Tok::Loc(l) = p.next()? else { return Err("switch case".into()) };
        let e = match by_label.get(l) {
          Some(e) => *e,
          None => {
            let e = mk_edge(lw, l)?;
            by_label.insert(l, e);
            e
          }
        };
        cases.push((k, e));
      }
      let map = if cases.len() > 6 { cases.iter().cloned().collect() } else { HashMap::new() };
      lw.code.push(Op::Switch(Box::new(SwitchOp { v, w, cases, default, map })));
    }
    "ret" => {
      let t = p.ty()?;
      if *t == Ty::Void {
        lw.code.push(Op::Ret { n: 0, v: 0 });
      } else {
        let v = lw.value(&mut p, &t)?;
        lw.code.push(Op::Ret { n: t.nleaves() as u32, v });
      }
    }
    "unreachable" => lw.code.push(Op::Unreachable),
    "resume" | "landingpad" => lw.code.push(Op::Unsupported("unwinding".into())),
    "fence" => {}
    "extractvalue" => {
      let t = p.ty()?;
      let a = lw.value(&mut p, &t)?;
      let mut path = Vec::new();
      while p.eat(b',') {
        if let Some(Tok::Int(n)) = p.peek() {
          path.push(*n as u64);
          p.i += 1;
        } else {
          break;
        }
      }
      let (o, st) = t.sub(&path);
      if a + o as u32 != d {
        lw.code.push(Op::Copy { n: st.nleaves() as u32, d, a: a + o as u32 });
      }
    }
    "insertvalue" => {
      let (t, a) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, e) = lw.tyval(&mut p)?;
      let mut path = Vec::new();
      while p.eat(b',') {
        if let Some(Tok::Int(n)) = p.peek() {
          path.push(*n as u64);
          p.i += 1;
        } else {
          break;
        }
      }
      let (o, st) = t.sub(&path);
      lw.code.push(Op::Copy { n: t.nleaves() as u32, d, a });
      lw.code.push(Op::Copy { n: st.nleaves() as u32, d: d + o as u32, a: e });
    }
    "insertelement" => {
      let (t, a) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (et, e) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, i) = lw.tyval(&mut p)?;
      if i & CBIT == 0 {
        return Err("dynamic insertelement".into());
      }
      let i = lw.consts[(i & !CBIT) as usize] as u32;
      let n = et.nleaves() as u32;
      lw.code.push(Op::Copy { n: t.nleaves() as u32, d, a });
      lw.code.push(Op::Copy { n, d: d + i * n, a: e });
    }
    "extractelement" => {
      let (t, a) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, i) = lw.tyval(&mut p)?;
      if i & CBIT == 0 {
        return Err("dynamic extractelement".into());
      }
      let i = lw.consts[(i & !CBIT) as usize] as u32;
      let n = t.elem(0).nleaves() as u32;
      lw.code.push(Op::Copy { n, d, a: a + i * n });
    }
    "shufflevector" => {
      let (t, a) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, b) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let mt = p.ty()?;
      let mv = p.constant(&mt, lw.g)?;
      let n = t.elem(0).nleaves() as u32;
      let len = t.nleaves() as u32 / n;
      for (j, k) in mv.iter().enumerate() {
        let k = *k as u32;
        let src = if k < len { a + k * n } else { b + (k - len).min(len - 1) * n };
        lw.code.push(Op::Copy { n, d: d + j as u32 * n, a: src });
      }
    }
    "atomicrmw" => {
      skip_flags(&mut p);
      let o = match p.id()? {
        "xchg" => 0,
        "add" => 1,
        "sub" => 2,
        "and" => 3,
        "or" => 4,
        "xor" => 5,
        "umax" => 6,
        "umin" => 7,
        s => return Err(format!("atomicrmw {}", s)),
      };
      let (_, ptr) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (t, v) = lw.tyval(&mut p)?;
      lw.code.push(Op::AtomicRmw { op: o, d, p: ptr, v, bits: t.bits() as u8 });
    }
    "cmpxchg" => {
      skip_flags(&mut p);
      let (_, ptr) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (t, c) = lw.tyval(&mut p)?;
      p.want(b',')?;
      let (_, n) = lw.tyval(&mut p)?;
      lw.code.push(Op::CmpXchg { d, p: ptr, c, n, bits: t.bits() as u8 });
    }
    "call" | "invoke" => lower_call(lw, op, &mut p, d, &rty, mk_edge)?,
    _ => return Err(format!("instruction {}", op)),
  }
  Ok(())
}

fn lower_call<'m, 'a>(
  lw: &mut Lower<'m, 'a>,
  op: &str,
  p: &mut P<'_>,
  d: u32,
  rty: &Rc<Ty>,
  mk_edge: &mut dyn FnMut(&mut Lower, &str) -> R<u32>,
) -> R<()> {
  let rt = call_prefix(p)?;
  let _ = rty;
  let mut asm = None;
  let mut target = None;
  let mut name = "";
  match p.next()? {
    Tok::Glob(n) => name = n,
    Tok::Loc(n) => target = Some(Target::Ptr(lw.vals.get(n).ok_or("callee")?.0)),
    Tok::Id("asm") => {
      while let Some(Tok::Id(_)) = p.peek() {
        p.i += 1;
      }
      let Tok::Str(s) = p.next()? else { return Err("asm".into()) };
      asm = Some(s.clone());
      p.want(b',')?;
      p.next()?;
    }
    t => {
      return Err(format!("callee {:?}", t));
    }
  }
  p.want(b'(')?;
  let mut args: Vec<u32> = Vec::new();
  let mut aw: Vec<u8> = Vec::new();
  let mut atys: Vec<Rc<Ty>> = Vec::new();
  let mut abase: Vec<u32> = Vec::new();
  if !p.eat(b')') {
    loop {
      let t = p.ty()?;
      if *t == Ty::Other {
        // metadata argument
        let mut depth = 0;
        loop {
          match p.peek() {
            Some(Tok::P(b'(')) => depth += 1,
            Some(Tok::P(b')')) if depth == 0 => break,
            Some(Tok::P(b')')) => depth -= 1,
            Some(Tok::P(b',')) if depth == 0 => break,
            None => return Err("metadata arg".into()),
            _ => {}
          }
          p.i += 1;
        }
      } else {
        p.attrs(true)?;
        let v = lw.value(p, &t)?;
        let ls = t.leaves();
        abase.push(v);
        for (i, l) in ls.iter().enumerate() {
          args.push(v + i as u32);
          aw.push(l.bits);
        }
        atys.push(t);
      }
      if p.eat(b')') {
        break;
      }
      p.want(b',')?;
    }
  }
  let nret = rt.nleaves() as u32;
  let mut done = false;
  if let Some(s) = asm {
    if !s.is_empty() {
      lw.code.push(Op::Unsupported("inline asm".into()));
    }
    done = true;
  }
  if !done && name.starts_with("llvm.") {
    lower_intrinsic(lw, name, &args, &aw, &atys, d, &rt)?;
    done = true;
  }
  if !done {
    let target = match target {
      Some(t) => t,
      None => {
        let id = *lw.fns.get(name).ok_or_else(|| format!("unknown function {}", name))?;
        match lw.exts[id as usize] {
          Some(e) => Target::Ext(e),
          None => Target::Func(id),
        }
      }
    };
    lw.code.push(Op::Call(Box::new(CallOp { target, args, d, nret, aw })));
  }
  if op == "invoke" {
    // normal destination
    while !p.eat_id("to") {
      p.next()?;
    }
    p.ty()?;
    let Tok::Loc(l) = p.next()? else { return Err("invoke".into()) };
    let e = mk_edge(lw, l)?;
    lw.code.push(Op::Br { e });
  }
  Ok(())
}

fn lower_intrinsic(
  lw: &mut Lower,
  name: &str,
  args: &[u32],
  aw: &[u8],
  atys: &[Rc<Ty>],
  d: u32,
  rt: &Rc<Ty>,
) -> R<()> {
  let base = &name[5..];
  let w = aw.first().copied().unwrap_or(0);
  let n = atys.first().map_or(1, |t| if let Ty::Vec(n, _) = &**t { *n as u32 } else { 1 });
  let starts = |s: &str| base.starts_with(s);
  let nop = [
    "lifetime.", "assume", "experimental.noalias", "dbg.", "donothing", "x86.sse2.pause", "invariant.", "sideeffect",
    "prefetch", "va_end",
  ];
  if nop.iter().any(|s| starts(s)) {
    return Ok(());
  }
  if starts("trap") || starts("debugtrap") || starts("ubsantrap") {
    lw.code.push(Op::Call(Box::new(CallOp { target: Target::Ext(Ext::Abort), args: vec![], d, nret: 0, aw: vec![] })));
    return Ok(());
  }
  if starts("expect") || starts("launder") || starts("strip") || starts("ssa.copy") || starts("ptrmask") {
    if starts("ptrmask") {
      lw.code.push(Op::Bin { op: crate::expr::AND, w: 64, d, a: args[0], b: args[1] });
    } else {
      lw.code.push(Op::Copy { n: 1, d, a: args[0] });
    }
    return Ok(());
  }
  if starts("is.constant") {
    let z = lw.kon(&[0]);
    lw.code.push(Op::Copy { n: 1, d, a: z });
    return Ok(());
  }
  if starts("objectsize") {
    let z = lw.kon(&[u64::MAX]);
    lw.code.push(Op::Copy { n: 1, d, a: z });
    return Ok(());
  }
  if starts("threadlocal.address") {
    lw.code.push(Op::TlsAddr { d, p: args[0] });
    return Ok(());
  }
  let k = if starts("memcpy") || starts("memmove") {
    IK::Memcpy
  } else if starts("memset") {
    IK::Memset
  } else if starts("umin") {
    IK::Umin
  } else if starts("umax") {
    IK::Umax
  } else if starts("smin") {
    IK::Smin
  } else if starts("smax") {
    IK::Smax
  } else if starts("ucmp") {
    IK::Ucmp
  } else if starts("scmp") {
    IK::Scmp
  } else if starts("uadd.sat") {
    IK::UaddSat
  } else if starts("usub.sat") {
    IK::UsubSat
  } else if starts("sadd.sat") {
    IK::SaddSat
  } else if starts("ssub.sat") {
    IK::SsubSat
  } else if starts("uadd.with") {
    IK::UaddO
  } else if starts("usub.with") {
    IK::UsubO
  } else if starts("umul.with") {
    IK::UmulO
  } else if starts("sadd.with") {
    IK::SaddO
  } else if starts("ssub.with") {
    IK::SsubO
  } else if starts("smul.with") {
    IK::SmulO
  } else if starts("ctlz") {
    IK::Ctlz
  } else if starts("cttz") {
    IK::Cttz
  } else if starts("ctpop") {
    IK::Ctpop
  } else if starts("bswap") {
    IK::Bswap
  } else if starts("bitreverse") {
    IK::Bitrev
  } else if starts("fshl") {
    IK::Fshl
  } else if starts("fshr") {
    IK::Fshr
  } else if starts("abs") {
    IK::Abs
  } else {
    // vector reductions
    let red = [
      ("vector.reduce.or", crate::expr::OR),
      ("vector.reduce.and", crate::expr::AND),
      ("vector.reduce.add", crate::expr::ADD),
      ("vector.reduce.xor", crate::expr::XOR),
    ];
    for (s, o) in red {
      if starts(s) {
        lw.code.push(Op::Copy { n: 1, d, a: args[0] });
        for i in 1..n {
          lw.code.push(Op::Bin { op: o, w, d, a: d, b: args[0] + i });
        }
        return Ok(());
      }
    }
    return Err(format!("intrinsic {}", name));
  };
  if n > 1 {
    if matches!(k, IK::Umin | IK::Umax | IK::Smin | IK::Smax | IK::UaddSat | IK::UsubSat | IK::SaddSat | IK::SsubSat | IK::Ctpop) {
      for i in 0..n {
        let b = if atys.len() > 1 { args[(n + i) as usize] } else { 0 };
        lw.code.push(Op::Intr { k, w, d: d + i, a: args[i as usize], b, c: 0 });
      }
      return Ok(());
    }
    return Err(format!("vector intrinsic {}", name));
  }
  if aw.len() > 1 && matches!(&*atys[0], Ty::Int(x) if *x > 64) {
    return Err(format!("wide intrinsic {}", name));
  }
  let g = |i: usize| args.get(i).copied().unwrap_or(CBIT);
  // ucmp/scmp: the result width travels in c
  let c = if matches!(k, IK::Ucmp | IK::Scmp) { rt.bits() as u32 } else { g(2) };
  lw.code.push(Op::Intr { k, w, d, a: g(0), b: g(1), c });
  Ok(())
}
