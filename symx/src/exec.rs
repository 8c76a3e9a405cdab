//! Concolic interpreter: runs the register code concretely under a model and,
//! alongside, tracks a bit-vector expression for every value that depends on a
//! symbolic input.  Every decision that depends on one is recorded as an event.

use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Default, PartialEq)]
pub struct Slot {
  pub v: u64,
  pub e: u32,
}

#[inline]
fn cs(v: u64) -> Slot {
  Slot { v, e: 0 }
}

#[derive(Clone, Debug)]
pub enum Alts {
  None,
  One(u32),
  Many(Vec<u32>),
  /// concretised value of an expression
  Val(u32, u64),
}

#[derive(Clone, Debug)]
pub struct Ev {
  /// constraint that holds on this path from here on
  pub c: u32,
  pub alts: Alts,
  /// program location: (function, block)
  pub blk: u32,
}

#[derive(Debug, Clone)]
pub enum Stop {
  Done,
  ExpectedPanic,
  AssumeFalse,
  Violation(String, String),
  Error(String),
  Limit,
}

#[derive(Clone, Copy)]
struct Frame {
  func: u32,
  pc: u32,
  base: u32,
  ret_d: u32,
  sp: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
  Run,
  Futex(u64),
  Join,
  Done,
}

struct Thread {
  regs: Vec<Slot>,
  frames: Vec<Frame>,
  sp: u64,
  stack_end: u64,
  tls: u64,
  status: Status,
}

pub struct Config {
  pub entry: u32,
  pub max_instr: u64,
  pub max_depth: usize,
  pub preemptions: u32,
  pub heap_mb: usize,
}

const STACK: u64 = 4 << 20;
const TSTACK: u64 = 512 << 10;
const MAXT: usize = 4;
const GR: u32 = 8; // shadow flag granule (log2 bytes)

pub struct Exec<'m> {
  pub m: &'m Module,
  pub cfg: &'m Config,
  pub pool: Pool,
  mem: Vec<u8>,
  shadow: Vec<u32>,
  flags: Vec<u8>,
  flagged: Vec<u32>,
  heap_base: u64,
  heap_top: u64,
  free: HashMap<u64, Vec<u64>>,
  sizes: Vec<u32>,
  stack_base: u64,
  stack_hw: u64,
  tls_base: u64,
  scratch: u64,
  // current thread
  t: Thread,
  cur: usize,
  threads: Vec<Option<Thread>>,
  preempt_left: u32,
  // path
  pub model: Vec<u64>,
  pub vars: Vec<(u32, u64, u64, u64)>,
  pub events: Vec<Ev>,
  known: HashMap<u32, bool>,
  pub observed: Vec<u64>,
  pub covers: BTreeSet<String>,
  expect_panic: bool,
  pub instrs: u64,
  pub cov: Vec<u8>,
  pub cur_blk: u32,
  tmp: Vec<Slot>,
  pub used_threads: bool,
}

type X<T> = Result<T, Box<Stop>>;

fn err<T>(s: impl Into<String>) -> X<T> {
  Err(Box::new(Stop::Error(s.into())))
}

impl<'m> Exec<'m> {
  pub fn new(m: &'m Module, cfg: &'m Config) -> Exec<'m> {
    let gend = GLOBAL_BASE + m.image.len() as u64;
    let tls_len = m.tls.1 - m.tls.0;
    let tls_base = align_up(gend, 4096);
    let scratch = align_up(tls_base + tls_len * MAXT as u64, 4096);
    let stack_base = scratch + 4096;
    let heap_base = stack_base + STACK + TSTACK * MAXT as u64;
    let total = heap_base as usize + (cfg.heap_mb << 20);
    let mut mem = vec![0u8; total];
    mem[GLOBAL_BASE as usize..gend as usize].copy_from_slice(&m.image);
    Exec {
      m,
      cfg,
      pool: Pool::new(),
      mem,
      shadow: vec![0u32; total],
      flags: vec![0u8; (total >> GR) + 2],
      flagged: Vec::new(),
      heap_base,
      heap_top: heap_base,
      free: HashMap::new(),
      sizes: vec![0; (cfg.heap_mb << 20) / 16],
      stack_base,
      stack_hw: stack_base,
      tls_base,
      scratch,
      t: Thread { regs: Vec::new(), frames: Vec::new(), sp: 0, stack_end: 0, tls: 0, status: Status::Run },
      cur: 0,
      threads: Vec::new(),
      preempt_left: 0,
      model: Vec::new(),
      vars: Vec::new(),
      events: Vec::new(),
      known: HashMap::new(),
      observed: Vec::new(),
      covers: BTreeSet::new(),
      expect_panic: false,
      instrs: 0,
      cov: vec![0; m.nblocks as usize],
      cur_blk: 0,
      tmp: Vec::new(),
      used_threads: false,
    }
  }

  fn reset(&mut self) {
    let hb = self.heap_base as usize;
    let ht = self.heap_top as usize;
    self.mem[hb..ht].fill(0);
    self.sizes[..(ht - hb) / 16 + 1].fill(0);
    let sb = self.stack_base as usize;
    let sh = (self.stack_hw as usize).max(sb);
    self.mem[sb..sh].fill(0);
    if self.used_threads {
      let a = (self.stack_base + STACK) as usize;
      self.mem[a..hb].fill(0);
    }
    let ce = self.m.const_end as usize;
    let ge = GLOBAL_BASE as usize + self.m.image.len();
    self.mem[ce..ge].copy_from_slice(&self.m.image[ce - GLOBAL_BASE as usize..]);
    for &g in &self.flagged {
      self.flags[g as usize] = 0;
      let a = (g as usize) << GR;
      let b = (a + (1 << GR)).min(self.shadow.len());
      self.shadow[a..b].fill(0);
    }
    self.flagged.clear();
    self.heap_top = self.heap_base;
    self.free.clear();
    self.stack_hw = self.stack_base;
    self.threads.clear();
    self.cur = 0;
    self.preempt_left = self.cfg.preemptions;
    self.used_threads = false;
    self.t.regs.clear();
    self.t.frames.clear();
    self.t.sp = self.stack_base;
    self.t.stack_end = self.stack_base + STACK;
    self.t.tls = self.m.tls.0;
    self.t.status = Status::Run;
    self.vars.clear();
    self.events.clear();
    self.known.clear();
    self.observed.clear();
    self.covers.clear();
    self.expect_panic = false;
    self.instrs = 0;
  }

  // ---- memory ----

  #[inline]
  fn chk(&self, a: u64, n: u64) -> X<()> {
    if a < GLOBAL_BASE || a.wrapping_add(n) > self.heap_top.max(self.heap_base) || a.wrapping_add(n) < a {
      return Err(Box::new(Stop::Violation("memory".into(), format!("access to invalid address {:#x} ({} bytes)", a, n))));
    }
    Ok(())
  }

  #[inline]
  fn raw(&self, a: u64, nb: u64) -> u64 {
    let a = a as usize;
    unsafe {
      let p = self.mem.as_ptr().add(a);
      match nb {
        1 => *p as u64,
        2 => (p as *const u16).read_unaligned() as u64,
        4 => (p as *const u32).read_unaligned() as u64,
        8 => (p as *const u64).read_unaligned(),
        _ => {
          let mut v = 0u64;
          for i in 0..nb as usize {
            v |= (*p.add(i) as u64) << (8 * i);
          }
          v
        }
      }
    }
  }

  #[inline]
  fn has_sym(&self, a: u64, nb: u64) -> bool {
    if nb == 0 {
      return false;
    }
    let (g0, g1) = ((a >> GR) as usize, ((a + nb - 1) >> GR) as usize);
    let mut any = false;
    for g in g0..=g1 {
      any |= self.flags[g] != 0;
    }
    any && self.shadow[a as usize..(a + nb) as usize].iter().any(|s| *s != 0)
  }

  #[inline]
  fn load(&mut self, a: u64, bits: u8) -> X<Slot> {
    let nb = (bits as u64 + 7) / 8;
    self.chk(a, nb)?;
    let v = self.raw(a, nb);
    let m = mask(bits as u32);
    if self.flags[(a >> GR) as usize] | self.flags[((a + nb - 1) >> GR) as usize] != 0 && self.has_sym(a, nb) {
      return Ok(self.load_sym(a, nb, bits, v & m));
    }
    Ok(cs(v & m))
  }

  fn byte_expr(&mut self, sh: u32) -> u32 {
    let (e, i) = (sh >> 3, sh & 7);
    self.pool.extract(e, i * 8, 8)
  }

  #[cold]
  fn load_sym(&mut self, a: u64, nb: u64, bits: u8, v: u64) -> Slot {
    let s0 = self.shadow[a as usize];
    // whole expression
    let mut e = 0;
    if s0 != 0 && s0 & 7 == 0 {
      let x = s0 >> 3;
      let w = self.pool.w(x) as u64;
      if w >= nb * 8 && (1..nb).all(|i| self.shadow[(a + i) as usize] == (x << 3 | i as u32)) {
        e = self.pool.extract(x, 0, nb as u32 * 8);
      }
    }
    if e == 0 {
      for i in 0..nb {
        let sh = self.shadow[(a + i) as usize];
        let b = if sh == 0 {
          let c = self.mem[(a + i) as usize] as u64;
          self.pool.cst(8, c)
        } else {
          self.byte_expr(sh)
        };
        e = if i == 0 { b } else { self.pool.concat(b, e) };
      }
    }
    if (bits as u64) < nb * 8 {
      e = self.pool.extract(e, 0, bits as u32);
    }
    self.fin(v, e)
  }

  #[inline]
  fn fin(&self, v: u64, e: u32) -> Slot {
    if let Some(k) = self.pool.is_const(e) {
      debug_assert_eq!(k, v);
      cs(v)
    } else {
      Slot { v, e }
    }
  }

  #[inline]
  fn store(&mut self, a: u64, bits: u8, s: Slot) -> X<()> {
    let nb = (bits as u64 + 7) / 8;
    self.chk(a, nb)?;
    if a < self.m.const_end {
      return Err(Box::new(Stop::Violation("memory".into(), format!("store to constant memory {:#x}", a))));
    }
    unsafe {
      let p = self.mem.as_mut_ptr().add(a as usize);
      match nb {
        1 => *p = s.v as u8,
        2 => (p as *mut u16).write_unaligned(s.v as u16),
        4 => (p as *mut u32).write_unaligned(s.v as u32),
        8 => (p as *mut u64).write_unaligned(s.v),
        _ => {
          for i in 0..nb as usize {
            *p.add(i) = (s.v >> (8 * i)) as u8;
          }
        }
      }
    }
    if s.e != 0 {
      let mut e = s.e;
      if (bits as u64) < nb * 8 {
        e = self.pool.zext(e, nb as u32 * 8);
      }
      self.flag(a, nb);
      for i in 0..nb {
        self.shadow[(a + i) as usize] = e << 3 | i as u32;
      }
    } else if self.flags[(a >> GR) as usize] | self.flags[((a + nb - 1) >> GR) as usize] != 0 {
      self.shadow[a as usize..(a + nb) as usize].fill(0);
    }
    Ok(())
  }

  fn flag(&mut self, a: u64, nb: u64) {
    for g in (a >> GR)..=((a + nb - 1) >> GR) {
      if self.flags[g as usize] == 0 {
        self.flags[g as usize] = 1;
        self.flagged.push(g as u32);
      }
    }
  }

  fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
    if n == 0 || d == s {
      return Ok(());
    }
    self.chk(d, n)?;
    self.chk(s, n)?;
    self.mem.copy_within(s as usize..(s + n) as usize, d as usize);
    let any = |f: &[u8], a: u64| f[(a >> GR) as usize..=((a + n - 1) >> GR) as usize].iter().any(|x| *x != 0);
    let (ss, ds) = (any(&self.flags, s), any(&self.flags, d));
    if ss {
      self.flag(d, n);
      self.shadow.copy_within(s as usize..(s + n) as usize, d as usize);
    } else if ds {
      self.shadow[d as usize..(d + n) as usize].fill(0);
    }
    Ok(())
  }

  fn malloc(&mut self, size: u64, align: u64) -> X<u64> {
    let sz = align_up(size.max(1), 16);
    if align <= 16 {
      if let Some(v) = self.free.get_mut(&sz) {
        if let Some(a) = v.pop() {
          return Ok(a);
        }
      }
    }
    let a = align_up(self.heap_top, align.max(16));
    if a + sz > self.mem.len() as u64 - 64 || sz > 1 << 30 {
      return err(format!("heap exhausted by a request of {} bytes", size));
    }
    self.heap_top = a + sz;
    self.sizes[((a - self.heap_base) / 16) as usize] = (sz / 16) as u32;
    Ok(a)
  }

  fn dealloc(&mut self, a: u64) -> X<()> {
    if a == 0 {
      return Ok(());
    }
    let i = (a.wrapping_sub(self.heap_base) / 16) as usize;
    if a < self.heap_base || i >= self.sizes.len() || self.sizes[i] == 0 {
      return Err(Box::new(Stop::Violation("memory".into(), format!("free of invalid pointer {:#x}", a))));
    }
    let sz = self.sizes[i] as u64 * 16;
    self.free.entry(sz).or_default().push(a);
    Ok(())
  }

  fn cstr(&self, p: u64, n: u64) -> String {
    if self.chk(p, n).is_err() {
      return "?".into();
    }
    String::from_utf8_lossy(&self.mem[p as usize..(p + n) as usize]).into_owned()
  }

  // ---- path events ----

  fn known_val(&self, e: u32, depth: u32) -> Option<bool> {
    if let Some(b) = self.known.get(&e) {
      return Some(*b);
    }
    let x = self.pool.get(e);
    match x.op {
      CONST => Some(x.k == 1),
      NOT => self.known_val(x.a, depth).map(|b| !b),
      AND if depth > 0 => match (self.known_val(x.a, depth - 1), self.known_val(x.b, depth - 1)) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
      },
      OR if depth > 0 => match (self.known_val(x.a, depth - 1), self.known_val(x.b, depth - 1)) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
      },
      _ => None,
    }
  }

  fn learn(&mut self, e: u32, b: bool) {
    let x = self.pool.get(e);
    if x.op == NOT {
      return self.learn(x.a, !b);
    }
    if self.known.insert(e, b).is_some() {
      return;
    }
    if x.op == AND && b || x.op == OR && !b {
      self.learn(x.a, b);
      self.learn(x.b, b);
    }
    // x == k decides orderings against neighbours often enough to be worth it:
    // equalities between the same terms imply not-less-than both ways.
    if x.op == EQ && b && self.pool.get(x.a).w > 1 {
      let l = self.pool.cmp(ULT, x.a, x.b);
      if self.pool.is_const(l).is_none() {
        self.known.insert(l, false);
      }
      let g = self.pool.cmp(ULT, x.b, x.a);
      if self.pool.is_const(g).is_none() {
        self.known.insert(g, false);
      }
    }
    if x.op == ULT && b {
      let q = self.pool.cmp(EQ, x.a, x.b);
      let g = self.pool.cmp(ULT, x.b, x.a);
      for z in [q, g] {
        let y = self.pool.get(z);
        if y.op == NOT {
          self.known.insert(y.a, true);
        } else if y.op != CONST {
          self.known.insert(z, false);
        }
      }
    }
  }

  fn decide(&mut self, e: u32, v: bool, flip: bool) {
    if self.known_val(e, 3).is_some() {
      return;
    }
    let ne = self.pool.not(e);
    let (c, o) = if v { (e, ne) } else { (ne, e) };
    self.learn(e, v);
    self.events.push(Ev { c, alts: if flip { Alts::One(o) } else { Alts::None }, blk: self.cur_blk });
  }

  #[inline]
  fn branch(&mut self, s: Slot) -> bool {
    if s.e != 0 {
      self.decide(s.e, s.v == 1, true);
    }
    s.v == 1
  }

  fn concretize(&mut self, s: Slot) -> u64 {
    if s.e != 0 {
      let w = self.pool.w(s.e);
      let k = self.pool.cst(w, s.v);
      let c = self.pool.cmp(EQ, s.e, k);
      if self.known_val(c, 3).is_none() {
        self.learn(c, true);
        self.events.push(Ev { c, alts: Alts::Val(s.e, s.v), blk: self.cur_blk });
      }
    }
    s.v
  }

  fn fresh(&mut self, lo: u64, hi: u64) -> Slot {
    let ord = self.vars.len();
    let v = match self.model.get(ord) {
      Some(v) if *v >= lo && *v <= hi => *v,
      _ => lo,
    };
    let w = if hi < 256 {
      8
    } else if hi < 65536 {
      16
    } else if hi < 1 << 32 {
      32
    } else {
      64
    };
    let x = self.pool.var(ord as u32, w, lo, hi);
    self.vars.push((x, lo, hi, v));
    Slot { v, e: x }
  }

  // ---- symbolic operators ----

  #[inline]
  fn ex(&mut self, s: Slot, w: u32) -> u32 {
    if s.e != 0 {
      s.e
    } else {
      self.pool.cst(w, s.v)
    }
  }

  #[cold]
  fn sym_bin(&mut self, op: u8, w: u32, a: Slot, b: Slot, v: u64) -> Slot {
    let x = self.ex(a, w);
    let y = self.ex(b, w);
    let e = self.pool.bin(op, w, x, y);
    self.fin(v, e)
  }

  #[cold]
  fn sym_cmp(&mut self, p: u8, w: u32, a: Slot, b: Slot, v: bool) -> Slot {
    let x = self.ex(a, w);
    let y = self.ex(b, w);
    let e = match p {
      0 => self.pool.cmp(EQ, x, y),
      1 => {
        let e = self.pool.cmp(EQ, x, y);
        self.pool.not(e)
      }
      2 => self.pool.cmp(ULT, x, y),
      3 => {
        let e = self.pool.cmp(ULT, y, x);
        self.pool.not(e)
      }
      4 => self.pool.cmp(ULT, y, x),
      5 => {
        let e = self.pool.cmp(ULT, x, y);
        self.pool.not(e)
      }
      6 => self.pool.cmp(SLT, x, y),
      7 => {
        let e = self.pool.cmp(SLT, y, x);
        self.pool.not(e)
      }
      8 => self.pool.cmp(SLT, y, x),
      _ => {
        let e = self.pool.cmp(SLT, x, y);
        self.pool.not(e)
      }
    };
    self.fin(v as u64, e)
  }

  #[inline]
  fn cmp_concrete(p: u8, w: u32, a: u64, b: u64) -> bool {
    match p {
      0 => a == b,
      1 => a != b,
      2 => a < b,
      3 => a <= b,
      4 => a > b,
      5 => a >= b,
      6 => sext(a, w) < sext(b, w),
      7 => sext(a, w) <= sext(b, w),
      8 => sext(a, w) > sext(b, w),
      _ => sext(a, w) >= sext(b, w),
    }
  }

  fn sel(&mut self, c: Slot, w: u32, a: Slot, b: Slot) -> Slot {
    let v = if c.v == 1 { a } else { b };
    if c.e == 0 || a == b {
      return v;
    }
    if let Some(k) = self.known_val(c.e, 2) {
      return if k { a } else { b };
    }
    let x = self.ex(a, w);
    let y = self.ex(b, w);
    let e = self.pool.ite(c.e, x, y);
    self.fin(v.v, e)
  }

  fn do_bin(&mut self, op: u8, w: u32, a: Slot, b: Slot) -> Slot {
    let v = bin_val(op, w, a.v, b.v);
    if a.e | b.e == 0 {
      cs(v)
    } else {
      self.sym_bin(op, w, a, b, v)
    }
  }

  fn do_cmp(&mut self, p: u8, w: u32, a: Slot, b: Slot) -> Slot {
    let v = Self::cmp_concrete(p, w, a.v, b.v);
    if a.e | b.e == 0 {
      cs(v as u64)
    } else {
      self.sym_cmp(p, w, a, b, v)
    }
  }

  fn umax(&self, s: Slot) -> u64 {
    if s.e == 0 {
      s.v
    } else {
      self.pool.umax(s.e)
    }
  }

  /// returns (result, overflow flag)
  fn intr(&mut self, k: IK, w: u32, a: Slot, b: Slot, c: Slot, craw: u32) -> X<(Slot, Option<Slot>)> {
    let m = mask(w);
    Ok(match k {
      IK::Umin => {
        let l = self.do_cmp(2, w, a, b);
        (self.sel(l, w, a, b), None)
      }
      IK::Umax => {
        let l = self.do_cmp(2, w, b, a);
        (self.sel(l, w, a, b), None)
      }
      IK::Smin => {
        let l = self.do_cmp(6, w, a, b);
        (self.sel(l, w, a, b), None)
      }
      IK::Smax => {
        let l = self.do_cmp(6, w, b, a);
        (self.sel(l, w, a, b), None)
      }
      IK::Ucmp | IK::Scmp => {
        let rw = craw;
        let l = self.do_cmp(if k == IK::Ucmp { 2 } else { 6 }, w, a, b);
        let q = self.do_cmp(0, w, a, b);
        let r = self.sel(q, rw, cs(0), cs(1));
        (self.sel(l, rw, cs(mask(rw)), r), None)
      }
      IK::UaddSat | IK::UaddO => {
        let s = self.do_bin(ADD, w, a, b);
        let fits = self.umax(a).checked_add(self.umax(b)).map_or(false, |x| x <= m);
        let o = if fits { cs(0) } else { self.do_cmp(2, w, s, a) };
        if k == IK::UaddSat {
          (self.sel(o, w, cs(m), s), None)
        } else {
          (s, Some(o))
        }
      }
      IK::UsubSat | IK::UsubO => {
        let s = self.do_bin(SUB, w, a, b);
        let o = self.do_cmp(2, w, a, b);
        if k == IK::UsubSat {
          (self.sel(o, w, cs(0), s), None)
        } else {
          (s, Some(o))
        }
      }
      IK::UmulO => {
        let fits = self.umax(a).checked_mul(self.umax(b)).map_or(false, |x| x <= m);
        let (a, b) = if fits { (a, b) } else { (cs(self.concretize(a)), cs(self.concretize(b))) };
        let s = self.do_bin(MUL, w, a, b);
        let o = if fits { cs(0) } else { cs((a.v as u128 * b.v as u128 > m as u128) as u64) };
        (s, Some(o))
      }
      IK::SaddO | IK::SsubO | IK::SaddSat | IK::SsubSat => {
        let add = matches!(k, IK::SaddO | IK::SaddSat);
        let s = self.do_bin(if add { ADD } else { SUB }, w, a, b);
        let z = cs(0);
        let (na, nb, ns) = (self.do_cmp(6, w, a, z), self.do_cmp(6, w, b, z), self.do_cmp(6, w, s, z));
        let x = self.do_bin(XOR, 1, na, nb);
        let x = if add { self.do_bin(XOR, 1, x, cs(1)) } else { x };
        let y = self.do_bin(XOR, 1, na, ns);
        let o = self.do_bin(AND, 1, x, y);
        if matches!(k, IK::SaddSat | IK::SsubSat) {
          let lim = self.sel(na, w, cs(1 << (w - 1)), cs(m >> 1));
          (self.sel(o, w, lim, s), None)
        } else {
          (s, Some(o))
        }
      }
      IK::SmulO => {
        let (x, y) = (sext(self.concretize(a), w) as i128, sext(self.concretize(b), w) as i128);
        let r = x * y;
        let v = r as u64 & m;
        (cs(v), Some(cs((sext(v, w) as i128 != r) as u64)))
      }
      IK::Ctlz | IK::Cttz => {
        if a.e == 0 {
          let v = if a.v == 0 {
            w as u64
          } else if k == IK::Ctlz {
            a.v.leading_zeros() as u64 - (64 - w as u64)
          } else {
            a.v.trailing_zeros() as u64
          };
          (cs(v), None)
        } else {
          let mut r = cs(w as u64);
          for i in 0..w {
            // innermost first: for cttz the lowest set bit wins (outermost)
            let bit = if k == IK::Cttz { w - 1 - i } else { i };
            let be = self.pool.extract(a.e, bit, 1);
            let bs = self.fin(a.v >> bit & 1, be);
            let val = if k == IK::Cttz { bit } else { w - 1 - bit };
            r = self.sel(bs, w, cs(val as u64), r);
          }
          (r, None)
        }
      }
      IK::Ctpop => {
        if a.e == 0 {
          (cs(a.v.count_ones() as u64), None)
        } else {
          let mut r = cs(0);
          for i in 0..w {
            let be = self.pool.extract(a.e, i, 1);
            let be = self.pool.zext(be, w);
            let bs = self.fin(a.v >> i & 1, be);
            r = self.do_bin(ADD, w, r, bs);
          }
          (r, None)
        }
      }
      IK::Bswap => {
        let v = a.v.swap_bytes() >> (64 - w);
        if a.e == 0 {
          (cs(v), None)
        } else {
          let mut e = self.pool.extract(a.e, 0, 8);
          for i in 1..w / 8 {
            let b = self.pool.extract(a.e, i * 8, 8);
            e = self.pool.concat(e, b);
          }
          (self.fin(v, e), None)
        }
      }
      IK::Bitrev => {
        let v = self.concretize(a);
        (cs(v.reverse_bits() >> (64 - w)), None)
      }
      IK::Fshl | IK::Fshr => {
        let s = (self.concretize(c) % w as u64) as u64;
        let s = if k == IK::Fshr { (w as u64 - s) % w as u64 } else { s };
        if s == 0 {
          return Ok((if k == IK::Fshr { b } else { a }, None));
        }
        let h = self.do_bin(SHL, w, a, cs(s));
        let l = self.do_bin(LSHR, w, b, cs(w as u64 - s));
        (self.do_bin(OR, w, h, l), None)
      }
      IK::Abs => {
        let n = self.do_cmp(6, w, a, cs(0));
        let neg = self.do_bin(SUB, w, cs(0), a);
        (self.sel(n, w, neg, a), None)
      }
      IK::Memcpy | IK::Memset => unreachable!(),
    })
  }

  // ---- running ----

  fn push_frame(&mut self, func: u32, ret_d: u32) -> X<()> {
    let f = &self.m.funcs[func as usize];
    if f.code.is_empty() {
      return err(format!("call of undefined function {}", f.name));
    }
    if self.t.frames.len() >= self.cfg.max_depth {
      return Err(Box::new(Stop::Violation("recursion".into(), "call depth limit exceeded".into())));
    }
    let base = match self.t.frames.last() {
      Some(fr) => fr.base + self.m.funcs[fr.func as usize].nregs,
      None => 0,
    };
    let need = (base + f.nregs) as usize;
    if self.t.regs.len() < need {
      self.t.regs.resize(need + 1024, Slot::default());
    }
    self.t.frames.push(Frame { func, pc: 0, base, ret_d, sp: self.t.sp });
    self.cov[f.entry_blk as usize] = 1;
    self.cur_blk = f.entry_blk;
    Ok(())
  }

  pub fn backtrace(&self) -> Vec<String> {
    self.t.frames.iter().rev().take(24).map(|f| self.m.funcs[f.func as usize].name.clone()).collect()
  }

  /// Run one path under `model`.
  pub fn run(&mut self, model: &[u64]) -> Stop {
    self.reset();
    self.model.clear();
    self.model.extend_from_slice(model);
    if let Err(s) = self.push_frame(self.cfg.entry, 0) {
      return *s;
    }
    match self.steps() {
      Ok(()) => Stop::Done,
      Err(s) => *s,
    }
  }

  fn steps(&mut self) -> X<()> {
    let m = self.m;
    'frame: loop {
      let fr = *self.t.frames.last().unwrap();
      let f = &m.funcs[fr.func as usize];
      let base = fr.base as usize;
      let mut pc = fr.pc as usize;
      macro_rules! rd {
        ($o:expr) => {{
          let o = $o;
          if o & CBIT != 0 {
            cs(unsafe { *f.consts.get_unchecked((o & !CBIT) as usize) })
          } else {
            unsafe { *self.t.regs.get_unchecked(base + o as usize) }
          }
        }};
      }
      macro_rules! wr {
        ($o:expr, $s:expr) => {{
          let s = $s;
          unsafe { *self.t.regs.get_unchecked_mut(base + $o as usize) = s }
        }};
      }
      macro_rules! save {
        () => {
          self.t.frames.last_mut().unwrap().pc = pc as u32
        };
      }
      macro_rules! edge {
        ($e:expr) => {{
          let e = f.edges[$e as usize];
          if e.n == 1 {
            let (d, s) = f.moves[e.mv as usize];
            let x = rd!(s);
            wr!(d, x);
          } else if e.n > 1 {
            let mv = &f.moves[e.mv as usize..(e.mv + e.n) as usize];
            let mut tmp = std::mem::take(&mut self.tmp);
            tmp.clear();
            for (_, s) in mv {
              tmp.push(rd!(*s));
            }
            for ((d, _), x) in mv.iter().zip(&tmp) {
              wr!(*d, *x);
            }
            self.tmp = tmp;
          }
          self.cov[e.blk as usize] = 1;
          self.cur_blk = e.blk;
          pc = e.pc as usize;
        }};
      }
      loop {
        self.instrs += 1;
        let op = unsafe { f.code.get_unchecked(pc) };
        pc += 1;
        match op {
          Op::Bin { op, w, d, a, b } => {
            let (a, b) = (rd!(*a), rd!(*b));
            let (op, w) = (*op, *w as u32);
            if a.e | b.e == 0 {
              let v = match op {
                ADD => a.v.wrapping_add(b.v) & mask(w),
                SUB => a.v.wrapping_sub(b.v) & mask(w),
                AND => a.v & b.v,
                OR => a.v | b.v,
                XOR => a.v ^ b.v,
                UDIV | SDIV | UREM | SREM if b.v == 0 => return err("division by zero"),
                _ => bin_val(op, w, a.v, b.v),
              };
              wr!(*d, cs(v));
            } else {
              if matches!(op, UDIV | SDIV | UREM | SREM) {
                if b.v == 0 {
                  return err("division by zero");
                }
              }
              let v = bin_val(op, w, a.v, b.v);
              let s = self.sym_bin(op, w, a, b, v);
              wr!(*d, s);
            }
          }
          Op::Cmp { p, w, d, a, b } => {
            let (a, b) = (rd!(*a), rd!(*b));
            let v = Self::cmp_concrete(*p, *w as u32, a.v, b.v);
            if a.e | b.e == 0 {
              wr!(*d, cs(v as u64));
            } else {
              let s = self.sym_cmp(*p, *w as u32, a, b, v);
              wr!(*d, s);
            }
          }
          Op::WideCmp { p, d, a, b } => {
            let (al, ah, bl, bh) = (rd!(*a), rd!(*a + 1), rd!(*b), rd!(*b + 1));
            if al.e | ah.e | bl.e | bh.e != 0 && *p > 1 {
              return err("symbolic 128-bit comparison");
            }
            if *p <= 1 {
              let x = self.do_cmp(0, 64, al, bl);
              let y = self.do_cmp(0, 64, ah, bh);
              let r = self.do_bin(AND, 1, x, y);
              let r = if *p == 1 { self.do_bin(XOR, 1, r, cs(1)) } else { r };
              wr!(*d, r);
            } else {
              let x = (ah.v as u128) << 64 | al.v as u128;
              let y = (bh.v as u128) << 64 | bl.v as u128;
              let r = match p {
                2 => x < y,
                3 => x <= y,
                4 => x > y,
                5 => x >= y,
                6 => (x as i128) < y as i128,
                7 => x as i128 <= y as i128,
                8 => x as i128 > y as i128,
                _ => x as i128 >= y as i128,
              };
              wr!(*d, cs(r as u64));
            }
          }
          Op::WideBin { op, d, a, b } => {
            let (al, ah, bl, bh) = (rd!(*a), rd!(*a + 1), rd!(*b), rd!(*b + 1));
            if matches!(*op, AND | OR | XOR) {
              let lo = self.do_bin(*op, 64, al, bl);
              let hi = self.do_bin(*op, 64, ah, bh);
              wr!(*d, lo);
              wr!(*d + 1, hi);
            } else {
              if bl.e | bh.e != 0 || (al.e | ah.e != 0 && !(matches!(*op, SHL | LSHR) && bl.v == 64)) {
                return err("symbolic 128-bit arithmetic");
              }
              if matches!(*op, SHL | LSHR) && bl.v == 64 {
                if *op == SHL {
                  wr!(*d + 1, al);
                  wr!(*d, cs(0));
                } else {
                  wr!(*d, ah);
                  wr!(*d + 1, cs(0));
                }
              } else {
                let x = (ah.v as u128) << 64 | al.v as u128;
                let y = (bh.v as u128) << 64 | bl.v as u128;
                let r = match *op {
                  ADD => x.wrapping_add(y),
                  SUB => x.wrapping_sub(y),
                  MUL => x.wrapping_mul(y),
                  SHL => x.checked_shl(y as u32).unwrap_or(0),
                  LSHR => x.checked_shr(y as u32).unwrap_or(0),
                  ASHR => ((x as i128) >> (y as u32).min(127)) as u128,
                  UDIV if y != 0 => x / y,
                  UREM if y != 0 => x % y,
                  _ => return err("128-bit operator"),
                };
                wr!(*d, cs(r as u64));
                wr!(*d + 1, cs((r >> 64) as u64));
              }
            }
          }
          Op::Zext { w, d, a } => {
            let s = rd!(*a);
            if s.e == 0 {
              wr!(*d, s);
            } else {
              let e = self.pool.zext(s.e, *w as u32);
              wr!(*d, Slot { v: s.v, e });
            }
          }
          Op::Sext { fw, w, d, a } => {
            let s = rd!(*a);
            let v = sext(s.v, *fw as u32) as u64 & mask(*w as u32);
            if s.e == 0 {
              wr!(*d, cs(v));
            } else {
              let e = self.pool.sext(s.e, *w as u32);
              let r = self.fin(v, e);
              wr!(*d, r);
            }
          }
          Op::Trunc { w, d, a } => {
            let s = rd!(*a);
            let v = s.v & mask(*w as u32);
            if s.e == 0 {
              wr!(*d, cs(v));
            } else {
              let e = self.pool.extract(s.e, 0, *w as u32);
              let r = self.fin(v, e);
              wr!(*d, r);
            }
          }
          Op::Select { n: _, d, c, a, b, w } => {
            let c = rd!(*c);
            if c.e == 0 {
              let s = if c.v == 1 { rd!(*a) } else { rd!(*b) };
              wr!(*d, s);
            } else {
              let (a, b) = (rd!(*a), rd!(*b));
              let s = self.sel(c, *w as u32, a, b);
              wr!(*d, s);
            }
          }
          Op::Copy { n, d, a } => {
            for i in 0..*n {
              let s = rd!(*a + i);
              wr!(*d + i, s);
            }
          }
          Op::Load { d, p, bits } => {
            let p = rd!(*p);
            let a = if p.e != 0 { self.concretize(p) } else { p.v };
            let s = self.load(a, *bits)?;
            wr!(*d, s);
          }
          Op::LoadN { d, p, leaves } => {
            let p = rd!(*p);
            let a = self.concretize(p);
            for (i, l) in leaves.iter().enumerate() {
              let s = self.load(a.wrapping_add(l.off as u64), l.bits)?;
              wr!(*d + i as u32, s);
            }
          }
          Op::Store { v, p, bits } => {
            let p = rd!(*p);
            let a = if p.e != 0 { self.concretize(p) } else { p.v };
            let s = rd!(*v);
            self.store(a, *bits, s)?;
          }
          Op::StoreN { v, p, leaves } => {
            let p = rd!(*p);
            let a = self.concretize(p);
            for (i, l) in leaves.iter().enumerate() {
              let s = rd!(*v + i as u32);
              self.store(a.wrapping_add(l.off as u64), l.bits, s)?;
            }
          }
          Op::GepC { d, p, off } => {
            let s = rd!(*p);
            if s.e == 0 {
              wr!(*d, cs(s.v.wrapping_add(*off as u64)));
            } else {
              let r = self.do_bin(ADD, 64, s, cs(*off as u64));
              wr!(*d, r);
            }
          }
          Op::Gep1 { d, p, off, i, iw, s } => {
            let b = rd!(*p);
            let x = rd!(*i);
            if b.e | x.e == 0 {
              let v = b.v.wrapping_add(*off as u64).wrapping_add((sext(x.v, *iw as u32)).wrapping_mul(*s) as u64);
              wr!(*d, cs(v));
            } else {
              let r = self.gep_sym(b, *off, &[(x, *iw, *s)]);
              wr!(*d, r);
            }
          }
          Op::GepN { d, p, off, terms } => {
            let b = rd!(*p);
            let ts: Vec<(Slot, u8, i64)> = terms.iter().map(|(i, w, s)| (rd!(*i), *w, *s)).collect();
            let r = self.gep_sym(b, *off, &ts);
            wr!(*d, r);
          }
          Op::Alloca { d, size, align } => {
            let a = align_up(self.t.sp, (*align).max(8) as u64);
            self.t.sp = a + *size;
            if self.t.sp >= self.t.stack_end {
              return Err(Box::new(Stop::Violation("recursion".into(), "stack overflow".into())));
            }
            if self.cur == 0 && self.t.sp > self.stack_hw {
              self.stack_hw = self.t.sp;
            }
            wr!(*d, cs(a));
          }
          Op::Br { e } => {
            edge!(*e);
            if self.instrs > self.cfg.max_instr {
              save!();
              return Err(Box::new(Stop::Limit));
            }
          }
          Op::CondBr { c, t, f: fe } => {
            let c = rd!(*c);
            let take = if c.e != 0 { self.branch(c) } else { c.v == 1 };
            if take {
              edge!(*t);
            } else {
              edge!(*fe);
            }
            if self.instrs > self.cfg.max_instr {
              save!();
              return Err(Box::new(Stop::Limit));
            }
          }
          Op::Switch(sw) => {
            let s = rd!(sw.v);
            let e = if sw.map.is_empty() {
              sw.cases.iter().find(|(k, _)| *k == s.v).map_or(sw.default, |(_, e)| *e)
            } else {
              sw.map.get(&s.v).copied().unwrap_or(sw.default)
            };
            if s.e != 0 {
              self.sym_switch(sw, s, e);
            }
            edge!(e);
          }
          Op::Ret { n, v } => {
            let rd_ = fr.ret_d;
            self.t.sp = fr.sp;
            if self.t.frames.len() == 1 {
              // thread finished
              self.t.frames.pop();
              self.t.status = Status::Done;
              if self.cur == 0 {
                // main harness function returned
                return Ok(());
              }
              self.reschedule(true)?;
              continue 'frame;
            }
            let caller = self.t.frames[self.t.frames.len() - 2];
            let cb = caller.base as usize;
            for i in 0..*n {
              let s = rd!(*v + i);
              self.t.regs[cb + (rd_ + i) as usize] = s;
            }
            self.t.frames.pop();
            continue 'frame;
          }
          Op::Call(c) => {
            save!();
            let fid = match &c.target {
              Target::Func(id) => *id,
              Target::Ext(e) => {
                let args: Vec<Slot> = c.args.iter().map(|a| rd!(*a)).collect();
                let sw = self.ext(*e, &args, c, base)?;
                if sw {
                  continue 'frame;
                }
                continue;
              }
              Target::Ptr(r) => {
                let s = rd!(*r);
                let a = self.concretize(s);
                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= m.funcs.len() as u64 {
                  return Err(Box::new(Stop::Violation("memory".into(), format!("call of invalid pointer {:#x}", a))));
                }
                let id = ((a - FUNC_BASE) / 16) as u32;
                if let Some(e) = m.funcs[id as usize].ext {
                  let args: Vec<Slot> = c.args.iter().map(|a| rd!(*a)).collect();
                  let sw = self.ext(e, &args, c, base)?;
                  if sw {
                    continue 'frame;
                  }
                  continue;
                }
                id
              }
            };
            self.push_frame(fid, c.d)?;
            let nb = self.t.frames.last().unwrap().base as usize;
            for (i, a) in c.args.iter().enumerate() {
              let s = rd!(*a);
              self.t.regs[nb + i] = s;
            }
            continue 'frame;
          }
          Op::Intr { k, w, d, a, b, c } => match k {
            IK::Memcpy => {
              let (x, y, n) = (rd!(*a), rd!(*b), rd!(*c));
              let (x, y, n) = (self.concretize(x), self.concretize(y), self.concretize(n));
              self.memcpy(x, y, n)?;
            }
            IK::Memset => {
              let (x, y, n) = (rd!(*a), rd!(*b), rd!(*c));
              let (x, n) = (self.concretize(x), self.concretize(n));
              self.memset(x, y, n)?;
            }
            _ => {
              let (x, y) = (rd!(*a), rd!(*b));
              let z = if matches!(k, IK::Fshl | IK::Fshr) { rd!(*c) } else { cs(0) };
              let (r, o) = self.intr(*k, *w as u32, x, y, z, *c)?;
              wr!(*d, r);
              if let Some(o) = o {
                wr!(*d + 1, o);
              }
            }
          },
          Op::AtomicRmw { op, d, p, v, bits } => {
            if self.used_threads && self.sched_point(pc)? {
              continue 'frame;
            }
            let p = rd!(*p);
            let a = self.concretize(p);
            let old = self.load(a, *bits)?;
            let v = rd!(*v);
            let w = *bits as u32;
            let nv = match op {
              0 => v,
              1 => self.do_bin(ADD, w, old, v),
              2 => self.do_bin(SUB, w, old, v),
              3 => self.do_bin(AND, w, old, v),
              4 => self.do_bin(OR, w, old, v),
              5 => self.do_bin(XOR, w, old, v),
              6 => {
                let l = self.do_cmp(2, w, old, v);
                self.sel(l, w, v, old)
              }
              _ => {
                let l = self.do_cmp(2, w, old, v);
                self.sel(l, w, old, v)
              }
            };
            self.store(a, *bits, nv)?;
            wr!(*d, old);
          }
          Op::CmpXchg { d, p, c, n, bits } => {
            if self.used_threads && self.sched_point(pc)? {
              continue 'frame;
            }
            let p = rd!(*p);
            let a = self.concretize(p);
            let old = self.load(a, *bits)?;
            let (c, n) = (rd!(*c), rd!(*n));
            let q = self.do_cmp(0, *bits as u32, old, c);
            let ok = self.branch(q);
            if ok {
              self.store(a, *bits, n)?;
            }
            wr!(*d, old);
            wr!(*d + 1, cs(ok as u64));
          }
          Op::AtomicLoad { d, p, bits } => {
            if self.used_threads && self.sched_point(pc)? {
              continue 'frame;
            }
            let p = rd!(*p);
            let a = self.concretize(p);
            let s = self.load(a, *bits)?;
            wr!(*d, s);
          }
          Op::AtomicStore { v, p, bits } => {
            if self.used_threads && self.sched_point(pc)? {
              continue 'frame;
            }
            let p = rd!(*p);
            let a = self.concretize(p);
            let s = rd!(*v);
            self.store(a, *bits, s)?;
          }
          Op::TlsAddr { d, p } => {
            let p = rd!(*p);
            let a = p.v - self.m.tls.0 + self.t.tls;
            wr!(*d, cs(a));
          }
          Op::BitcastVI { d, a, n, ew } => {
            let mut r = rd!(*a);
            if r.e != 0 && *n == 1 {
              wr!(*d, r);
              continue;
            }
            let ew = *ew as u32;
            for i in 1..*n {
              let s = rd!(*a + i);
              let v = r.v | s.v << (i * ew);
              if r.e | s.e == 0 {
                r = cs(v);
              } else {
                let hi = self.ex(s, ew);
                let lo = self.ex(r, i * ew);
                let e = self.pool.concat(hi, lo);
                r = self.fin(v, e);
              }
            }
            wr!(*d, r);
          }
          Op::BitcastIV { d, a, n, ew } => {
            let s = rd!(*a);
            let ew = *ew as u32;
            for i in 0..*n {
              let v = s.v >> (i * ew) & mask(ew);
              let r = if s.e == 0 {
                cs(v)
              } else {
                let e = self.pool.extract(s.e, i * ew, ew);
                self.fin(v, e)
              };
              wr!(*d + i, r);
            }
          }
          Op::Unreachable => {
            save!();
            return Err(Box::new(Stop::Violation("unreachable".into(), "reached unreachable code".into())));
          }
          Op::Unsupported(s) => {
            save!();
            return err(format!("unsupported instruction in {}: {}", f.name, s));
          }
        }
      }
    }
  }

  fn gep_sym(&mut self, b: Slot, off: i64, ts: &[(Slot, u8, i64)]) -> Slot {
    let mut r = b;
    for (x, iw, s) in ts {
      let v = sext(x.v, *iw as u32) as u64;
      let x64 = if x.e == 0 {
        cs(v)
      } else {
        let e = self.pool.sext(x.e, 64);
        self.fin(v, e)
      };
      let t = self.do_bin(MUL, 64, x64, cs(*s as u64));
      r = self.do_bin(ADD, 64, r, t);
    }
    self.do_bin(ADD, 64, r, cs(off as u64))
  }

  #[cold]
  fn sym_switch(&mut self, sw: &SwitchOp, s: Slot, taken: u32) {
    let w = sw.w as u32;
    // condition per distinct target
    let mut conds: Vec<(u32, u32)> = Vec::new();
    let mut none = self.pool.cst(1, 1);
    for (k, e) in &sw.cases {
      let kc = self.pool.cst(w, *k);
      let q = self.pool.cmp(EQ, s.e, kc);
      let nq = self.pool.not(q);
      none = self.pool.bin(AND, 1, none, nq);
      match conds.iter_mut().find(|c| c.0 == *e) {
        Some(c) => c.1 = self.pool.bin(OR, 1, c.1, q),
        None => conds.push((*e, q)),
      }
    }
    match conds.iter_mut().find(|c| c.0 == sw.default) {
      Some(c) => c.1 = self.pool.bin(OR, 1, c.1, none),
      None => conds.push((sw.default, none)),
    }
    let tc = conds.iter().find(|c| c.0 == taken).unwrap().1;
    if self.known_val(tc, 3).is_some() {
      return;
    }
    let alts: Vec<u32> =
      conds.iter().filter(|c| c.0 != taken).map(|c| c.1).filter(|c| self.known_val(*c, 3) != Some(false)).collect();
    self.learn(tc, true);
    for a in &alts {
      if self.known_val(*a, 1).is_none() {
        self.learn(*a, false);
      }
    }
    self.events.push(Ev { c: tc, alts: Alts::Many(alts), blk: self.cur_blk });
  }

  fn memset(&mut self, a: u64, v: Slot, n: u64) -> X<()> {
    if n == 0 {
      return Ok(());
    }
    self.chk(a, n)?;
    self.mem[a as usize..(a + n) as usize].fill(v.v as u8);
    if v.e != 0 {
      self.flag(a, n);
      self.shadow[a as usize..(a + n) as usize].fill(v.e << 3);
    } else if self.has_sym(a, n) {
      self.shadow[a as usize..(a + n) as usize].fill(0);
    }
    Ok(())
  }

  // ---- externals; true = switched thread / frame changed ----
  fn ext(&mut self, e: Ext, args: &[Slot], c: &CallOp, base: usize) -> X<bool> {
    macro_rules! ret {
      ($s:expr) => {{
        let s = $s;
        if c.nret > 0 {
          self.t.regs[base + c.d as usize] = s;
        }
      }};
    }
    match e {
      Ext::SymRange => {
        let (lo, hi) = (self.concretize(args[0]), self.concretize(args[1]));
        if lo > hi {
          return err("symx_range: empty range");
        }
        if lo == hi {
          ret!(cs(lo));
        } else {
          let s = self.fresh(lo, hi);
          let e = self.pool.zext(s.e, 64);
          ret!(Slot { v: s.v, e });
        }
      }
      Ext::Assume => {
        let mut s = args[0];
        if c.aw[0] != 1 {
          s = self.do_cmp(1, c.aw[0] as u32, s, cs(0));
        }
        if s.v == 1 {
          if s.e != 0 {
            self.decide(s.e, true, false);
          }
        } else {
          if s.e != 0 {
            // the flip is the only continuation
            self.decide(s.e, false, true);
          }
          return Err(Box::new(Stop::AssumeFalse));
        }
      }
      Ext::Fail => {
        let msg = self.cstr(args[0].v, args[1].v);
        return Err(Box::new(Stop::Violation("fail".into(), msg)));
      }
      Ext::Cover => {
        let msg = self.cstr(args[0].v, args[1].v);
        self.covers.insert(msg);
      }
      Ext::Concretize => {
        let v = self.concretize(args[0]);
        ret!(cs(v));
      }
      Ext::Observe => {
        self.observed.push(args[0].v);
      }
      Ext::IsSymx => ret!(cs(1)),
      Ext::ExpectPanic => self.expect_panic = true,
      Ext::Panic => {
        if self.expect_panic {
          return Err(Box::new(Stop::ExpectedPanic));
        }
        return Err(Box::new(Stop::Violation("panic".into(), "the code panics".into())));
      }
      Ext::Abort => return Err(Box::new(Stop::Violation("abort".into(), "the code aborts".into()))),
      Ext::Malloc => {
        let n = self.concretize(args[0]);
        let a = self.malloc(n, 16)?;
        ret!(cs(a));
      }
      Ext::Calloc => {
        let n = self.concretize(args[0]).saturating_mul(self.concretize(args[1]));
        let a = self.malloc(n, 16)?;
        self.memset(a, cs(0), n)?;
        ret!(cs(a));
      }
      Ext::Realloc => {
        let p = self.concretize(args[0]);
        let n = self.concretize(args[1]);
        let a = self.malloc(n, 16)?;
        if p != 0 {
          let old = self.sizes[((p - self.heap_base) / 16) as usize] as u64 * 16;
          self.memcpy(a, p, old.min(n))?;
          self.dealloc(p)?;
        }
        ret!(cs(a));
      }
      Ext::Free => {
        let p = self.concretize(args[0]);
        self.dealloc(p)?;
      }
      Ext::PosixMemalign => {
        let (p, al, n) = (self.concretize(args[0]), self.concretize(args[1]), self.concretize(args[2]));
        let a = self.malloc(n, al)?;
        self.store(p, 64, cs(a))?;
        ret!(cs(0));
      }
      Ext::Memcmp | Ext::Bcmp => {
        let (p, q, n) = (self.concretize(args[0]), self.concretize(args[1]), self.concretize(args[2]));
        if n > 0 {
          self.chk(p, n)?;
          self.chk(q, n)?;
        }
        let r = self.memcmp(p, q, n, e == Ext::Bcmp)?;
        ret!(r);
      }
      Ext::Strlen => {
        let p = self.concretize(args[0]);
        let mut n = 0;
        loop {
          let s = self.load(p + n, 8)?;
          if self.concretize(s) == 0 {
            break;
          }
          n += 1;
        }
        ret!(cs(n));
      }
      Ext::Write => ret!(cs(args.get(2).map_or(0, |s| s.v))),
      Ext::Zero => ret!(cs(0)),
      Ext::Errno => ret!(cs(self.scratch)),
      Ext::Getrandom => {
        let (p, n) = (args[0].v, args[1].v);
        self.memset(p, cs(0), n)?;
        ret!(cs(n));
      }
      Ext::Syscall => {
        let nr = args[0].v;
        match nr {
          202 => return self.futex(args, c, base),
          318 => {
            let (p, n) = (args[1].v, args[2].v);
            self.memset(p, cs(0), n)?;
            ret!(cs(n));
          }
          _ => return err(format!("system call {}", nr)),
        }
      }
      Ext::Spawn => {
        // symx_spawn(fn(u64), arg)
        let f = args[0].v;
        if f < FUNC_BASE {
          return err("symx_spawn: bad function");
        }
        let id = ((f - FUNC_BASE) / 16) as u32;
        if !self.used_threads {
          self.used_threads = true;
          self.threads.clear();
          self.threads.push(None);
        }
        let tid = self.threads.len();
        if tid >= MAXT {
          return err("too many threads");
        }
        let sb = self.stack_base + STACK + TSTACK * (tid as u64 - 1);
        let tl = self.m.tls.1 - self.m.tls.0;
        let tls = self.tls_base + tl * tid as u64;
        if tl > 0 {
          let a = (self.m.tls.0 - GLOBAL_BASE) as usize;
          let img = &self.m.image[a..a + tl as usize];
          self.mem[tls as usize..(tls + tl) as usize].copy_from_slice(img);
        }
        let nt = Thread {
          regs: Vec::new(),
          frames: Vec::new(),
          sp: sb,
          stack_end: sb + TSTACK,
          tls,
          status: Status::Run,
        };
        let me = std::mem::replace(&mut self.t, nt);
        let (ob, r) = (self.cur_blk, self.push_frame(id, 0));
        self.cur_blk = ob;
        r?;
        self.t.regs[0] = args[1];
        let nt = std::mem::replace(&mut self.t, me);
        self.threads.push(Some(nt));
      }
      Ext::JoinAll => {
        if self.used_threads {
          let all = (0..self.threads.len()).all(|i| i == self.cur || self.threads[i].as_ref().unwrap().status == Status::Done);
          if !all {
            self.t.status = Status::Join;
            self.reschedule(true)?;
            return Ok(true);
          }
        }
      }
      Ext::YieldPoint => {}
      Ext::Unknown(i) => return err(format!("call of external function {}", self.m.ext_names[i as usize])),
    }
    Ok(false)
  }

  fn memcmp(&mut self, p: u64, q: u64, n: u64, bcmp: bool) -> X<Slot> {
    if !self.has_sym(p, n) && !self.has_sym(q, n) {
      let (a, b) = (&self.mem[p as usize..(p + n) as usize], &self.mem[q as usize..(q + n) as usize]);
      let r = match a.cmp(b) {
        std::cmp::Ordering::Less => 0xffff_ffff,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
      };
      return Ok(cs(r));
    }
    if bcmp {
      let mut all = cs(1);
      for i in 0..n {
        let (a, b) = (self.load(p + i, 8)?, self.load(q + i, 8)?);
        let x = self.do_cmp(0, 8, a, b);
        all = self.do_bin(AND, 1, all, x);
      }
      return Ok(self.sel(all, 32, cs(0), cs(1)));
    }
    for i in 0..n {
      let (a, b) = (self.load(p + i, 8)?, self.load(q + i, 8)?);
      let x = self.do_cmp(0, 8, a, b);
      if !self.branch(x) {
        let l = self.do_cmp(2, 8, a, b);
        return Ok(self.sel(l, 32, cs(0xffff_ffff), cs(1)));
      }
    }
    Ok(cs(0))
  }

  // ---- threads ----

  fn futex(&mut self, args: &[Slot], c: &CallOp, base: usize) -> X<bool> {
    let (addr, op) = (args[1].v, args[2].v & 0x7f);
    match op {
      0 | 9 => {
        let expected = args[3].v & 0xffff_ffff;
        let v = self.load(addr, 32)?;
        if v.v != expected {
          self.store(self.scratch, 32, cs(11))?; // EAGAIN
          self.t.regs[base + c.d as usize] = cs(u64::MAX);
          return Ok(false);
        }
        self.t.regs[base + c.d as usize] = cs(0);
        self.t.status = Status::Futex(addr);
        self.reschedule(true)?;
        Ok(true)
      }
      1 | 10 => {
        let mut n = args[3].v as i32 as i64;
        let mut woken = 0;
        for t in self.threads.iter_mut().flatten() {
          if n > 0 && t.status == Status::Futex(addr) {
            t.status = Status::Run;
            n -= 1;
            woken += 1;
          }
        }
        self.t.regs[base + c.d as usize] = cs(woken);
        Ok(false)
      }
      _ => err(format!("futex op {}", op)),
    }
  }

  fn runnable(&self, i: usize) -> bool {
    let st = if i == self.cur { self.t.status } else { self.threads[i].as_ref().unwrap().status };
    match st {
      Status::Run => true,
      Status::Join => (0..self.threads.len()).all(|j| {
        j == i || {
          let s = if j == self.cur { self.t.status } else { self.threads[j].as_ref().unwrap().status };
          s == Status::Done
        }
      }),
      _ => false,
    }
  }

  fn switch_to(&mut self, i: usize) {
    if i != self.cur {
      let nt = self.threads[i].take().unwrap();
      let old = std::mem::replace(&mut self.t, nt);
      self.threads[self.cur] = Some(old);
      self.cur = i;
    }
    if self.t.status == Status::Join {
      self.t.status = Status::Run;
    }
  }

  /// The current thread cannot go on (blocked or done): pick another one.
  fn reschedule(&mut self, _blocked: bool) -> X<()> {
    if !self.used_threads {
      return Err(Box::new(Stop::Violation("deadlock".into(), "a thread blocks on a lock it holds itself".into())));
    }
    let cand: Vec<usize> = (0..self.threads.len()).filter(|i| self.runnable(*i)).collect();
    if cand.is_empty() {
      return Err(Box::new(Stop::Violation("deadlock".into(), "all threads are blocked".into())));
    }
    let k = self.choose(cand.len());
    self.switch_to(cand[k]);
    Ok(())
  }

  fn choose(&mut self, n: usize) -> usize {
    if n == 1 {
      return 0;
    }
    let s = self.fresh(0, n as u64 - 1);
    self.concretize(s) as usize
  }

  /// Before a shared-memory operation: possibly preempt.  When it does, the
  /// operation has not been executed (its pc is restored).
  fn sched_point(&mut self, pc: usize) -> X<bool> {
    if self.preempt_left == 0 {
      return Ok(false);
    }
    let mut cand = vec![self.cur];
    cand.extend((0..self.threads.len()).filter(|i| *i != self.cur && self.runnable(*i)));
    if cand.len() == 1 {
      return Ok(false);
    }
    let k = self.choose(cand.len());
    if k == 0 {
      return Ok(false);
    }
    self.preempt_left -= 1;
    self.t.frames.last_mut().unwrap().pc = pc as u32 - 1;
    self.switch_to(cand[k]);
    Ok(true)
  }
}
