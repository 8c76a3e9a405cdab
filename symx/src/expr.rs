//! Hash-consed bit-vector expressions with a local simplifier.
//! Id 0 is reserved: "no expression" (the value is concrete).

pub const CONST: u8 = 1;
pub const VAR: u8 = 2;
pub const ADD: u8 = 3;
pub const SUB: u8 = 4;
pub const MUL: u8 = 5;
pub const UDIV: u8 = 6;
pub const SDIV: u8 = 7;
pub const UREM: u8 = 8;
pub const SREM: u8 = 9;
pub const SHL: u8 = 10;
pub const LSHR: u8 = 11;
pub const ASHR: u8 = 12;
pub const AND: u8 = 13;
pub const OR: u8 = 14;
pub const XOR: u8 = 15;
pub const NOT: u8 = 16;
pub const EQ: u8 = 17;
pub const ULT: u8 = 18;
pub const SLT: u8 = 19;
pub const ITE: u8 = 20;
pub const CONCAT: u8 = 21;
pub const EXTRACT: u8 = 22;
pub const ZEXT: u8 = 23;
pub const SEXT: u8 = 24;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Expr {
  pub op: u8,
  pub w: u8,
  pub a: u32,
  pub b: u32,
  pub c: u32,
  pub k: u64,
}

#[derive(Clone, Copy)]
pub struct Meta {
  pub hash: u128,
  pub vars: u128,
  pub umax: u64,
}

pub struct Pool {
  ex: Vec<Expr>,
  meta: Vec<Meta>,
  table: Vec<u32>,
  mask: usize,
}

#[inline]
pub fn mask(w: u32) -> u64 {
  if w >= 64 {
    u64::MAX
  } else {
    (1u64 << w) - 1
  }
}

#[inline]
pub fn sext(v: u64, w: u32) -> i64 {
  if w >= 64 {
    v as i64
  } else {
    ((v << (64 - w)) as i64) >> (64 - w)
  }
}

#[inline]
fn mix(mut h: u64, x: u64) -> u64 {
  h ^= x.wrapping_mul(0x9E3779B97F4A7C15);
  h = (h ^ (h >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
  h ^ (h >> 29)
}

pub fn mix128(h: u128, x: u128) -> u128 {
  let (h0, h1) = (h as u64, (h >> 64) as u64);
  let (x0, x1) = (x as u64, (x >> 64) as u64);
  let a = mix(mix(h0 ^ 0x1234567, x0), x1);
  let b = mix(mix(h1 ^ 0xabcdef1, x1.rotate_left(17) ^ 0x5555), x0.rotate_left(31));
  ((b as u128) << 64) | a as u128
}

/// Concrete semantics of the binary operators (LLVM/SMT-LIB).
pub fn bin_val(op: u8, w: u32, a: u64, b: u64) -> u64 {
  let m = mask(w);
  (match op {
    ADD => a.wrapping_add(b),
    SUB => a.wrapping_sub(b),
    MUL => a.wrapping_mul(b),
    UDIV => {
      if b == 0 {
        u64::MAX
      } else {
        a / b
      }
    }
    UREM => {
      if b == 0 {
        a
      } else {
        a % b
      }
    }
    SDIV => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        if x < 0 {
          1
        } else {
          u64::MAX
        }
      } else {
        x.wrapping_div(y) as u64
      }
    }
    SREM => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        a
      } else {
        x.wrapping_rem(y) as u64
      }
    }
    SHL => {
      if b >= w as u64 {
        0
      } else {
        a << b
      }
    }
    LSHR => {
      if b >= w as u64 {
        0
      } else {
        a >> b
      }
    }
    ASHR => {
      let s = if b >= w as u64 { w as u64 - 1 } else { b };
      (sext(a, w) >> s) as u64
    }
    AND => a & b,
    OR => a | b,
    XOR => a ^ b,
    _ => panic!("bin_val {}", op),
  }) & m
}

pub fn cmp_val(op: u8, w: u32, a: u64, b: u64) -> bool {
  match op {
    EQ => a == b,
    ULT => a < b,
    SLT => sext(a, w) < sext(b, w),
    _ => panic!("cmp_val"),
  }
}

impl Pool {
  pub fn new() -> Pool {
    let n = 1 << 16;
    Pool {
      ex: vec![Expr { op: 0, w: 0, a: 0, b: 0, c: 0, k: 0 }],
      meta: vec![Meta { hash: 0, vars: 0, umax: 0 }],
      table: vec![0; n],
      mask: n - 1,
    }
  }
  pub fn len(&self) -> usize {
    self.ex.len()
  }
  #[inline]
  pub fn get(&self, e: u32) -> Expr {
    self.ex[e as usize]
  }
  #[inline]
  pub fn meta(&self, e: u32) -> &Meta {
    &self.meta[e as usize]
  }
  #[inline]
  pub fn w(&self, e: u32) -> u32 {
    self.ex[e as usize].w as u32
  }
  #[inline]
  pub fn umax(&self, e: u32) -> u64 {
    self.meta[e as usize].umax
  }

  fn hash_key(x: &Expr) -> usize {
    let h = mix(
      mix(x.k ^ ((x.op as u64) << 8) ^ x.w as u64, (x.a as u64) | ((x.b as u64) << 32)),
      x.c as u64 + 77,
    );
    h as usize
  }

  fn intern(&mut self, x: Expr) -> u32 {
    let mut i = Self::hash_key(&x) & self.mask;
    loop {
      let t = self.table[i];
      if t == 0 {
        break;
      }
      if self.ex[t as usize] == x {
        return t;
      }
      i = (i + 1) & self.mask;
    }
    let id = self.ex.len() as u32;
    assert!(id < (1 << 28), "expression pool overflow");
    let ch = |e: u32| if e == 0 { 0u128 } else { self.meta[e as usize].hash };
    let (ha, hb, hc) = if x.op == VAR { (x.a as u128, x.b as u128, 0) } else { (ch(x.a), ch(x.b), ch(x.c)) };
    let mut h = mix128(((x.op as u128) << 64) | ((x.w as u128) << 72) | x.k as u128, ha);
    h = mix128(h, hb);
    h = mix128(h, hc);
    let vars = if x.op == VAR {
      1u128 << (x.a % 128)
    } else {
      let v = |e: u32| if e == 0 { 0u128 } else { self.meta[e as usize].vars };
      v(x.a) | v(x.b) | v(x.c)
    };
    let m = mask(x.w as u32);
    let um = |e: u32| self.meta[e as usize].umax;
    let umax = match x.op {
      CONST => x.k,
      VAR => x.k & m, // k holds hi
      ZEXT => um(x.a),
      AND => um(x.a).min(um(x.b)),
      ADD => um(x.a).checked_add(um(x.b)).filter(|v| *v <= m).unwrap_or(m),
      ITE => um(x.b).max(um(x.c)),
      UREM => {
        if self.ex[x.b as usize].op == CONST && self.ex[x.b as usize].k > 0 {
          self.ex[x.b as usize].k - 1
        } else {
          m
        }
      }
      UDIV => {
        if self.ex[x.b as usize].op == CONST && self.ex[x.b as usize].k > 0 {
          um(x.a) / self.ex[x.b as usize].k
        } else {
          m
        }
      }
      EXTRACT => {
        if x.k == 0 {
          um(x.a).min(m)
        } else {
          (um(x.a) >> x.k).min(m)
        }
      }
      CONCAT => {
        let wl = self.ex[x.b as usize].w as u32;
        (um(x.a) << wl) | um(x.b)
      }
      OR | XOR => {
        let t = um(x.a) | um(x.b);
        // all bits up to the highest set one
        if t == 0 {
          0
        } else {
          mask(64 - t.leading_zeros()) & m
        }
      }
      _ => m,
    };
    self.ex.push(x);
    self.meta.push(Meta { hash: h, vars, umax });
    self.table[i] = id;
    if self.ex.len() * 2 > self.table.len() {
      let n = self.table.len() * 2;
      self.mask = n - 1;
      self.table = vec![0; n];
      for (j, x) in self.ex.iter().enumerate().skip(1) {
        let mut i = Self::hash_key(x) & self.mask;
        while self.table[i] != 0 {
          i = (i + 1) & self.mask;
        }
        self.table[i] = j as u32;
      }
    }
    id
  }

  fn raw(&mut self, op: u8, w: u32, a: u32, b: u32, c: u32, k: u64) -> u32 {
    self.intern(Expr { op, w: w as u8, a, b, c, k })
  }

  pub fn cst(&mut self, w: u32, v: u64) -> u32 {
    self.raw(CONST, w, 0, 0, 0, v & mask(w))
  }
  /// Variable `ord` of width `w` with domain lo..=hi.
  pub fn var(&mut self, ord: u32, w: u32, lo: u64, hi: u64) -> u32 {
    // lo is kept in b so that variables with different domains differ
    let lo32 = (lo as u32) ^ ((lo >> 32) as u32);
    self.raw(VAR, w, ord, lo32, 0, hi)
  }
  pub fn is_const(&self, e: u32) -> Option<u64> {
    let x = &self.ex[e as usize];
    if x.op == CONST {
      Some(x.k)
    } else {
      None
    }
  }
  fn tf(&mut self, b: bool) -> u32 {
    self.cst(1, b as u64)
  }

  pub fn not(&mut self, a: u32) -> u32 {
    let x = self.get(a);
    let w = x.w as u32;
    match x.op {
      CONST => self.cst(w, !x.k),
      NOT => x.a,
      _ => self.raw(NOT, w, a, 0, 0, 0),
    }
  }

  pub fn bin(&mut self, op: u8, w: u32, a: u32, b: u32) -> u32 {
    let (ca, cb) = (self.is_const(a), self.is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
      return self.cst(w, bin_val(op, w, x, y));
    }
    let m = mask(w);
    // constants to the right for commutative operators
    if ca.is_some() && matches!(op, ADD | MUL | AND | OR | XOR) {
      return self.bin(op, w, b, a);
    }
    match op {
      ADD => {
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          let x = self.get(a);
          if x.op == ADD {
            if let Some(k2) = self.is_const(x.b) {
              let kk = self.cst(w, k.wrapping_add(k2));
              return self.bin(ADD, w, x.a, kk);
            }
          }
          if let Some(r) = self.ite_push_bin(op, w, a, b) {
            return r;
          }
        }
      }
      SUB => {
        if a == b {
          return self.cst(w, 0);
        }
        if let Some(k) = cb {
          let nk = self.cst(w, k.wrapping_neg());
          return self.bin(ADD, w, a, nk);
        }
      }
      MUL => {
        if let Some(k) = cb {
          if k == 0 {
            return b;
          }
          if k == 1 {
            return a;
          }
          if k.is_power_of_two() {
            let s = self.cst(w, k.trailing_zeros() as u64);
            return self.bin(SHL, w, a, s);
          }
        }
      }
      AND => {
        if a == b {
          return a;
        }
        if let Some(k) = cb {
          if k == 0 {
            return b;
          }
          if k == m {
            return a;
          }
          let um = self.umax(a);
          // mask covers everything a can be
          let cover = if um == 0 { 0 } else { mask(64 - um.leading_zeros()) };
          if k & cover == cover {
            return a;
          }
          // low-bit mask: zext(extract)
          if (k + 1).is_power_of_two() {
            let n = (k + 1).trailing_zeros();
            let x = self.extract(a, 0, n);
            return self.zext(x, w);
          }
          let x = self.get(a);
          if x.op == ZEXT {
            let wi = self.w(x.a);
            let kk = self.cst(wi, k);
            let y = self.bin(AND, wi, x.a, kk);
            return self.zext(y, w);
          }
          if let Some(r) = self.ite_push_bin(op, w, a, b) {
            return r;
          }
        }
        if w == 1 {
          if self.get(a).op == NOT && self.get(a).a == b || self.get(b).op == NOT && self.get(b).a == a {
            return self.cst(1, 0);
          }
        }
      }
      OR => {
        if a == b {
          return a;
        }
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          if k == m {
            return b;
          }
        }
        if w == 1 {
          if self.get(a).op == NOT && self.get(a).a == b || self.get(b).op == NOT && self.get(b).a == a {
            return self.cst(1, 1);
          }
        }
        // disjoint packing: concat(h, 0_k) | y   with y < 2^k
        for (p, q) in [(a, b), (b, a)] {
          let x = self.get(p);
          if x.op == CONCAT && self.is_const(x.b) == Some(0) {
            let k = self.w(x.b);
            if self.umax(q) <= mask(k) {
              let lo = self.extract(q, 0, k);
              return self.concat(x.a, lo);
            }
          }
        }
      }
      XOR => {
        if a == b {
          return self.cst(w, 0);
        }
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          if k == m {
            return self.not(a);
          }
          let x = self.get(a);
          if x.op == XOR {
            if let Some(k2) = self.is_const(x.b) {
              let kk = self.cst(w, k ^ k2);
              return self.bin(XOR, w, x.a, kk);
            }
          }
          if let Some(r) = self.ite_push_bin(op, w, a, b) {
            return r;
          }
        }
      }
      SHL => {
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          if k >= w as u64 {
            return self.cst(w, 0);
          }
          let h = self.extract(a, 0, w - k as u32);
          let z = self.cst(k as u32, 0);
          return self.concat(h, z);
        }
      }
      LSHR => {
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          if k >= w as u64 {
            return self.cst(w, 0);
          }
          let h = self.extract(a, k as u32, w - k as u32);
          return self.zext(h, w);
        }
      }
      ASHR => {
        if let Some(k) = cb {
          if k == 0 {
            return a;
          }
          let k = k.min(w as u64 - 1);
          if self.umax(a) <= m >> 1 {
            let kk = self.cst(w, k);
            return self.bin(LSHR, w, a, kk);
          }
        }
      }
      UDIV => {
        if cb == Some(1) {
          return a;
        }
        if let Some(k) = cb {
          if k.is_power_of_two() {
            let s = self.cst(w, k.trailing_zeros() as u64);
            return self.bin(LSHR, w, a, s);
          }
        }
      }
      UREM => {
        if let Some(k) = cb {
          if k > self.umax(a) {
            return a;
          }
          if k.is_power_of_two() {
            let s = self.cst(w, k - 1);
            return self.bin(AND, w, a, s);
          }
        }
      }
      _ => {}
    }
    let (a, b) = if matches!(op, ADD | MUL | AND | OR | XOR) && cb.is_none() && self.meta(a).hash > self.meta(b).hash {
      (b, a)
    } else {
      (a, b)
    };
    self.raw(op, w, a, b, 0, 0)
  }

  /// op(ite(c, k1, k2), k) with constant arms -> ite(c, .., ..)
  fn ite_push_bin(&mut self, op: u8, w: u32, a: u32, b: u32) -> Option<u32> {
    let x = self.get(a);
    if x.op == ITE && self.is_const(b).is_some() && (self.is_const(x.b).is_some() || self.is_const(x.c).is_some()) {
      let p = self.bin(op, w, x.b, b);
      let q = self.bin(op, w, x.c, b);
      return Some(self.ite(x.a, p, q));
    }
    None
  }

  pub fn zext(&mut self, a: u32, w: u32) -> u32 {
    let x = self.get(a);
    if x.w as u32 == w {
      return a;
    }
    debug_assert!((x.w as u32) < w);
    match x.op {
      CONST => self.cst(w, x.k),
      ZEXT => self.zext(x.a, w),
      ITE if self.is_const(x.b).is_some() || self.is_const(x.c).is_some() => {
        let p = self.zext(x.b, w);
        let q = self.zext(x.c, w);
        self.ite(x.a, p, q)
      }
      _ => self.raw(ZEXT, w, a, 0, 0, 0),
    }
  }

  pub fn sext(&mut self, a: u32, w: u32) -> u32 {
    let x = self.get(a);
    if x.w as u32 == w {
      return a;
    }
    match x.op {
      CONST => self.cst(w, sext(x.k, x.w as u32) as u64),
      ZEXT => self.zext(x.a, w),
      ITE if self.is_const(x.b).is_some() || self.is_const(x.c).is_some() => {
        let p = self.sext(x.b, w);
        let q = self.sext(x.c, w);
        self.ite(x.a, p, q)
      }
      _ if self.umax(a) <= mask(x.w as u32) >> 1 => self.zext(a, w),
      _ => self.raw(SEXT, w, a, 0, 0, 0),
    }
  }

  /// Bits lo .. lo+w of a.
  pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
    let x = self.get(a);
    let xw = x.w as u32;
    debug_assert!(lo + w <= xw && w > 0);
    if lo == 0 && w == xw {
      return a;
    }
    match x.op {
      CONST => return self.cst(w, x.k >> lo),
      EXTRACT => return self.extract(x.a, lo + x.k as u32, w),
      CONCAT => {
        let wl = self.w(x.b);
        if lo >= wl {
          return self.extract(x.a, lo - wl, w);
        }
        if lo + w <= wl {
          return self.extract(x.b, lo, w);
        }
        let h = self.extract(x.a, 0, lo + w - wl);
        let l = self.extract(x.b, lo, wl - lo);
        return self.concat(h, l);
      }
      ZEXT => {
        let wi = self.w(x.a);
        if lo >= wi {
          return self.cst(w, 0);
        }
        if lo + w <= wi {
          return self.extract(x.a, lo, w);
        }
        let l = self.extract(x.a, lo, wi - lo);
        return self.zext(l, w);
      }
      SEXT if lo == 0 => {
        let wi = self.w(x.a);
        if w <= wi {
          return self.extract(x.a, 0, w);
        }
        return self.sext(x.a, w);
      }
      ITE if self.is_const(x.b).is_some() || self.is_const(x.c).is_some() => {
        let p = self.extract(x.b, lo, w);
        let q = self.extract(x.c, lo, w);
        return self.ite(x.a, p, q);
      }
      NOT => {
        let p = self.extract(x.a, lo, w);
        return self.not(p);
      }
      AND | OR | XOR => {
        let p = self.extract(x.a, lo, w);
        let q = self.extract(x.b, lo, w);
        return self.bin(x.op, w, p, q);
      }
      ADD | SUB | MUL if lo == 0 => {
        let p = self.extract(x.a, 0, w);
        let q = self.extract(x.b, 0, w);
        return self.bin(x.op, w, p, q);
      }
      _ => {}
    }
    if lo > 0 && self.umax(a) >> lo == 0 {
      return self.cst(w, 0);
    }
    self.raw(EXTRACT, w, a, 0, 0, lo as u64)
  }

  pub fn concat(&mut self, h: u32, l: u32) -> u32 {
    let (x, y) = (self.get(h), self.get(l));
    let w = x.w as u32 + y.w as u32;
    assert!(w <= 64, "wide symbolic expression");
    if x.op == CONST && y.op == CONST {
      return self.cst(w, (x.k << y.w) | y.k);
    }
    if x.op == CONST && x.k == 0 {
      return self.zext(l, w);
    }
    if x.op == ZEXT && self.is_const(l).is_none() {
      let inner = self.concat(x.a, l);
      return self.zext(inner, w);
    }
    if x.op == EXTRACT {
      if y.op == EXTRACT && x.a == y.a && x.k == y.k + y.w as u64 {
        return self.extract(x.a, y.k as u32, w);
      }
    }
    // concat(extract(hi of z), concat(extract(next of z), ..)) is joined from
    // the right by the caller building byte by byte.
    if y.op == CONCAT {
      let hy = self.get(y.a);
      if x.op == EXTRACT && hy.op == EXTRACT && x.a == hy.a && x.k == hy.k + hy.w as u64 {
        let j = self.extract(x.a, hy.k as u32, x.w as u32 + hy.w as u32);
        return self.concat(j, y.b);
      }
    }
    self.raw(CONCAT, w, h, l, 0, 0)
  }

  pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
    if a == b {
      return a;
    }
    let w = self.w(a);
    let x = self.get(c);
    match x.op {
      CONST => return if x.k == 1 { a } else { b },
      NOT => return self.ite(x.a, b, a),
      _ => {}
    }
    if w == 1 {
      match (self.is_const(a), self.is_const(b)) {
        (Some(1), Some(_)) => return c,
        (Some(_), Some(_)) => return self.not(c),
        (Some(1), None) => return self.bin(OR, 1, c, b),
        (Some(_), None) => {
          let n = self.not(c);
          return self.bin(AND, 1, n, b);
        }
        (None, Some(0)) => return self.bin(AND, 1, c, a),
        (None, Some(_)) => {
          let n = self.not(c);
          return self.bin(OR, 1, n, a);
        }
        _ => {}
      }
    }
    // ite(c, ite(c, p, q), b) -> ite(c, p, b)
    let xa = self.get(a);
    if xa.op == ITE && xa.a == c {
      return self.ite(c, xa.b, b);
    }
    let xb = self.get(b);
    if xb.op == ITE && xb.a == c {
      return self.ite(c, a, xb.c);
    }
    self.raw(ITE, w, c, a, b, 0)
  }

  /// EQ, ULT or SLT over operands of width w.
  pub fn cmp(&mut self, op: u8, a: u32, b: u32) -> u32 {
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b));
    if a == b {
      return self.tf(op == EQ);
    }
    let (ca, cb) = (self.is_const(a), self.is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
      return self.tf(cmp_val(op, w, x, y));
    }
    let m = mask(w);
    if op == EQ && ca.is_some() {
      return self.cmp(EQ, b, a);
    }
    // constant against ite with a constant arm
    if ca.is_some() || cb.is_some() {
      let (i, first) = if cb.is_some() { (a, true) } else { (b, false) };
      let x = self.get(i);
      if x.op == ITE {
        let k = if first { b } else { a };
        let (p, q) = if first {
          (self.cmp(op, x.b, k), self.cmp(op, x.c, k))
        } else {
          (self.cmp(op, k, x.b), self.cmp(op, k, x.c))
        };
        if self.is_const(p).is_some() || self.is_const(q).is_some() {
          return self.ite(x.a, p, q);
        }
      }
    }
    match op {
      EQ => {
        if let Some(k) = cb {
          if w == 1 {
            return if k == 1 { a } else { self.not(a) };
          }
          if k > self.umax(a) {
            return self.tf(false);
          }
          let x = self.get(a);
          match x.op {
            ZEXT => {
              let wi = self.w(x.a);
              if k > mask(wi) {
                return self.tf(false);
              }
              let kk = self.cst(wi, k);
              return self.cmp(EQ, x.a, kk);
            }
            SEXT => {
              let wi = self.w(x.a);
              let lowk = k & mask(wi);
              if sext(lowk, wi) as u64 & m != k {
                return self.tf(false);
              }
              let kk = self.cst(wi, lowk);
              return self.cmp(EQ, x.a, kk);
            }
            CONCAT => {
              let wl = self.w(x.b);
              let kh = self.cst(w - wl, k >> wl);
              let kl = self.cst(wl, k);
              let p = self.cmp(EQ, x.a, kh);
              let q = self.cmp(EQ, x.b, kl);
              return self.bin(AND, 1, p, q);
            }
            ADD => {
              if let Some(k2) = self.is_const(x.b) {
                let kk = self.cst(w, k.wrapping_sub(k2));
                return self.cmp(EQ, x.a, kk);
              }
            }
            XOR => {
              if let Some(k2) = self.is_const(x.b) {
                let kk = self.cst(w, k ^ k2);
                return self.cmp(EQ, x.a, kk);
              }
              if k == 0 {
                return self.cmp(EQ, x.a, x.b);
              }
            }
            SUB if k == 0 => return self.cmp(EQ, x.a, x.b),
            OR if k == 0 => {
              let z = self.cst(w, 0);
              let p = self.cmp(EQ, x.a, z);
              let q = self.cmp(EQ, x.b, z);
              return self.bin(AND, 1, p, q);
            }
            NOT => {
              let kk = self.cst(w, !k);
              return self.cmp(EQ, x.a, kk);
            }
            _ => {}
          }
        } else {
          let (x, y) = (self.get(a), self.get(b));
          if x.op == ZEXT && y.op == ZEXT {
            let wi = self.w(x.a).max(self.w(y.a));
            let p = self.zext(x.a, wi);
            let q = self.zext(y.a, wi);
            return self.cmp(EQ, p, q);
          }
          if x.op == CONCAT && y.op == CONCAT && self.w(x.b) == self.w(y.b) {
            let p = self.cmp(EQ, x.a, y.a);
            let q = self.cmp(EQ, x.b, y.b);
            return self.bin(AND, 1, p, q);
          }
          if w == 1 {
            // a == b on booleans
            let n = self.not(b);
            return self.ite(a, b, n);
          }
        }
      }
      ULT => {
        if let Some(k) = cb {
          if k == 0 {
            return self.tf(false);
          }
          if self.umax(a) < k {
            return self.tf(true);
          }
          if k == 1 {
            let z = self.cst(w, 0);
            return self.cmp(EQ, a, z);
          }
          let x = self.get(a);
          if x.op == ZEXT {
            let wi = self.w(x.a);
            // k <= umax <= mask(wi) here
            let kk = self.cst(wi, k);
            return self.cmp(ULT, x.a, kk);
          }
        } else if let Some(k) = ca {
          if k >= self.umax(b) {
            return self.tf(false);
          }
          if k == 0 {
            let z = self.cst(w, 0);
            let e = self.cmp(EQ, b, z);
            return self.not(e);
          }
          let y = self.get(b);
          if y.op == ZEXT {
            let wi = self.w(y.a);
            let kk = self.cst(wi, k);
            return self.cmp(ULT, kk, y.a);
          }
        } else {
          let (x, y) = (self.get(a), self.get(b));
          if x.op == ZEXT && y.op == ZEXT {
            let wi = self.w(x.a).max(self.w(y.a));
            let p = self.zext(x.a, wi);
            let q = self.zext(y.a, wi);
            return self.cmp(ULT, p, q);
          }
        }
      }
      SLT => {
        let half = m >> 1;
        let (na, nb) = (self.umax(a) <= half, self.umax(b) <= half);
        if na && nb {
          return self.cmp(ULT, a, b);
        }
        if na && cb.map_or(false, |k| k > half) {
          return self.tf(false);
        }
        if nb && ca.map_or(false, |k| k > half) {
          return self.tf(true);
        }
      }
      _ => panic!(),
    }
    let (a, b) = if op == EQ && cb.is_none() && self.meta(a).hash > self.meta(b).hash { (b, a) } else { (a, b) };
    self.raw(op, 1, a, b, 0, 0)
  }

  /// Evaluate under a model (values by variable ordinal), independently of the
  /// concrete values the executor tracked.
  pub fn eval(&self, e: u32, model: &[u64], memo: &mut std::collections::HashMap<u32, u64>) -> u64 {
    if let Some(v) = memo.get(&e) {
      return *v;
    }
    let x = self.get(e);
    let w = x.w as u32;
    let m = mask(w);
    let r = match x.op {
      CONST => x.k,
      VAR => model.get(x.a as usize).copied().unwrap_or(0) & m,
      NOT => !self.eval(x.a, model, memo) & m,
      EQ | ULT | SLT => {
        let wa = self.w(x.a);
        cmp_val(x.op, wa, self.eval(x.a, model, memo), self.eval(x.b, model, memo)) as u64
      }
      ITE => {
        if self.eval(x.a, model, memo) == 1 {
          self.eval(x.b, model, memo)
        } else {
          self.eval(x.c, model, memo)
        }
      }
      CONCAT => {
        let wl = self.w(x.b);
        (self.eval(x.a, model, memo) << wl) | self.eval(x.b, model, memo)
      }
      EXTRACT => (self.eval(x.a, model, memo) >> x.k) & m,
      ZEXT => self.eval(x.a, model, memo),
      SEXT => sext(self.eval(x.a, model, memo), self.w(x.a)) as u64 & m,
      op => bin_val(op, w, self.eval(x.a, model, memo), self.eval(x.b, model, memo)),
    };
    memo.insert(e, r);
    r
  }
}
