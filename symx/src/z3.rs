//! Minimal FFI to the installed libz3 (C API), used as the deciding solver.
#![allow(non_camel_case_types, dead_code)]
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
pub type Ast = *mut c_void;
type Sort = *mut c_void;

#[link(name = "z3")]
extern "C" {
  fn Z3_mk_config() -> *mut c_void;
  fn Z3_del_config(c: *mut c_void);
  fn Z3_mk_context(c: *mut c_void) -> Ctx;
  fn Z3_del_context(c: Ctx);
  fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
  fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
  fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: Sort) -> Ast;
  fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
  fn Z3_mk_true(c: Ctx) -> Ast;
  fn Z3_mk_false(c: Ctx) -> Ast;
  fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
  fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
  fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
  fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
  fn Z3_mk_simple_solver(c: Ctx) -> *mut c_void;
  fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
  fn Z3_solver_push(c: Ctx, s: *mut c_void);
  fn Z3_solver_pop(c: Ctx, s: *mut c_void, n: c_uint);
  fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
  fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
  fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
  fn Z3_solver_to_string(c: Ctx, s: *mut c_void) -> *const c_char;
  fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
  fn Z3_mk_params(c: Ctx) -> *mut c_void;
  fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
  fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
  fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
  fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
  fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
  fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, compl: bool, out: *mut Ast) -> bool;
  fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
  fn Z3_get_error_code(c: Ctx) -> c_int;
  fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
  unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
  Sat(Vec<(u32, u64)>),
  Unsat,
  Unknown,
}

pub struct Z3 {
  ctx: Ctx,
  solver: *mut c_void,
  sorts: HashMap<u32, Sort>,
  /// bit-vector / boolean translation of an expression id
  bv: HashMap<u32, Ast>,
  bl: HashMap<u32, Ast>,
}

use crate::expr::*;

impl Z3 {
  pub fn new(timeout_ms: u32) -> Z3 {
    unsafe {
      let cfg = Z3_mk_config();
      // Plain (non reference counting) context: terms live as long as the
      // context, which is recycled together with the expression pool.
      let ctx = Z3_mk_context(cfg);
      Z3_del_config(cfg);
      let solver = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, solver);
      let p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      let k = CString::new("timeout").unwrap();
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
      Z3_solver_set_params(ctx, solver, p);
      Z3 { ctx, solver, sorts: HashMap::new(), bv: HashMap::new(), bl: HashMap::new() }
    }
  }

  fn sort(&mut self, w: u32) -> Sort {
    let ctx = self.ctx;
    *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w) })
  }

  fn num(&mut self, w: u32, v: u64) -> Ast {
    let s = self.sort(w);
    unsafe { Z3_mk_unsigned_int64(self.ctx, v, s) }
  }

  /// Translation of a width-1 expression to Bool.
  pub fn tbool(&mut self, p: &Pool, e: u32) -> Ast {
    if let Some(a) = self.bl.get(&e) {
      return *a;
    }
    let n = p.get(e);
    assert_eq!(n.w, 1);
    let c = self.ctx;
    let r = unsafe {
      match n.op {
        CONST => {
          if n.k == 1 {
            Z3_mk_true(c)
          } else {
            Z3_mk_false(c)
          }
        }
        NOT => {
          let a = self.tbool(p, n.a);
          Z3_mk_not(c, a)
        }
        AND | OR | XOR => {
          let a = self.tbool(p, n.a);
          let b = self.tbool(p, n.b);
          let v = [a, b];
          match n.op {
            AND => Z3_mk_and(c, 2, v.as_ptr()),
            OR => Z3_mk_or(c, 2, v.as_ptr()),
            _ => Z3_mk_xor(c, a, b),
          }
        }
        EQ => {
          if p.get(n.a).w == 1 {
            let a = self.tbool(p, n.a);
            let b = self.tbool(p, n.b);
            Z3_mk_eq(c, a, b)
          } else {
            let a = self.tbv(p, n.a);
            let b = self.tbv(p, n.b);
            Z3_mk_eq(c, a, b)
          }
        }
        ULT => {
          let a = self.tbv(p, n.a);
          let b = self.tbv(p, n.b);
          Z3_mk_bvult(c, a, b)
        }
        SLT => {
          let a = self.tbv(p, n.a);
          let b = self.tbv(p, n.b);
          Z3_mk_bvslt(c, a, b)
        }
        ITE => {
          let x = self.tbool(p, n.a);
          let a = self.tbool(p, n.b);
          let b = self.tbool(p, n.c);
          Z3_mk_ite(c, x, a, b)
        }
        _ => {
          let a = self.tbv(p, e);
          let one = self.num(1, 1);
          Z3_mk_eq(c, a, one)
        }
      }
    };
    self.bl.insert(e, r);
    r
  }

  pub fn tbv(&mut self, p: &Pool, e: u32) -> Ast {
    if let Some(a) = self.bv.get(&e) {
      return *a;
    }
    let n = p.get(e);
    let c = self.ctx;
    let w = n.w as u32;
    let r = unsafe {
      match n.op {
        CONST => self.num(w, n.k),
        VAR => {
          let s = self.sort(w);
          // name = ordinal and width
          Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 128 + w) as c_int), s)
        }
        EXTRACT => {
          let a = self.tbv(p, n.a);
          let lo = n.k as u32;
          Z3_mk_extract(c, lo + w - 1, lo, a)
        }
        ZEXT | SEXT => {
          let a = self.tbv(p, n.a);
          let d = w - p.get(n.a).w as u32;
          if n.op == ZEXT {
            Z3_mk_zero_ext(c, d, a)
          } else {
            Z3_mk_sign_ext(c, d, a)
          }
        }
        EQ | ULT | SLT => {
          let b = self.tbool(p, e);
          let one = self.num(1, 1);
          let zero = self.num(1, 0);
          Z3_mk_ite(c, b, one, zero)
        }
        NOT => {
          let a = self.tbv(p, n.a);
          Z3_mk_bvnot(c, a)
        }
        ITE => {
          let x = self.tbool(p, n.a);
          let a = self.tbv(p, n.b);
          let b = self.tbv(p, n.c);
          Z3_mk_ite(c, x, a, b)
        }
        _ => {
          let a = self.tbv(p, n.a);
          let b = self.tbv(p, n.b);
          match n.op {
            ADD => Z3_mk_bvadd(c, a, b),
            SUB => Z3_mk_bvsub(c, a, b),
            MUL => Z3_mk_bvmul(c, a, b),
            UDIV => Z3_mk_bvudiv(c, a, b),
            SDIV => Z3_mk_bvsdiv(c, a, b),
            UREM => Z3_mk_bvurem(c, a, b),
            SREM => Z3_mk_bvsrem(c, a, b),
            SHL => Z3_mk_bvshl(c, a, b),
            LSHR => Z3_mk_bvlshr(c, a, b),
            ASHR => Z3_mk_bvashr(c, a, b),
            AND => Z3_mk_bvand(c, a, b),
            OR => Z3_mk_bvor(c, a, b),
            XOR => Z3_mk_bvxor(c, a, b),
            CONCAT => Z3_mk_concat(c, a, b),
            o => panic!("tbv op {}", o),
          }
        }
      }
    };
    self.bv.insert(e, r);
    r
  }

  /// Is the conjunction of `cs` (width-1 expressions) satisfiable together
  /// with the domains of the listed variables `(var expr, lo, hi)`?
  pub fn check(&mut self, p: &Pool, cs: &[u32], vars: &[(u32, u64, u64)], dump: Option<&mut String>) -> Res {
    unsafe {
      let c = self.ctx;
      Z3_solver_push(c, self.solver);
      for &(v, lo, hi) in vars {
        let w = p.get(v).w as u32;
        let a = self.tbv(p, v);
        let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        if lo > 0 {
          let l = self.num(w, lo);
          Z3_solver_assert(c, self.solver, Z3_mk_not(c, Z3_mk_bvult(c, a, l)));
        }
        if hi < mask {
          let h = self.num(w, hi);
          Z3_solver_assert(c, self.solver, Z3_mk_not(c, Z3_mk_bvult(c, h, a)));
        }
      }
      for &e in cs {
        let a = self.tbool(p, e);
        Z3_solver_assert(c, self.solver, a);
      }
      if let Some(d) = dump {
        *d = CStr::from_ptr(Z3_solver_to_string(c, self.solver)).to_string_lossy().into_owned();
      }
      let r = Z3_solver_check(c, self.solver);
      let res = match r {
        1 => {
          let m = Z3_solver_get_model(c, self.solver);
          Z3_model_inc_ref(c, m);
          let mut out = Vec::new();
          for &(v, _, _) in vars {
            let a = self.tbv(p, v);
            let mut o: Ast = std::ptr::null_mut();
            assert!(Z3_model_eval(c, m, a, true, &mut o));
            let mut x = 0u64;
            assert!(Z3_get_numeral_uint64(c, o, &mut x), "z3 model value");
            out.push((p.get(v).a, x));
          }
          Z3_model_dec_ref(c, m);
          Res::Sat(out)
        }
        -1 => Res::Unsat,
        _ => Res::Unknown,
      };
      if Z3_get_error_code(c) != 0 {
        panic!("z3 error {}", Z3_get_error_code(c));
      }
      Z3_solver_pop(c, self.solver, 1);
      res
    }
  }
}

impl Drop for Z3 {
  fn drop(&mut self) {
    unsafe { Z3_del_context(self.ctx) }
  }
}
