//! C09: pass contexts.
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::{Pass, PassContext};
use bongo::grammar::{build, Grammar};
use rt::gram::*;
use rt::*;
use std::cell::RefCell;
use std::rc::Rc;

const N: usize = 3;

#[derive(Default, Clone)]
struct Conf {
  /// deps[i]: passes that pass i asks for, in order
  deps: [Vec<usize>; N],
  fails: [bool; N],
  /// pass i goes on when a dependency fails
  tolerant: [bool; N],
  runs: [u32; N],
}

thread_local! {
  static CONF: RefCell<Conf> = RefCell::new(Conf::default());
}

#[derive(Debug)]
struct E(u8);
impl std::fmt::Display for E {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str("pass failed")
  }
}
impl std::error::Error for E {}

type Ctx<'a> = PassContext<'a, u8, u8, u8, u8>;

fn body(i: usize, ctx: &Ctx) -> Result<(), E> {
  let (deps, fails, tolerant) = CONF.with(|c| {
    let mut c = c.borrow_mut();
    c.runs[i] += 1;
    (c.deps[i].clone(), c.fails[i], c.tolerant[i])
  });
  for d in deps {
    if let Err(e) = ask(ctx, d) {
      if !tolerant {
        return Err(e);
      }
    }
  }
  if fails {
    return Err(E(i as u8));
  }
  Ok(())
}

/// The address of the shared result, and the mark it carries.  The passes'
/// types have one name, and two of them one layout.
fn ask(ctx: &Ctx, i: usize) -> Result<(usize, u8), E> {
  macro_rules! ask_pass {
    ($i:expr, $t:ty, $x:expr) => {{
      #[allow(dead_code)]
      struct P(u8, $t);
      impl Pass<u8, u8, u8, u8> for P {
        type Error = E;
        fn run_pass(ctx: &Ctx) -> Result<Self, E> {
          body($i, ctx).map(|_| P($i, $x))
        }
      }
      ctx.get_pass::<P>().map(|r| (Rc::as_ptr(&r) as *const u8 as usize, r.0))
    }};
  }
  match i {
    0 => ask_pass!(0, u64, 1),
    1 => ask_pass!(1, (), ()),
    _ => ask_pass!(2, u64, 3),
  }
}

enum R {
  Done,
  Failed(u8),
  Loop,
}

fn model(c: &Conf, done: &mut [bool; N], stack: &mut Vec<usize>, i: usize) -> R {
  if stack.contains(&i) {
    return R::Loop;
  }
  if done[i] {
    return R::Done;
  }
  stack.push(i);
  for &d in &c.deps[i] {
    match model(c, done, stack, d) {
      R::Loop => return R::Loop,
      R::Failed(e) => {
        if !c.tolerant[i] {
          stack.pop();
          return R::Failed(e);
        }
      }
      R::Done => {}
    }
  }
  stack.pop();
  if c.fails[i] {
    return R::Failed(i as u8);
  }
  done[i] = true;
  R::Done
}

fn run(requests: usize, deps: usize, cyclic: bool) {
  let g: Grammar<u8, u8, u8, u8> = build(0u8, |gb| {
    gb.add_rule(0u8, |rb| {
      rb.add_prod(0u8, 0u8, |_| {});
    });
  })
  .ok()
  .unwrap();
  let mut c = Conf::default();
  for i in 0..N {
    for _ in 0..pick(deps + 1) {
      // without cycles: only on passes with a higher number
      if cyclic {
        c.deps[i].push(pick(N));
      } else if i + 1 < N {
        c.deps[i].push(pick_in(i + 1, N - 1));
      }
    }
    c.fails[i] = flag();
    c.tolerant[i] = flag();
  }
  CONF.with(|x| *x.borrow_mut() = c.clone());
  let ctx = PassContext::new(&g);
  check!(std::ptr::eq(ctx.grammar(), &g), "another grammar");
  let mut done = [false; N];
  let mut at: [Option<usize>; N] = [None; N];
  for _ in 0..requests {
    let i = pick(N);
    let want = model(&c, &mut done, &mut Vec::new(), i);
    if let R::Loop = want {
      cover("loop");
      expect_panic();
      let _ = ask(&ctx, i);
      fail("a pass that requests itself did not panic");
    }
    match (ask(&ctx, i), want) {
      (Ok((p, mark)), R::Done) => {
        check!(mark == i as u8, "the result of another pass");
        if let Some(q) = at[i] {
          check!(p == q, "the result is not shared");
          cover("cached");
        }
        at[i] = Some(p);
        observe(i as u64);
      }
      (Err(e), R::Failed(w)) => {
        check!(e.0 == w, "another pass' error");
        cover("failed");
        observe(100 + w as u64);
      }
      (Ok(_), _) => fail("a failing pass gave a result"),
      (Err(_), _) => fail("a pass failed that does not"),
    }
    let runs = CONF.with(|x| x.borrow().runs);
    for j in 0..N {
      if done[j] && !c.fails[j] {
        // it may have failed before because of its dependencies only if it
        // fails now too, so a pass that is done ran exactly once
        check!(runs[j] == 1, "a pass ran more than once");
      }
    }
  }
}

/// What a pass finds out about the grammar it runs for.
struct Facts(u8, usize);
/// Asks for `Facts`.
struct Doubled(u8);

impl Pass<u8, u8, u8, u8> for Facts {
  type Error = E;
  fn run_pass(ctx: &Ctx) -> Result<Self, E> {
    Ok(Facts(*ctx.grammar().start_nt(), ctx.grammar().rules().count()))
  }
}

impl Pass<u8, u8, u8, u8> for Doubled {
  type Error = E;
  fn run_pass(ctx: &Ctx) -> Result<Self, E> {
    Ok(Doubled(ctx.get_pass::<Facts>()?.0 ^ 0xff))
  }
}

/// Requests to the contexts of two grammars, or to two contexts of one, in any
/// order.
fn apart(requests: usize) {
  let s = [byte(0, 255), byte(0, 255)];
  let make = |x: u8| -> G {
    build(x, |gb| {
      gb.add_rule(x, |rb| {
        rb.add_prod(0u8, 0u8, |_| {});
      });
    })
    .ok()
    .unwrap()
  };
  let gs = [make(s[0]), make(s[1])];
  let one = flag();
  let ctxs = [PassContext::new(&gs[0]), PassContext::new(&gs[if one { 0 } else { 1 }])];
  let mut at: [[Option<usize>; 2]; 2] = [[None; 2]; 2];
  let mut keep: Vec<Rc<dyn std::any::Any>> = Vec::new();
  for _ in 0..requests {
    let c = pick(2);
    let start = s[if one { 0 } else { c }];
    let k = pick(2);
    let p = if k == 0 {
      let Ok(f) = ctxs[c].get_pass::<Facts>() else { fail("a pass failed that does not") };
      check!(f.0 == start && f.1 == 1, "the result for another grammar");
      keep.push(f.clone());
      Rc::as_ptr(&f) as usize
    } else {
      let Ok(f) = ctxs[c].get_pass::<Doubled>() else { fail("a pass failed that does not") };
      check!(f.0 == start ^ 0xff, "the result for another grammar");
      keep.push(f.clone());
      Rc::as_ptr(&f) as usize
    };
    match at[c][k] {
      Some(q) => {
        check!(p == q, "the result is not shared");
        cover("cached");
      }
      None => {
        check!(at[1 - c][k] != Some(p), "one result for two contexts");
        at[c][k] = Some(p);
      }
    }
    observe(c as u64);
  }
}

/// bongo's own passes, requested in any order from one context, give what they
/// give a context of their own.
fn own(s: Shape, requests: usize) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let n = r.rules.len() as u8;
  let ctx = PassContext::new(&g);
  let mut at: [Option<usize>; 3] = [None; 3];
  for _ in 0..requests {
    let i = pick(3);
    let fresh = PassContext::new(&g);
    let (got, ok) = match i {
      0 => {
        let w = fresh.get_pass::<Nullable<u8, u8>>().ok();
        let h = ctx.get_pass::<Nullable<u8, u8>>().ok();
        if let (Some(w), Some(h)) = (&w, &h) {
          check!((0..n).all(|j| w.is_nullable(&j) == h.is_nullable(&j)), "the result for something else");
        }
        (h.map(|p| Rc::as_ptr(&p) as usize), w.is_some())
      }
      1 => {
        let w = fresh.get_pass::<Firsts<u8, u8>>().ok();
        let h = ctx.get_pass::<Firsts<u8, u8>>().ok();
        if let (Some(w), Some(h)) = (&w, &h) {
          check!((0..n).all(|j| w.get(&j) == h.get(&j)), "the result for something else");
        }
        (h.map(|p| Rc::as_ptr(&p) as usize), w.is_some())
      }
      _ => {
        let w = fresh.get_pass::<Follows<u8, u8>>().ok();
        let h = ctx.get_pass::<Follows<u8, u8>>().ok();
        if let (Some(w), Some(h)) = (&w, &h) {
          check!(w.verif_sets() == h.verif_sets(), "the result for something else");
        }
        (h.map(|p| Rc::as_ptr(&p) as usize), w.is_some())
      }
    };
    check!(got.is_some() == ok, "the outcome depends on the requests before");
    match (at[i], got) {
      (Some(p), Some(q)) => {
        check!(p == q, "the result is not shared");
        cover("cached");
      }
      (None, Some(q)) => at[i] = Some(q),
      (_, None) => cover("failed"),
    }
    observe(i as u64);
  }
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 2, elems: 3, extra_nts: 0, terms: 1, named: false };

entries! {
  apart4 => apart(4);
  apart6 => apart(6);
  own3 => own(Q, 3);
  own4 => own(Shape { elems: 4, ..Q }, 4);
  order3 => run(3, 2, false);
  order4 => run(4, 2, false);
  loops => run(2, 1, true);
  loops2 => run(2, 2, true);
}
