//! Run-time side of the harnesses.  Under symx every `symx_*` function is
//! intercepted; compiled natively they replay one set of input values, which is
//! how counterexamples and sampled paths are confirmed against the real code.
#![allow(clippy::missing_safety_doc)]
pub mod gram;
pub mod refs;

use std::hint::black_box;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

struct Replay {
  values: Vec<u64>,
  next: usize,
  observed: Vec<u64>,
}

static REPLAY: Mutex<Option<Replay>> = Mutex::new(None);
static EXPECT_PANIC: AtomicBool = AtomicBool::new(false);
static MISMATCH: AtomicUsize = AtomicUsize::new(0);
static THREADS: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

fn finish(status: &str, code: i32) -> ! {
  let r = REPLAY.lock().unwrap_or_else(|e| e.into_inner());
  if let Some(r) = r.as_ref() {
    let v: Vec<String> = r.observed.iter().map(|x| x.to_string()).collect();
    println!("status {}", status);
    println!("observed {}", v.join(" "));
    println!("used {}", r.next);
    println!("domain_errors {}", MISMATCH.load(SeqCst));
  }
  use std::io::Write;
  let _ = std::io::stdout().flush();
  std::process::exit(code)
}

/// Native entry: `SYMX_ENTRY` names the entry point, `SYMX_VALUES` holds the
/// input values in order of creation.
pub fn native_main(fs: &[(&str, extern "C" fn())]) {
  let s = std::env::var("SYMX_VALUES").expect("SYMX_VALUES");
  let e = std::env::var("SYMX_ENTRY").expect("SYMX_ENTRY");
  let f = fs.iter().find(|f| f.0 == e).expect("entry").1;
  let values = s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect();
  *REPLAY.lock().unwrap() = Some(Replay { values, next: 0, observed: vec![] });
  std::panic::set_hook(Box::new(|i| {
    eprintln!("{}", i);
    if EXPECT_PANIC.load(SeqCst) {
      finish("panic", 0);
    }
    eprintln!("PANIC");
    finish("violation:panic", 101);
  }));
  f();
  finish("ok", 0);
}

macro_rules! intercepted {
  ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => {
    $(#[no_mangle] #[inline(never)] pub extern "C" fn $n($($a: $t),*) $(-> $r)? { $(let _ = black_box($a);)* $b })*
  };
}

intercepted! {
  fn symx_range(lo: u64, hi: u64) -> u64 {
    if lo == hi {
      return lo;
    }
    let mut r = REPLAY.lock().unwrap();
    let r = r.as_mut().unwrap();
    let v = r.values.get(r.next).copied().unwrap_or(lo);
    r.next += 1;
    if v < lo || v > hi {
      MISMATCH.fetch_add(1, SeqCst);
      return lo;
    }
    v
  }
  fn symx_assume(c: bool) {
    if !c {
      finish("assume", 0);
    }
  }
  fn symx_fail(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    eprintln!("PROPERTY FAILS: {}", String::from_utf8_lossy(s));
    finish("violation:fail", 42);
  }
  fn symx_cover(p: *const u8, n: usize) {
    let _ = black_box((p, n));
  }
  fn symx_concretize(v: u64) -> u64 {
    black_box(v)
  }
  fn symx_observe(v: u64) {
    REPLAY.lock().unwrap().as_mut().unwrap().observed.push(v);
  }
  fn symx_expect_panic() {
    EXPECT_PANIC.store(true, SeqCst);
  }
  fn symx_is_symbolic() -> u32 {
    black_box(0)
  }
  fn symx_spawn(f: extern "C" fn(u64), a: u64) {
    let h = std::thread::spawn(move || f(a));
    THREADS.lock().unwrap().push(h);
  }
  fn symx_join_all() {
    let hs: Vec<_> = std::mem::take(&mut *THREADS.lock().unwrap());
    for h in hs {
      let _ = h.join();
    }
  }
  fn symx_yield() {
    std::thread::yield_now();
  }
}

/// A symbolic number in lo..=hi.
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 {
  symx_range(lo, hi)
}
#[inline(always)]
pub fn byte(lo: u8, hi: u8) -> u8 {
  symx_range(lo as u64, hi as u64) as u8
}
#[inline(always)]
pub fn flag() -> bool {
  symx_range(0, 1) != 0
}
/// A symbolic number below `n` that is split into its values at once (one path
/// each, all of them enumerated by the solver).
#[inline(always)]
pub fn pick(n: usize) -> usize {
  if n <= 1 {
    return 0;
  }
  symx_concretize(symx_range(0, n as u64 - 1)) as usize
}
/// Like `pick` for lo..=hi.
#[inline(always)]
pub fn pick_in(lo: usize, hi: usize) -> usize {
  lo + pick(hi - lo + 1)
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
  symx_concretize(v)
}
#[inline(always)]
pub fn assume(c: bool) {
  symx_assume(c)
}
#[inline(never)]
pub fn fail(s: &'static str) -> ! {
  symx_fail(s.as_ptr(), s.len());
  std::process::abort()
}
#[inline(always)]
pub fn cover(s: &'static str) {
  symx_cover(s.as_ptr(), s.len())
}
#[inline(always)]
pub fn observe(v: u64) {
  symx_observe(v)
}
#[inline(always)]
pub fn expect_panic() {
  symx_expect_panic()
}
/// Starts a thread that runs f(a).
#[inline(always)]
pub fn spawn(f: extern "C" fn(u64), a: u64) {
  symx_spawn(f, a)
}
#[inline(always)]
pub fn join_all() {
  symx_join_all()
}
#[inline(always)]
pub fn symbolic() -> bool {
  symx_is_symbolic() != 0
}

#[macro_export]
macro_rules! check {
  ($c:expr, $m:expr) => {
    if !($c) {
      $crate::fail($m)
    }
  };
}

/// Defines the entry points and the native main.
#[macro_export]
macro_rules! entries {
  ($($name:ident => $body:expr;)*) => {
    mod entries_ {
      #[allow(unused_imports)]
      use super::*;
      $(
        #[export_name = concat!("symx_main_", stringify!($name))]
        #[inline(never)]
        pub extern "C" fn $name() { $body }
      )*
    }
    fn main() {
      $crate::native_main(&[$((stringify!($name), entries_::$name as extern "C" fn())),*]);
    }
  };
}
