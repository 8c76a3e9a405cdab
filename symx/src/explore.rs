//! Exhaustive exploration of the path tree of one entry point.  Every
//! alternative of every decision that depends on a symbolic input is put to the
//! SMT solver; the alternatives it finds satisfiable become new paths, the ones
//! it refutes are pruned.  When the queue is empty every feasible path was run.

use crate::exec::*;
use crate::expr::*;
use crate::ir::Module;
use crate::z3::{Res, Z3};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Item {
  model: Vec<u64>,
  /// events below this index were explored by the ancestors
  k: usize,
  /// hash of the constraints of events 0..k
  prefix: u128,
}

#[derive(Clone)]
enum Cached {
  Unsat,
  Sat(Vec<(u32, u64)>),
}

#[derive(Clone)]
pub struct Trace {
  pub values: Vec<u64>,
  pub observed: Vec<u64>,
  pub outcome: String,
}

#[derive(Clone)]
pub struct Viol {
  pub kind: String,
  pub msg: String,
  pub values: Vec<u64>,
  pub backtrace: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
  pub paths: u64,
  pub done: u64,
  pub expected_panic: u64,
  pub assume_false: u64,
  pub instrs: u64,
  pub max_path_instrs: u64,
  pub decisions: u64,
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub cache_hits: u64,
  pub trivial: u64,
  pub solver_us: u64,
  pub max_query_us: u64,
  pub max_vars: usize,
  pub max_events: usize,
  pub max_observed: usize,
}

impl Stats {
  fn add(&mut self, o: &Stats) {
    self.paths += o.paths;
    self.done += o.done;
    self.expected_panic += o.expected_panic;
    self.assume_false += o.assume_false;
    self.instrs += o.instrs;
    self.max_path_instrs = self.max_path_instrs.max(o.max_path_instrs);
    self.decisions += o.decisions;
    self.queries += o.queries;
    self.sat += o.sat;
    self.unsat += o.unsat;
    self.cache_hits += o.cache_hits;
    self.trivial += o.trivial;
    self.solver_us += o.solver_us;
    self.max_query_us = self.max_query_us.max(o.max_query_us);
    self.max_vars = self.max_vars.max(o.max_vars);
    self.max_events = self.max_events.max(o.max_events);
    self.max_observed = self.max_observed.max(o.max_observed);
  }
}

pub struct Limits {
  pub workers: usize,
  pub wall: Duration,
  pub max_viol: usize,
  pub samples: usize,
  pub dumps: usize,
  pub query_ms: u32,
  pub seed: u64,
}

pub struct Outcome {
  pub stats: Stats,
  pub violations: Vec<Viol>,
  pub errors: Vec<String>,
  pub covers: BTreeSet<String>,
  pub traces: Vec<Trace>,
  /// (SMT-LIB text, verdict)
  pub dumps: Vec<(String, bool)>,
  pub complete: bool,
  pub timed_out: bool,
  pub left: usize,
  pub cov: Vec<u8>,
}

const SHARDS: usize = 64;

struct Shared {
  queue: Mutex<(Vec<Item>, usize)>, // items, busy workers
  cv: Condvar,
  stop: AtomicBool,
  cache: Vec<Mutex<HashMap<u128, Cached>>>,
  out: Mutex<Outcome>,
  seen: AtomicU64,
}

struct Group {
  mask: u128,
  sum: u128,
  cs: Vec<u32>,
}

struct Solver<'a> {
  z3: Z3,
  sh: &'a Shared,
  st: Stats,
  lim: &'a Limits,
  rng: u64,
  last_dump: usize,
}

impl<'a> Solver<'a> {
  /// Is `o` satisfiable together with the groups it depends on?
  /// Some(assignments) / None; Err on an unknown answer.
  fn query(&mut self, ex: &Exec, groups: &[Group], o: u32) -> Result<Option<Vec<(u32, u64)>>, String> {
    let pool = &ex.pool;
    if let Some(k) = pool.is_const(o) {
      self.st.trivial += 1;
      return Ok(if k == 1 { Some(vec![]) } else { None });
    }
    let mo = pool.meta(o);
    let mut mask = mo.vars;
    let mut sum = mix128(mo.hash, 0x517c);
    let mut cs: Vec<u32> = Vec::new();
    for g in groups {
      if g.mask & mo.vars != 0 {
        mask |= g.mask;
        sum = sum.wrapping_add(g.sum);
        cs.extend_from_slice(&g.cs);
      }
    }
    let shard = &self.sh.cache[(sum as usize ^ (sum >> 64) as usize) % SHARDS];
    if let Some(c) = shard.lock().unwrap().get(&sum) {
      self.st.cache_hits += 1;
      return Ok(match c {
        Cached::Unsat => None,
        Cached::Sat(v) => Some(v.clone()),
      });
    }
    cs.push(o);
    let vars: Vec<(u32, u64, u64)> = ex
      .vars
      .iter()
      .filter(|v| pool.meta(v.0).vars & mask != 0)
      .map(|v| (v.0, v.1, v.2))
      .collect();
    self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let want = self.last_dump < self.lim.dumps && (self.st.queries < 4 || (self.rng >> 33) % 61 == 0);
    let mut d = String::new();
    let t = Instant::now();
    let r = self.z3.check(pool, &cs, &vars, if want { Some(&mut d) } else { None });
    let us = t.elapsed().as_micros() as u64;
    self.st.queries += 1;
    self.st.solver_us += us;
    self.st.max_query_us = self.st.max_query_us.max(us);
    let res = match r {
      Res::Unsat => {
        self.st.unsat += 1;
        Cached::Unsat
      }
      Res::Sat(v) => {
        self.st.sat += 1;
        // check the model against our own evaluator
        let mut model: Vec<u64> = ex.vars.iter().map(|x| x.3).collect();
        for (o, x) in &v {
          model[*o as usize] = *x;
        }
        let mut memo = HashMap::new();
        for c in &cs {
          if pool.eval(*c, &model, &mut memo) != 1 {
            return Err("solver model does not satisfy the constraints".into());
          }
        }
        for (e, lo, hi) in &vars {
          let x = model[pool.get(*e).a as usize];
          if x < *lo || x > *hi {
            return Err("solver model leaves the domain of a variable".into());
          }
        }
        Cached::Sat(v)
      }
      Res::Unknown => return Err(format!("solver gave no answer within {} ms", self.lim.query_ms)),
    };
    if want {
      self.last_dump += 1;
      self.sh.out.lock().unwrap().dumps.push((d, matches!(res, Cached::Sat(_))));
    }
    shard.lock().unwrap().insert(sum, res.clone());
    Ok(match res {
      Cached::Unsat => None,
      Cached::Sat(v) => Some(v),
    })
  }
}

fn add_group(groups: &mut Vec<Group>, pool: &Pool, c: u32) {
  let m = pool.meta(c);
  let mut g = Group { mask: m.vars, sum: mix128(m.hash, 0x99), cs: Vec::new() };
  let mut i = 0;
  while i < groups.len() {
    if groups[i].mask & g.mask != 0 {
      let o = groups.swap_remove(i);
      g.mask |= o.mask;
      g.sum = g.sum.wrapping_add(o.sum);
      if g.cs.len() < o.cs.len() {
        let mut cs = o.cs;
        cs.extend_from_slice(&g.cs);
        g.cs = cs;
      } else {
        g.cs.extend_from_slice(&o.cs);
      }
    } else {
      i += 1;
    }
  }
  g.cs.push(c);
  groups.push(g);
}

fn worker(m: &Module, cfg: &Config, lim: &Limits, sh: &Shared, id: u64) {
  let mut ex = Exec::new(m, cfg);
  let mut s = Solver {
    z3: Z3::new(lim.query_ms),
    sh,
    st: Stats::default(),
    lim,
    rng: lim.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ id.wrapping_mul(0xD1B54A32D192ED03),
    last_dump: 0,
  };
  loop {
    let item = {
      let mut q = sh.queue.lock().unwrap();
      loop {
        if sh.stop.load(SeqCst) {
          break None;
        }
        if let Some(i) = q.0.pop() {
          q.1 += 1;
          break Some(i);
        }
        if q.1 == 0 {
          sh.cv.notify_all();
          break None;
        }
        q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
      }
    };
    let Some(item) = item else { break };
    let mut kids = Vec::new();
    let r = step(&mut ex, &mut s, &item, sh, lim, &mut kids);
    if let Err(e) = r {
      let mut o = sh.out.lock().unwrap();
      if o.errors.len() < 5 {
        o.errors.push(format!("{} (path values {:?}, in {:?})", e, ex.vars.iter().map(|v| v.3).collect::<Vec<_>>(), ex.backtrace()));
      }
      sh.stop.store(true, SeqCst);
    }
    {
      let mut q = sh.queue.lock().unwrap();
      if sh.stop.load(SeqCst) {
        // keep what is left visible as unexplored
        q.0.extend(kids);
      } else {
        q.0.extend(kids);
      }
      q.1 -= 1;
      sh.cv.notify_all();
    }
    if ex.pool.len() > 1_500_000 {
      ex.pool = Pool::new();
      s.z3 = Z3::new(lim.query_ms);
    }
  }
  let mut o = sh.out.lock().unwrap();
  o.stats.add(&s.st);
  for (a, b) in o.cov.iter_mut().zip(&ex.cov) {
    *a |= *b;
  }
}

fn step(ex: &mut Exec, s: &mut Solver, item: &Item, sh: &Shared, lim: &Limits, kids: &mut Vec<Item>) -> Result<(), String> {
  let stop = ex.run(&item.model);
  let st = &mut s.st;
  st.paths += 1;
  st.instrs += ex.instrs;
  st.max_path_instrs = st.max_path_instrs.max(ex.instrs);
  st.max_vars = st.max_vars.max(ex.vars.len());
  st.max_events = st.max_events.max(ex.events.len());
  st.max_observed = st.max_observed.max(ex.observed.len());
  let values: Vec<u64> = ex.vars.iter().map(|v| v.3).collect();
  let mut viol = None;
  let mut outcome = "";
  match stop {
    Stop::Done => {
      st.done += 1;
      outcome = "ok";
    }
    Stop::ExpectedPanic => {
      st.expected_panic += 1;
      outcome = "panic";
    }
    Stop::AssumeFalse => st.assume_false += 1,
    Stop::Violation(kind, msg) => viol = Some((kind, msg)),
    Stop::Limit => viol = Some(("limit".to_string(), "the step limit was reached (endless loop?)".to_string())),
    Stop::Error(e) => return Err(e),
  }
  // the prefix must be the one the parent predicted
  if item.k > ex.events.len() {
    return Err("path diverged from its prediction (too short)".into());
  }
  let mut h = 0u128;
  let mut groups: Vec<Group> = Vec::new();
  for e in &ex.events[..item.k] {
    h = mix128(h, ex.pool.meta(e.c).hash);
    add_group(&mut groups, &ex.pool, e.c);
  }
  if h != item.prefix {
    return Err("path diverged from its prediction".into());
  }
  if outcome != "" {
    let n = sh.seen.fetch_add(1, SeqCst);
    // keep the first few and a pseudo-random reservoir
    let mut o = sh.out.lock().unwrap();
    if o.traces.len() < lim.samples {
      o.traces.push(Trace { values: values.clone(), observed: ex.observed.clone(), outcome: outcome.into() });
    } else if lim.samples > 0 {
      s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
      let j = ((s.rng >> 20) % (n + 1)) as usize;
      if j < lim.samples {
        o.traces[j] = Trace { values: values.clone(), observed: ex.observed.clone(), outcome: outcome.into() };
      }
    }
    for c in &ex.covers {
      if !o.covers.contains(c) {
        o.covers.insert(c.clone());
      }
    }
  }
  if let Some((kind, msg)) = viol {
    let mut o = sh.out.lock().unwrap();
    o.violations.push(Viol { kind, msg, values: values.clone(), backtrace: ex.backtrace() });
    if o.violations.len() >= lim.max_viol {
      sh.stop.store(true, SeqCst);
      return Ok(());
    }
  }
  let events = std::mem::take(&mut ex.events);
  let mut res = Ok(());
  'all: for (i, ev) in events.iter().enumerate().skip(item.k) {
    s.st.decisions += 1;
    let child = |kids: &mut Vec<Item>, ex: &Exec, a: Vec<(u32, u64)>, c: u32| {
      let mut model = values.clone();
      for (o, v) in a {
        model[o as usize] = v;
      }
      kids.push(Item { model, k: i + 1, prefix: mix128(h, ex.pool.meta(c).hash) });
    };
    match &ev.alts {
      Alts::None => {}
      Alts::One(o) => match s.query(ex, &groups, *o) {
        Ok(Some(a)) => child(kids, ex, a, *o),
        Ok(None) => {}
        Err(e) => {
          res = Err(e);
          break 'all;
        }
      },
      Alts::Many(os) => {
        for o in os {
          match s.query(ex, &groups, *o) {
            Ok(Some(a)) => child(kids, ex, a, *o),
            Ok(None) => {}
            Err(e) => {
              res = Err(e);
              break 'all;
            }
          }
        }
      }
      Alts::Val(e, _) => {
        // all other values of the expression, one by one
        let w = ex.pool.w(*e);
        let mut ex_c = ex.pool.not(ev.c);
        let mut n = 0;
        loop {
          match s.query(ex, &groups, ex_c) {
            Ok(Some(a)) => {
              let mut model = values.clone();
              for (o, v) in &a {
                model[*o as usize] = *v;
              }
              let v = ex.pool.eval(*e, &model, &mut HashMap::new());
              let k = ex.pool.cst(w, v);
              let q = ex.pool.cmp(EQ, *e, k);
              child(kids, ex, a, q);
              let nq = ex.pool.not(q);
              ex_c = ex.pool.bin(AND, 1, ex_c, nq);
              n += 1;
              if n > 4096 {
                res = Err("an address or size takes more than 4096 values".into());
                break 'all;
              }
            }
            Ok(None) => break,
            Err(e) => {
              res = Err(e);
              break 'all;
            }
          }
        }
      }
    }
    h = mix128(h, ex.pool.meta(ev.c).hash);
    add_group(&mut groups, &ex.pool, ev.c);
    if i & 63 == 0 && sh.stop.load(SeqCst) {
      break;
    }
  }
  ex.events = events;
  res
}

pub fn explore(m: &Module, cfg: &Config, lim: &Limits) -> Outcome {
  let sh = Shared {
    queue: Mutex::new((vec![Item { model: vec![], k: 0, prefix: 0 }], 0)),
    cv: Condvar::new(),
    stop: AtomicBool::new(false),
    cache: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect(),
    out: Mutex::new(Outcome {
      stats: Stats::default(),
      violations: vec![],
      errors: vec![],
      covers: BTreeSet::new(),
      traces: vec![],
      dumps: vec![],
      complete: false,
      timed_out: false,
      left: 0,
      cov: vec![0; m.nblocks as usize],
    }),
    seen: AtomicU64::new(0),
  };
  let start = Instant::now();
  let timed_out = AtomicBool::new(false);
  let finished = AtomicBool::new(false);
  std::thread::scope(|sc| {
    let mut hs = Vec::new();
    for id in 0..lim.workers {
      let sh = &sh;
      hs.push(
        std::thread::Builder::new()
          .stack_size(256 << 20)
          .spawn_scoped(sc, move || worker(m, cfg, lim, sh, id as u64 + 1))
          .unwrap(),
      );
    }
    let (shr, fin, to) = (&sh, &finished, &timed_out);
    let watch = sc.spawn(move || {
      let mut last = Instant::now();
      while !fin.load(SeqCst) {
        std::thread::sleep(Duration::from_millis(20));
        if start.elapsed() > lim.wall && !shr.stop.load(SeqCst) {
          to.store(true, SeqCst);
          shr.stop.store(true, SeqCst);
        }
        if last.elapsed() > Duration::from_secs(10) {
          last = Instant::now();
          let q = shr.queue.lock().unwrap();
          eprintln!("  {:4}s: {} paths finished, {} queued", start.elapsed().as_secs(), shr.seen.load(SeqCst), q.0.len());
        }
      }
    });
    let mut bad = None;
    for h in hs {
      if let Err(e) = h.join() {
        sh.stop.store(true, SeqCst);
        bad = Some(
          e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("worker died".into()),
        );
      }
    }
    finished.store(true, SeqCst);
    watch.join().unwrap();
    if let Some(b) = bad {
      let mut o = match sh.out.lock() {
        Ok(o) => o,
        Err(p) => p.into_inner(),
      };
      o.errors.push(format!("engine failure: {}", b));
    }
  });
  let left = match sh.queue.lock() {
    Ok(q) => q.0.len(),
    Err(p) => p.into_inner().0.len(),
  };
  let mut o = match sh.out.into_inner() {
    Ok(o) => o,
    Err(p) => p.into_inner(),
  };
  o.timed_out = timed_out.load(SeqCst);
  o.left = left;
  o.complete = left == 0 && !o.timed_out && o.errors.is_empty() && !sh.stop.load(SeqCst);
  o
}
