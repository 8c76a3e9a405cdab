//! symx: exhaustive symbolic execution of LLVM IR with z3.
mod exec;
mod explore;
mod expr;
mod ir;
mod z3;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn nums(v: &[u64]) -> String {
  format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn strs<'a>(v: impl Iterator<Item = &'a String>) -> String {
  format!("[{}]", v.map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn main() {
  let mut opt: BTreeMap<String, String> = BTreeMap::new();
  let args: Vec<String> = std::env::args().skip(1).collect();
  let mut i = 0;
  while i + 1 < args.len() {
    opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
    i += 2;
  }
  let get = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().expect("number"));
  let t0 = Instant::now();
  let text = std::fs::read_to_string(&opt["ll"]).expect("read ll");
  let m = match ir::parse_module(&text) {
    Ok(m) => m,
    Err(e) => {
      eprintln!("symx: cannot read the IR: {}", e);
      std::process::exit(3);
    }
  };
  let ir_bytes = text.len();
  drop(text);
  let parse_ms = t0.elapsed().as_millis();
  let entry = match m.fn_by_name.get(&opt["entry"]) {
    Some(e) => *e,
    None => {
      eprintln!("symx: no function {}", opt["entry"]);
      std::process::exit(3);
    }
  };
  let cfg = exec::Config {
    entry,
    max_instr: get("max-instr", 20_000_000),
    max_depth: get("max-depth", 20_000) as usize,
    preemptions: get("preemptions", 0) as u32,
    heap_mb: get("heap-mb", 64) as usize,
  };
  if let Some(v) = opt.get("model") {
    let model: Vec<u64> = v.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    let mut ex = exec::Exec::new(&m, &cfg);
    let r = ex.run(&model);
    println!("{:?}", r);
    println!("vars {:?}", ex.vars.iter().map(|v| (v.3, v.1, v.2)).collect::<Vec<_>>());
    println!("observed {:?}", ex.observed);
    println!("covers {:?}", ex.covers);
    println!("instrs {} events {}", ex.instrs, ex.events.len());
    println!("backtrace {:#?}", ex.backtrace());
    if opt.contains_key("trace") {
      for e in &ex.events {
        let (f, _) = m.blk_dbg[e.blk as usize];
        println!("{} {}", m.funcs[f as usize].name, blk_lines(&m, e.blk));
      }
    }
    return;
  }
  let lim = explore::Limits {
    workers: get("workers", 8) as usize,
    wall: Duration::from_secs(get("wall", 600)),
    max_viol: get("max-viol", 3) as usize,
    samples: get("samples", 200) as usize,
    dumps: get("dumps", 0) as usize,
    query_ms: get("query-ms", 60_000) as u32,
    seed: get("seed", 1),
  };
  let t1 = Instant::now();
  let o = explore::explore(&m, &cfg, &lim);
  let wall = t1.elapsed().as_secs_f64();
  // source functions that were executed
  let mut fns: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
  for (b, c) in o.cov.iter().enumerate() {
    if *c == 0 {
      continue;
    }
    for d in &m.blk_dbg[b].1 {
      let mut d = *d;
      for _ in 0..64 {
        let Some((_, scope, inl)) = m.dbg.loc.get(&d) else { break };
        if let Some((name, file, line)) = m.dbg.subprogram_of(*scope) {
          let f = m.dbg.file.get(file).cloned().unwrap_or_default();
          fns.entry(f).or_default().insert(format!("{}:{}", name, line));
        }
        if *inl == 0 {
          break;
        }
        d = *inl;
      }
    }
  }
  let mut out = String::from("{\n");
  let s = &o.stats;
  let _ = writeln!(out, "\"entry\": {},", js(&opt["entry"]));
  let _ = writeln!(out, "\"complete\": {}, \"timed_out\": {}, \"left\": {},", o.complete, o.timed_out, o.left);
  let _ = writeln!(out, "\"paths\": {}, \"paths_done\": {}, \"paths_expected_panic\": {}, \"paths_assume_false\": {},", s.paths, s.done, s.expected_panic, s.assume_false);
  let _ = writeln!(out, "\"instructions\": {}, \"max_path_instructions\": {}, \"decisions\": {},", s.instrs, s.max_path_instrs, s.decisions);
  let _ = writeln!(
    out,
    "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cache_hits\": {}, \"trivial\": {}, \"solver_s\": {:.3}, \"max_query_ms\": {:.3},",
    s.queries, s.sat, s.unsat, s.cache_hits, s.trivial, s.solver_us as f64 / 1e6, s.max_query_us as f64 / 1e3
  );
  let _ = writeln!(out, "\"max_symbolic_inputs\": {}, \"max_path_decisions\": {}, \"max_observed\": {},", s.max_vars, s.max_events, s.max_observed);
  let _ = writeln!(out, "\"wall_s\": {:.3}, \"parse_ms\": {}, \"ir_bytes\": {}, \"ir_functions\": {},", wall, parse_ms, ir_bytes, m.funcs.len());
  let _ = writeln!(out, "\"solver\": {},", js(&z3::version()));
  let _ = writeln!(out, "\"covers\": {},", strs(o.covers.iter()));
  let _ = writeln!(out, "\"errors\": {},", strs(o.errors.iter()));
  let _ = writeln!(out, "\"violations\": [");
  for (i, v) in o.violations.iter().enumerate() {
    let _ = writeln!(
      out,
      "{}{{\"kind\": {}, \"msg\": {}, \"values\": {}, \"backtrace\": {}}}",
      if i > 0 { "," } else { "" },
      js(&v.kind),
      js(&v.msg),
      nums(&v.values),
      strs(v.backtrace.iter())
    );
  }
  let _ = writeln!(out, "],\n\"traces\": [");
  for (i, v) in o.traces.iter().enumerate() {
    let _ = writeln!(
      out,
      "{}{{\"values\": {}, \"observed\": {}, \"outcome\": {}}}",
      if i > 0 { "," } else { "" },
      nums(&v.values),
      nums(&v.observed),
      js(&v.outcome)
    );
  }
  let _ = writeln!(out, "],\n\"dumps\": [");
  for (i, (d, sat)) in o.dumps.iter().enumerate() {
    let _ = writeln!(out, "{}{{\"sat\": {}, \"smt\": {}}}", if i > 0 { "," } else { "" }, sat, js(d));
  }
  let _ = writeln!(out, "],\n\"functions\": {{");
  let mut first = true;
  for (f, v) in &fns {
    let _ = writeln!(out, "{}{}: {}", if first { "" } else { "," }, js(f), strs(v.iter()));
    first = false;
  }
  out.push_str("}\n}\n");
  match opt.get("out") {
    Some(p) => std::fs::write(p, out).unwrap(),
    None => print!("{}", out),
  }
}

fn blk_lines(m: &ir::Module, b: u32) -> String {
  let mut v = Vec::new();
  for d in &m.blk_dbg[b as usize].1 {
    if let Some((line, scope, _)) = m.dbg.loc.get(d) {
      if let Some((n, f, _)) = m.dbg.subprogram_of(*scope) {
        v.push(format!("{}:{}:{}", m.dbg.file.get(f).map_or("?", |s| s.rsplit('/').next().unwrap()), line, n));
      }
    }
  }
  v.join(" ")
}
