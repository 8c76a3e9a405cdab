//! C19: CollectMap and merge_value_pairs against an association list.
use bongo::utils::{merge_value_pairs, CollectMap, WasChanged};
use rt::*;
use std::collections::{BTreeMap, BTreeSet};

/// Reference: the pairs that were put in, without duplicates.
#[derive(Default)]
struct Pairs(Vec<(u8, u8)>);

impl Pairs {
  fn has(&self, k: u8, v: u8) -> bool {
    self.0.iter().any(|p| p.0 == k && p.1 == v)
  }
  fn has_key(&self, k: u8) -> bool {
    self.0.iter().any(|p| p.0 == k)
  }
  fn add(&mut self, k: u8, v: u8) -> bool {
    if self.has(k, v) {
      return false;
    }
    self.0.push((k, v));
    true
  }
}

fn ch(w: WasChanged) -> bool {
  matches!(w, WasChanged::Changed)
}

fn compare(m: &BTreeMap<u8, BTreeSet<u8>>, r: &Pairs) {
  let mut n = 0;
  for (k, vs) in m {
    for v in vs {
      check!(r.has(*k, *v), "a value nobody put under that key");
      n += 1;
    }
  }
  check!(n == r.0.len(), "a value is missing");
}

fn ops(n: usize) {
  let mut r = Pairs::default();
  let mut m: CollectMap<u8, u8> = match pick(3) {
    0 => CollectMap::new(),
    1 => CollectMap::default(),
    _ => {
      let (k, v) = (byte(0, 255), byte(0, 255));
      r.add(k, v);
      let mut s = BTreeMap::new();
      s.insert(k, std::iter::once(v).collect());
      CollectMap::from_seed(s)
    }
  };
  for _ in 0..n {
    match pick(3) {
      0 => {
        let (k, v) = (byte(0, 255), byte(0, 255));
        let c = ch(m.insert(k, v));
        check!(c == r.add(k, v), "insert: wrong change report");
        observe(c as u64);
      }
      1 => {
        let k = byte(0, 255);
        let len = pick(3);
        let vs: Vec<u8> = (0..len).map(|_| byte(0, 255)).collect();
        let c = ch(m.insert_iter(k, vs.iter().cloned()));
        let mut want = false;
        for v in vs {
          want |= r.add(k, v);
        }
        check!(c == want, "insert_iter: wrong change report");
        observe(c as u64);
      }
      _ => {
        let (k, s) = (byte(0, 255), byte(0, 255));
        let c = ch(m.insert_from_key_set(k, s));
        let mut want = false;
        let src: Vec<u8> = r.0.iter().filter(|p| p.0 == s).map(|p| p.1).collect();
        for v in src {
          want |= r.add(k, v);
        }
        check!(c == want, "insert_from_key_set: wrong change report");
        observe(c as u64);
        if want {
          cover("copied");
        }
      }
    }
  }
  // whichever key is asked for, whichever value is looked at
  let (k, v) = (byte(0, 255), byte(0, 255));
  match m.get(&k) {
    Some(s) => {
      check!(s.contains(&v) == r.has(k, v), "get: wrong contents");
      check!(s.is_empty() != r.has_key(k), "get: wrong emptiness");
      cover("hit");
    }
    None => {
      check!(!r.has_key(k), "get: key lost");
      cover("miss");
    }
  }
  let mut seen = 0;
  let mut last: Option<u8> = None;
  for (k, vs) in m.iter() {
    if let Some(l) = last {
      check!(l < *k, "iter: keys repeated or out of order");
    }
    last = Some(*k);
    for v in vs {
      check!(r.has(*k, *v), "iter: a value nobody put in");
      seen += 1;
    }
  }
  check!(seen == r.0.len(), "iter: a value is missing");
  observe(seen as u64);
  compare(&m.into_inner(), &r);
}

fn merge(n: usize) {
  let len = pick(n + 1);
  let ps: Vec<(u8, u8)> = (0..len).map(|_| (byte(0, 255), byte(0, 255))).collect();
  let mut r = Pairs::default();
  for p in &ps {
    r.add(p.0, p.1);
  }
  let m = merge_value_pairs(ps);
  compare(&m, &r);
  for (_, vs) in &m {
    check!(!vs.is_empty(), "merge_value_pairs: a key without values");
  }
  observe(m.len() as u64);
  if m.len() == n {
    cover("distinct");
  }
  if m.len() < len {
    cover("merged");
  }
}

entries! {
  ops2 => ops(2);
  ops3 => ops(3);
  merge4 => merge(4);
  merge5 => merge(5);
}
