//! C20: fixed points, change loops, graph search, take_only.
use bongo::utils::*;
use rt::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

fn ch(w: WasChanged) -> bool {
  matches!(w, WasChanged::Changed)
}

fn fixed(n: u8) {
  let t: Vec<u8> = (0..n).map(|_| byte(0, n - 1)).collect();
  let start = byte(0, n - 1);
  let at = |x: u8| {
    let mut r = t[0];
    for i in 1..n {
      if x == i {
        r = t[i as usize];
      }
    }
    r
  };
  // where the orbit ends, if it does
  let mut w = start;
  let mut steps = 0;
  loop {
    let x = at(w);
    if x == w {
      break;
    }
    if steps > n {
      cover("no fixed point");
      return;
    }
    w = x;
    steps += 1;
  }
  let got = fixed_point(start, |x| at(*x));
  check!(got == w, "fixed_point: not the first fixed point of the orbit");
  observe(got as u64);
  if steps == n - 1 {
    cover("longest orbit");
  }
}

fn changes(n: usize) {
  // change_loop
  let seq: Vec<bool> = (0..n).map(|_| flag()).collect();
  let mut calls = 0;
  change_loop(|| {
    let c = calls < n && seq[calls];
    calls += 1;
    WasChanged::from_changed(c)
  });
  let mut want = 0;
  while want < n && seq[want] {
    want += 1;
  }
  check!(calls == want + 1, "change_loop: stopped at the wrong pass");
  // change_iter
  let m = pick(n + 1);
  let items: Vec<(u8, bool)> = (0..m).map(|_| (byte(0, 255), flag())).collect();
  let mut seen: Vec<u8> = Vec::new();
  let r = change_iter(items.iter(), |x| {
    seen.push(x.0);
    WasChanged::from_changed(x.1)
  });
  check!(seen.len() == m, "change_iter: did not visit every item once");
  for i in 0..m {
    check!(seen[i] == items[i].0, "change_iter: wrong order");
  }
  let any = items.iter().any(|x| x.1);
  check!(ch(r) == any, "change_iter: wrong report");
  observe(ch(r) as u64);
  if any && !items.last().unwrap().1 {
    cover("early change");
  }
  // joining
  let (a, b) = (flag(), flag());
  let (wa, wb) = (WasChanged::from_changed(a), WasChanged::from_changed(b));
  check!(ch(wa) == a, "from_changed");
  check!(ch(wa.join(wb)) == (a || b), "join");
  let mut wc = wa;
  wc.merge(wb);
  check!(ch(wc) == (a || b), "merge");
}

fn bfs(n: usize) {
  // labels are arbitrary distinct bytes, edges arbitrary
  let lab: Vec<u8> = (0..n).map(|_| byte(0, 255)).collect();
  for i in 0..n {
    for j in 0..i {
      assume(lab[i] != lab[j]);
    }
  }
  let edge: Vec<Vec<bool>> = (0..n).map(|_| (0..n).map(|_| flag()).collect()).collect();
  let init: Vec<bool> = (0..n).map(|_| flag()).collect();
  let index = |x: u8| lab.iter().position(|l| *l == x).unwrap();
  let mut calls = vec![0u8; n];
  let got: BTreeSet<u8> = {
    let calls = &mut calls;
    breadth_first_search((0..n).filter(|i| init[*i]).map(|i| lab[i]).collect::<Vec<_>>(), |x| {
      let i = index(*x);
      calls[i] += 1;
      // a successor may come up twice
      let mut v: Vec<u8> = (0..n).filter(|j| edge[i][*j]).map(|j| lab[j]).collect();
      if let Some(f) = v.first().copied() {
        v.push(f);
      }
      v
    })
  };
  let mut reach = init.clone();
  for _ in 0..n {
    for i in 0..n {
      for j in 0..n {
        if reach[i] && edge[i][j] {
          reach[j] = true;
        }
      }
    }
  }
  let mut k = 0;
  for i in 0..n {
    if reach[i] {
      k += 1;
      check!(got.contains(&lab[i]), "a reachable item is missing");
      check!(calls[i] == 1, "a reachable item was not expanded exactly once");
    } else {
      check!(calls[i] == 0, "an unreachable item was expanded");
    }
  }
  check!(got.len() == k, "an unreachable item was returned");
  observe(k as u64);
  if k == n && init.iter().filter(|x| **x).count() == 1 {
    cover("all from one");
  }
}

/// Values are bit sets, the processor sends value & mask along each edge.
struct Proc {
  edges: Vec<(u8, u8, u8)>,
  calls: Cell<u32>,
}

impl FixedPointProcessor<u8, u8> for Proc {
  fn next(&self, key: &u8, value: &u8) -> Vec<(u8, u8)> {
    self.calls.set(self.calls.get() + 1);
    if self.calls.get() > 200 {
      fail("apply_fixed_point: keeps running");
    }
    let mut v = Vec::new();
    for e in &self.edges {
      if e.0 == *key {
        v.push((e.1, *value & e.2));
      }
    }
    v
  }
  fn merge(&self, target: &mut u8, other: u8) -> WasChanged {
    let old = *target;
    *target |= other;
    WasChanged::from_changed(*target != old)
  }
}

fn keyed(keys: u8, edges: usize, seeds: usize) {
  let m = pick(edges + 1);
  let es: Vec<(u8, u8, u8)> = (0..m).map(|_| (byte(0, keys - 1), byte(0, keys - 1), byte(0, 3))).collect();
  let mut target = BTreeMap::new();
  let mut want: Vec<Option<u8>> = vec![None; keys as usize];
  for _ in 0..pick(seeds + 1) {
    let k = byte(0, keys - 1);
    let v = byte(0, 3);
    if target.contains_key(&k) {
      return;
    }
    target.insert(k, v);
    want[concretize(k as u64) as usize] = Some(v);
  }
  let p = Proc { edges: es, calls: Cell::new(0) };
  apply_fixed_point(&p, &mut target);
  for _ in 0..(3 * keys as usize + 1) {
    for e in &p.edges {
      let (a, b) = (concretize(e.0 as u64) as usize, concretize(e.1 as u64) as usize);
      if let Some(v) = want[a] {
        want[b] = Some(want[b].unwrap_or(0) | (v & e.2));
      }
    }
  }
  let mut n = 0;
  for i in 0..keys as usize {
    match (target.get(&(i as u8)), want[i]) {
      (None, None) => {}
      (Some(a), Some(b)) => {
        check!(*a == b, "apply_fixed_point: not the least fixed point");
        n += 1;
      }
      (None, Some(_)) => fail("apply_fixed_point: key missing"),
      (Some(_), None) => fail("apply_fixed_point: key too many"),
    }
  }
  check!(target.len() == n, "apply_fixed_point: foreign key");
  observe(n as u64);
  if n > 1 {
    cover("propagated");
  }
}

fn only() {
  let n = pick(4);
  let v: Vec<u8> = (0..n).map(|_| byte(0, 255)).collect();
  match take_only(v.iter().copied()) {
    Some(x) => {
      check!(n == 1 && x == v[0], "take_only: an answer for other than one item");
      cover("one");
    }
    None => check!(n != 1, "take_only: the only item was dropped"),
  }
  observe(n as u64);
}

entries! {
  fixed4 => fixed(4);
  fixed5 => fixed(5);
  changes4 => changes(4);
  changes5 => changes(5);
  bfs3 => bfs(3);
  bfs4 => bfs(4);
  keyed3 => keyed(3, 2, 2);
  keyed4 => keyed(3, 3, 2);
  only3 => only();
}
