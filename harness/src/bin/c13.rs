//! C13: LR(1) item sets.
use bongo::grammar::passes::PassContext;
use bongo::parsers::lalr::verif::State;
use bongo::state::ProdState;
use rt::gram::Link::*;
use rt::gram::*;
use rt::refs::*;
use rt::*;
use std::collections::{BTreeMap, BTreeSet};

type Item<'a> = ProdState<'a, u8, u8, u8, u8>;

/// One production of the grammar with its items.
struct RItems<'a> {
  head: usize,
  prod: &'a RProd,
  items: Vec<Item<'a>>,
}

fn all<'a>(r: &'a RGram, g: &'a G) -> Vec<RItems<'a>> {
  let mut v = Vec::new();
  for (i, ps) in r.rules.iter().enumerate() {
    for (p, q) in g.get_rule(&(i as u8)).prods().zip(ps) {
      let mut items = vec![ProdState::from_start(p)];
      for _ in 0..q.elems.len() {
        let n = items.last().unwrap().next_elem_state().unwrap().1;
        items.push(n);
      }
      v.push(RItems { head: i, prod: q, items });
    }
  }
  v
}

/// LR(1) items: production, position, lookahead.
type Set = Vec<(usize, usize, u8)>;

fn add(s: &mut Set, x: (usize, usize, u8)) {
  if !s.iter().any(|y| y.0 == x.0 && y.1 == x.1 && y.2 == x.2) {
    s.push(x);
  }
}

fn closure(its: &[RItems], null: &[bool], fs: &[Vec<u8>], kernel: &Set) -> Set {
  let mut s = kernel.clone();
  let mut k = 0;
  while k < s.len() {
    let (p, d, la) = s[k];
    k += 1;
    let es = &its[p].prod.elems;
    if d < es.len() && es[d].nt {
      let (mut v, empty) = firsts_of(&es[d + 1..], null, fs);
      if empty {
        v.push(la);
      }
      for (q, it) in its.iter().enumerate() {
        if it.head == es[d].id as usize {
          for t in &v {
            add(&mut s, (q, 0, *t));
          }
        }
      }
    }
  }
  s
}

fn same(its: &[RItems], have: &BTreeMap<Item, BTreeSet<u8>>, want: &Set) {
  for (i, las) in have {
    let mut found = None;
    for (p, it) in its.iter().enumerate() {
      if let Some(d) = it.items.iter().position(|x| x == i) {
        found = Some((p, d));
      }
    }
    let Some((p, d)) = found else { fail("an unknown item") };
    for la in las {
      check!(want.iter().any(|w| w.0 == p && w.1 == d && w.2 == *la), "an item or lookahead that does not belong");
    }
  }
  for (p, d, la) in want {
    let Some(las) = have.get(&its[*p].items[*d]) else { fail("an item is missing") };
    check!(las.contains(la), "a lookahead is missing");
  }
}

fn run(s: Shape, kernel: (usize, usize), las: usize) {
  run_of(well_formed(&s, Keys::PerRule), s.terms, kernel, las)
}

fn run_of(rg: Option<(RGram, G)>, terms: u8, kernel: (usize, usize), las: usize) {
  let Some((r, g)) = rg else { return };
  if null_ambiguous(&r) {
    return;
  }
  let its = all(&r, &g);
  let mut start: BTreeMap<Item, BTreeSet<u8>> = BTreeMap::new();
  let mut want = Set::new();
  let mut next = 0;
  let mut flat = Vec::new();
  for (p, it) in its.iter().enumerate() {
    for d in 0..it.items.len() {
      flat.push((p, d));
    }
  }
  // items in order, so that no kernel comes twice
  for _ in 0..pick_in(kernel.0.min(flat.len()), kernel.1.min(flat.len())) {
    if next >= flat.len() {
      break;
    }
    let k = pick_in(next, flat.len() - 1);
    next = k + 1;
    let (p, d) = flat[k];
    let mut set = BTreeSet::new();
    for _ in 0..pick_in(1, las) {
      let t = byte(0, terms);
      set.insert(t);
      add(&mut want, (p, d, t));
    }
    start.insert(its[p].items[d].clone(), set);
  }
  let ctx = PassContext::new(&g);
  let Ok(st) = State::new(&ctx, start.clone()) else { fail("an error without null ambiguity") };
  let null = nullable(&r);
  let fs = firsts(&r);
  let want = closure(&its, &null, &fs, &want);
  same(&its, st.items(), &want);
  if st.items().len() > start.len() {
    cover("closed");
  }
  observe(st.items().len() as u64);
  let Ok(again) = State::new(&ctx, st.items().clone()) else { fail("an error on the second run") };
  check!(again.same_as(&st), "closing a closed set changes it");
  // reductions
  let acts = st.reducable_actions();
  let mut n = 0;
  let mut done: Vec<(usize, usize)> = Vec::new();
  for (p, d, _) in &want {
    if *d == its[*p].prod.elems.len() && !done.contains(&(*p, *d)) {
      done.push((*p, *d));
      n += 1;
    }
  }
  for a in &acts {
    let have = acts.iter().filter(|b| *b == a).count();
    let should = done.iter().filter(|x| its[x.0].prod.ak == *a).count();
    check!(have == should, "wrong reducible actions");
  }
  check!(acts.len() == n, "a reducible action is missing");
  // shifts
  let Ok(shifts) = st.shift_actions(&ctx) else { fail("an error without null ambiguity") };
  for (p, d, _) in &want {
    let es = &its[*p].prod.elems;
    if *d < es.len() && !es[*d].nt {
      check!(shifts.contains_key(&es[*d].id), "a shift is missing");
    }
  }
  for (t, to) in &shifts {
    let mut k = Set::new();
    for (p, d, la) in &want {
      let es = &its[*p].prod.elems;
      if *d < es.len() && !es[*d].nt && es[*d].id == *t {
        add(&mut k, (*p, *d + 1, *la));
      }
    }
    check!(!k.is_empty(), "a shift no item allows");
    let to_want = closure(&its, &null, &fs, &k);
    same(&its, to.items(), &to_want);
    cover("shifted");
  }
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 3, elems: 4, extra_nts: 0, terms: 2, named: false };

entries! {
  one => run(Q, (1, 1), 1);
  two => run(Shape { elems: 3, ..Q }, (2, 2), 1);
  las => run(Shape { elems: 3, ..Q }, (1, 1), 2);
  three => run(Shape { rules: (3, 3), prods: (1, 2), all_prods: 4, ..Q }, (1, 1), 1);
  one5 => run(Shape { len: 5, elems: 5, ..Q }, (1, 1), 1);
  prod4 => run_of(production(0, 4, false), 2, (1, 1), 1);
  chain5 => run_of(chain(5, &[Next, NextTerm, NextLast, LastNext], 1, true, false, 2), 2, (1, 1), 1);
  chain4 => run_of(chain(4, &[Next, NextTerm, TermNext, Twice, NextLast, LastNext], 2, true, false, 2), 2, (1, 1), 1);
  big => run(Shape { all_prods: 4, elems: 3, ..Q }, (1, 2), 2);
  three2 => run(Shape { rules: (3, 3), prods: (1, 2), all_prods: 4, ..Q }, (1, 2), 1);
}
