//! C10: dotted items and sets of them.
use bongo::grammar::{Elem, Prod};
use bongo::state::{ProdState, ProdStateSet};
use rt::gram::*;
use rt::*;
use std::cmp::Ordering;

type Item<'a> = ProdState<'a, u8, u8, u8, u8>;
type Set<'a> = ProdStateSet<'a, u8, u8, u8, u8>;

fn at<'a>(p: Prod<'a, u8, u8, u8, u8>, i: usize) -> Item<'a> {
  let mut s = ProdState::from_start(p);
  for _ in 0..i {
    s = match s.next_elem_state() {
      Some((_, s)) => s,
      None => fail("an item cannot be advanced"),
    };
  }
  s
}

fn is(e: &Elem<u8, u8>, w: &RElem) -> bool {
  match e {
    Elem::Term(t) => !w.nt && *t == w.id,
    Elem::NonTerm(t) => w.nt && *t == w.id,
  }
}

/// Every item of the grammar: production number, position, item.
fn items<'a>(r: &'a RGram, g: &'a G) -> Vec<(usize, usize, &'a RProd, Item<'a>)> {
  let mut v = Vec::new();
  let mut n = 0;
  for (i, ps) in r.rules.iter().enumerate() {
    for (p, q) in g.get_rule(&(i as u8)).prods().zip(ps) {
      for d in 0..=q.elems.len() {
        v.push((n, d, q, at(p, d)));
      }
      n += 1;
    }
  }
  v
}

fn single(s: Shape) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let its = items(&r, &g);
  let x = &its[pick(its.len())];
  let (d, q, it) = (x.1, x.2, &x.3);
  let n = q.elems.len();
  check!(*it.action_key() == q.ak && *it.prod().action_value() == q.av, "the item's production");
  check!(it.is_complete() == (d == n), "is_complete");
  for k in 0..=(n - d) {
    let w = q.elems.get(d + k);
    match (it.offset_elem(k), w) {
      (None, None) => check!(it.offset_prod_elem(k).is_none(), "offset_prod_elem"),
      (Some(e), Some(w)) => {
        check!(is(e, w), "offset_elem");
        check!(it.offset_prod_elem(k).map_or(false, |pe| is(pe.elem(), w) && pe.id().is_some() == w.named), "offset_prod_elem");
      }
      _ => fail("offset_elem: wrong end"),
    }
  }
  check!(it.next_elem().is_some() == (d < n), "next_elem");
  check!(it.next_prod_elem().is_some() == (d < n), "next_prod_elem");
  if d < n {
    check!(is(it.next_elem().unwrap(), &q.elems[d]), "next_elem: wrong element");
    check!(is(it.next_prod_elem().unwrap().elem(), &q.elems[d]), "next_prod_elem: wrong element");
  }
  match it.next_elem_state() {
    None => check!(d == n, "next_elem_state"),
    Some((e, s)) => {
      check!(d < n && is(e.elem(), &q.elems[d]), "next_elem_state: wrong element");
      check!(s.prod() == it.prod(), "next_elem_state: another production");
      let left = n - d - 1;
      check!(s.is_complete() == (left == 0), "next_elem_state: wrong position");
      check!(s.offset_elem(left).is_none() && (left == 0 || s.offset_elem(left - 1).is_some()), "next_elem_state: wrong position");
    }
  }
  // any element at all
  let e = if flag() { Elem::NonTerm(byte(0, 255)) } else { Elem::Term(byte(0, 255)) };
  let fits = d < n && is(&e, &q.elems[d]);
  match it.advance_if(&e) {
    None => check!(!fits, "advance_if: refused the next element"),
    Some(s) => {
      check!(fits, "advance_if: accepted another element");
      check!(s == at(it.prod(), d + 1), "advance_if: not advanced by one");
      cover("advanced");
    }
  }
  observe(d as u64);
}

fn pairs(s: Shape) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let its = items(&r, &g);
  for a in &its {
    for b in &its {
      let same = a.0 == b.0 && a.1 == b.1;
      check!((a.3 == b.3) == same, "equality is not that of production and position");
      let o = a.3.cmp(&b.3);
      check!((o == Ordering::Equal) == same, "order and equality disagree");
      check!(o == b.3.cmp(&a.3).reverse(), "the order is not antisymmetric");
      check!(a.3.partial_cmp(&b.3) == Some(o), "partial order differs");
      for c in &its {
        if o == Ordering::Less && b.3 < c.3 {
          check!(a.3 < c.3, "the order is not transitive");
        }
      }
    }
  }
  if its.len() > 3 {
    cover("several");
  }
  observe(its.len() as u64);
}

/// The members, through the only public way of listing them.
fn members<'a>(s: &Set<'a>) -> Vec<Item<'a>> {
  let mut v = Vec::new();
  let mut c = s.clone();
  c.take_closure(|i| {
    v.push(i.clone());
    std::iter::empty()
  });
  v
}

fn check_members(s: &Set, its: &[(usize, usize, &RProd, Item)], want: &[bool], msg: &'static str) {
  let m = members(s);
  for (k, it) in its.iter().enumerate() {
    check!(m.iter().any(|x| *x == it.3) == want[k], msg);
  }
  check!(m.len() == want.iter().filter(|x| **x).count(), msg);
}

fn sets(s: Shape, adds: usize) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let its = items(&r, &g);
  let n = its.len();
  let mut want = vec![false; n];
  let mut v = Vec::new();
  for _ in 0..pick(adds + 1) {
    let k = pick(n);
    want[k] = true;
    v.push(its[k].3.clone());
  }
  let mut set: Set = if flag() {
    v.into_iter().collect()
  } else {
    let mut s = Set::new_empty();
    for i in v {
      s.add(i);
    }
    s
  };
  check_members(&set, &its, &want, "the set does not hold what was added");
  // complete items
  let c: Vec<Item> = set.complete().collect();
  let mut nc = 0;
  for (k, it) in its.iter().enumerate() {
    let w = want[k] && it.1 == it.2.elems.len();
    check!(c.iter().any(|x| *x == it.3) == w, "complete: wrong items");
    nc += w as usize;
  }
  check!(c.len() == nc, "complete: repeated items");
  // groups of advanced items
  let groups: Vec<_> = set.nexts().collect();
  let mut total = 0;
  for (gi, (e, gs)) in groups.iter().enumerate() {
    for (e2, _) in &groups[..gi] {
      check!(e2 != e, "nexts: two groups for one element");
    }
    let mut gw = vec![false; n];
    for (k, it) in its.iter().enumerate() {
      // item k is the advance of item k - 1 if that is of the same production
      if k > 0 && it.1 > 0 && want[k - 1] {
        let pe = &it.2.elems[it.1 - 1];
        let name = if pe.named { Some(NAMES[it.1 - 1]) } else { None };
        if is(e.elem(), pe) && e.id().map(|n| n.str()) == name {
          gw[k] = true;
          total += 1;
        }
      }
    }
    check!(gw.iter().any(|x| *x), "nexts: an element no item stands before");
    check_members(gs, &its, &gw, "nexts: wrong group");
    if groups.len() > 1 {
      cover("groups");
    }
  }
  let open = (0..n).filter(|k| want[*k] && its[*k].1 < its[*k].2.elems.len()).count();
  check!(total == open, "nexts: an item got lost");
  observe(open as u64);
}

/// Closing any set of items under any function, and comparing sets.
fn closing(s: Shape, succs: usize) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let its = items(&r, &g);
  let n = its.len();
  let mut want: Vec<bool> = (0..n).map(|_| pick(2) == 1).collect();
  let mut set: Set = (0..n).filter(|k| want[*k]).map(|k| its[k].3.clone()).collect();
  let succ: Vec<Vec<usize>> = (0..n).map(|_| vec![0; pick(succs + 1)].into_iter().map(|_| pick(n)).collect()).collect();
  let mut calls = vec![0u32; n];
  set.take_closure(|i| {
    let k = its.iter().position(|x| x.3 == *i).unwrap();
    calls[k] += 1;
    succ[k].iter().map(|j| its[*j].3.clone()).collect::<Vec<_>>().into_iter()
  });
  for _ in 0..n {
    for k in 0..n {
      if want[k] {
        for j in &succ[k] {
          want[*j] = true;
        }
      }
    }
  }
  check_members(&set, &its, &want, "take_closure: wrong items");
  // sets are equal exactly when their members are
  let other: Set = (0..n).filter(|k| want[*k]).map(|k| its[k].3.clone()).collect();
  check!(set == other && set.cmp(&other) == Ordering::Equal, "equal sets differ");
  for k in 0..n {
    let less: Set = (0..n).filter(|j| want[*j] && *j != k).map(|k| its[k].3.clone()).collect();
    check!((set == less) == !want[k], "set equality");
    check!((set.cmp(&less) == Ordering::Equal) == !want[k], "set order");
    check!(set.cmp(&less) == less.cmp(&set).reverse(), "the order of sets is not antisymmetric");
  }
  cover("closed");
  observe(want.iter().filter(|x| **x).count() as u64);
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 3, elems: 4, extra_nts: 0, terms: 2, named: false };
const S: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 2, len: 2, elems: 3, extra_nts: 0, terms: 1, named: true };
// one production of exactly the given length, of terminals
const C: Shape = Shape { rules: (1, 1), prods: (1, 2), all_prods: 2, len: 2, elems: 2, extra_nts: 0, terms: 1, named: false };

entries! {
  item => single(Shape { elems: 3, named: true, ..Q });
  itemlong => single(Q);
  order => pairs(Q);
  set3 => sets(S, 3);
  close3 => closing(Shape { prods: (1, 1), all_prods: 1, ..C }, 2);
  close4 => closing(C, 1);
  close5 => closing(Shape { elems: 3, ..C }, 1);
}
