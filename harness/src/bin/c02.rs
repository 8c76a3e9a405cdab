//! C02: a grammar reads back as it was built.
use bongo::grammar::{build, Elem, Prod};
use bongo::utils::Name;
use rt::gram::*;
use rt::*;

fn elem_is(e: &Elem<u8, u8>, w: &RElem) -> bool {
  match e {
    Elem::Term(t) => !w.nt && *t == w.id && e.as_term() == Some(t) && e.as_nonterm().is_none(),
    Elem::NonTerm(n) => w.nt && *n == w.id && e.as_nonterm() == Some(n) && e.as_term().is_none(),
  }
}

fn name_is(n: Option<&Name>, w: &RElem, j: usize) -> bool {
  match n {
    None => !w.named,
    Some(n) => w.named && n.str() == NAMES[j],
  }
}

fn check_prod(p: &Prod<u8, u8, u8, u8>, head: u8, w: &RProd) {
  check!(*p.head() == head, "production head");
  check!(*p.action_key() == w.ak, "action key");
  check!(*p.action_value() == w.av, "action value");
  let n = w.elems.len();
  check!(p.num_elements() == n, "element count");
  check!(p.prod_elements().len() == n, "elements");
  check!(p.elements().count() == n, "elements");
  for (j, (e, w)) in p.elements().zip(&w.elems).enumerate() {
    check!(elem_is(e, w), "element differs or out of order");
    let pe = &p.prod_elements()[j];
    check!(elem_is(pe.elem(), w), "element differs or out of order");
    check!(name_is(pe.id(), w, j), "element name");
    check!(p.element_at(j).map_or(false, |e| elem_is(e, w)), "element_at");
    check!(p.prod_element_at(j).map_or(false, |e| elem_is(e.elem(), w) && name_is(e.id(), w, j)), "prod_element_at");
  }
  check!(p.element_at(n).is_none() && p.prod_element_at(n).is_none(), "an element past the end");
  match p.first_elem() {
    None => check!(n == 0, "first_elem"),
    Some(e) => check!(n > 0 && elem_is(e, &w.elems[0]), "first_elem"),
  }
  let k = p.prod_key();
  check!(*k.head() == head && *k.action_key() == w.ak, "prod_key");
}

fn run(s: Shape) {
  run_of(Some(RGram::split(&s, Keys::PerRule)))
}

fn run_of(r: Option<RGram>) {
  let Some(mut r) = r else { return };
  for p in r.rules.iter_mut().flatten() {
    p.ak = byte(0, 255);
    p.av = byte(0, 255);
  }
  if !r.well_formed() {
    return;
  }
  // two ways of building, either action key first
  let by_elems = pick(2) == 1;
  let g = build(r.start, |gb| {
    let n = r.rules.len();
    for k in 0..n {
      // the rules may be added in any order
      let i = if by_elems { n - 1 - k } else { k };
      gb.add_rule(i as u8, |rb| {
        for p in &r.rules[i] {
          if by_elems {
            rb.add_prod_with_elems(p.ak, p.av, p.real_elems());
          } else {
            rb.add_prod(&p.ak, &p.av, |pb| {
              for (j, e) in p.elems.iter().enumerate() {
                match (e.nt, e.named) {
                  (false, false) => pb.add_term(e.id),
                  (true, false) => pb.add_nonterm(&e.id),
                  (false, true) => pb.add_named_term(NAMES[j], &e.id),
                  (true, true) => pb.add_named_nonterm(Name::new(NAMES[j]), e.id),
                };
              }
            });
          }
        }
      });
    }
  });
  let g = match g {
    Ok(g) => g,
    Err(_) => return,
  };
  let g = if pick(2) == 0 { g } else { g.clone() };
  check!(*g.start_nt() == r.start, "start");
  let n = r.rules.len();
  let mut seen = vec![false; n];
  let mut prods = Vec::new();
  for rule in g.rules() {
    let i = *rule.head() as usize;
    check!(i < n && !seen[i], "a rule nobody added, or twice");
    seen[i] = true;
    check!(rule.prods().count() == r.rules[i].len(), "number of productions");
    for (k, p) in rule.prods().enumerate() {
      check_prod(&p, i as u8, &r.rules[i][k]);
      prods.push((i, k, p));
    }
  }
  check!(seen.iter().all(|x| *x), "a rule is missing");
  // the other ways of looking
  check!(g.prods().count() == prods.len(), "prods: count");
  for (p, q) in g.prods().zip(&prods) {
    check!(p == q.2 && p.head() == q.2.head(), "prods: differs from the rules'");
  }
  let rs = g.rule_set();
  check!(rs.len() == n, "rule_set: size");
  for i in 0..n {
    let i8 = i as u8;
    check!(rs.get(&i8).map_or(false, |x| *x.head() == i8 && x.prods().count() == r.rules[i].len()), "rule_set: wrong rule");
    let x = g.get_rule(&i8);
    check!(*x.head() == i8, "get_rule: wrong rule");
    for (k, p) in x.prods().enumerate() {
      check_prod(&p, i8, &r.rules[i][k]);
    }
    check!(g.try_get_rule(&i8).map_or(false, |y| y == x), "try_get_rule: wrong rule");
    for j in 0..n {
      let y = g.get_rule(&(j as u8));
      check!((x == y) == (i == j), "rule equality");
    }
  }
  check!(g.try_get_rule(&(n as u8 + byte(0, 9))).is_none(), "try_get_rule: a rule for an unknown nonterminal");
  for a in &prods {
    for b in &prods {
      let same = a.0 == b.0 && a.1 == b.1;
      check!((a.2 == b.2) == same, "production identity");
      check!((a.2.cmp(&b.2) == std::cmp::Ordering::Equal) == same, "production order and identity disagree");
      check!(a.2.cmp(&b.2) == b.2.cmp(&a.2).reverse(), "production order is not antisymmetric");
      check!(a.2.partial_cmp(&b.2) == Some(a.2.cmp(&b.2)), "partial order of productions");
      for c in &prods {
        if a.2 < b.2 && b.2 < c.2 {
          check!(a.2 < c.2, "production order is not transitive");
        }
      }
    }
  }
  cover("read");
  if prods.len() > 1 {
    cover("several productions");
  }
  observe(prods.len() as u64);
}

/// Names with any text, repeated or not, on terminals and nonterminals.
fn named(elems: usize, min: usize, max: usize) {
  let n = pick_in(1, elems);
  let texts: Vec<String> = (0..n).map(|_| any_text(min, max)).collect();
  // which of the texts each element has; none if it is its own number plus one
  let which: Vec<Option<usize>> = (0..n).map(|i| pick(i + 2).checked_sub(1)).collect();
  let nts: Vec<bool> = (0..n).map(|_| pick(2) == 1).collect();
  let by_elems = pick(2) == 1;
  let split = if n > 1 { pick(2) == 1 } else { false };
  let prods: Vec<(usize, usize)> = if split { vec![(0, 1), (1, n)] } else { vec![(0, n)] };
  let g = build(0u8, |gb| {
    gb.add_rule(0u8, |rb| {
      for &(from, to) in &prods {
        if by_elems {
          let mut v = Vec::new();
          for i in from..to {
            let e = if nts[i] { Elem::NonTerm(0u8) } else { Elem::Term(i as u8) };
            v.push(bongo::grammar::ProdElement::new(which[i].map(|k| Name::new(&texts[k])), e));
          }
          rb.add_prod_with_elems(from as u8, 0u8, v);
        } else {
          rb.add_prod(from as u8, 0u8, |pb| {
            for i in from..to {
              match (which[i], nts[i]) {
                (None, false) => pb.add_term(i as u8),
                (None, true) => pb.add_nonterm(0),
                (Some(k), false) => pb.add_named_term(&*texts[k], i as u8),
                (Some(k), true) => pb.add_named_nonterm(Name::new(&texts[k]), 0),
              };
            }
          });
        }
      }
    });
  });
  let Ok(g) = g else { return };
  let mut i = 0;
  for p in g.prods() {
    for e in p.prod_elements() {
      check!(i < n, "too many elements");
      match (e.id(), which[i]) {
        (None, None) => {}
        (Some(a), Some(k)) => check!(same_bytes(a.str(), &texts[k]), "element name: text"),
        _ => fail("element name: lost or invented"),
      }
      check!(e.elem().as_nonterm().is_some() == nts[i], "element kind");
      i += 1;
    }
  }
  check!(i == n, "elements are missing");
  cover("read");
  observe(n as u64);
}

fn same_bytes(a: &str, b: &str) -> bool {
  a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x == y)
}

fn foreign() {
  let s = Shape { rules: (1, 2), prods: (1, 1), all_prods: 2, len: 1, elems: 2, extra_nts: 0, terms: 2, named: false };
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  // the same content built again, or a copy, or another grammar
  let h = match pick(3) {
    0 => r.build().ok().unwrap(),
    1 => g.clone(),
    _ => match well_formed(&s, Keys::PerRule) {
      Some((_, h)) => h,
      None => return,
    },
  };
  let a = g.rules().next().unwrap();
  let b = h.rules().next().unwrap();
  check!(a == g.get_rule(g.rules().next().unwrap().head()), "a rule differs from itself");
  expect_panic();
  let r = match pick(3) {
    0 => a == b,
    1 => a < b,
    _ => a.cmp(&b) == std::cmp::Ordering::Equal,
  };
  std::hint::black_box(r);
  fail("comparing rules of two grammars gave an answer");
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 2, elems: 3, extra_nts: 0, terms: 2, named: true };

entries! {
  small => run(Q);
  three => run(Shape { rules: (3, 3), prods: (1, 1), all_prods: 3, len: 2, elems: 4, ..Q });
  prod5 => run_of(production(0, 5, true).map(|x| x.0));
  prod6 => run_of(production(0, 6, true).map(|x| x.0));
  wide7 => run_of(wide(1, 7, true).map(|x| x.0));
  chain5 => run_of(chain(5, &[Link::Next, Link::NextTerm, Link::Twice], 1, true, false, 2).map(|x| x.0));
  big => run(Shape { elems: 4, all_prods: 4, len: 3, ..Q });
  names3 => named(3, 0, 1);
  names1 => named(1, 2, 8);
  names4 => named(4, 1, 1);
  other => foreign();
}
