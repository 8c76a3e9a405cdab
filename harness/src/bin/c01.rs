//! C01: building accepts exactly the well-formed grammars and names the faults.
use rt::gram::*;
use rt::*;
use std::collections::BTreeSet;

fn same(s: &BTreeSet<u8>, want: impl Fn(u8) -> bool, nts: u8, msg: &'static str) {
  let mut n = 0;
  for i in 0..nts {
    if want(i) {
      n += 1;
    }
  }
  let mut m = 0;
  for x in s {
    check!(*x < nts && want(*x), msg);
    m += 1;
  }
  check!(n == m, msg);
}

fn run(s: Shape) {
  let sym = RGram::symbolic(&s, Keys::PerRule);
  let res = sym.build();
  judge(sym.decided(), res, s.extra_nts);
}

/// n rules in any order, each leading to the next; up to two of them changed to
/// have no production, to lead elsewhere, or to lead nowhere; any start.
fn chained(n: usize, changes: usize) {
  let mut left: Vec<usize> = (0..n).collect();
  let order: Vec<usize> = (0..n).map(|_| left.remove(pick(left.len()))).collect();
  let mut rules: Vec<Vec<RProd>> = vec![Vec::new(); n];
  let to = |id: usize| vec![RProd { ak: 10, av: 0, elems: vec![RElem { nt: true, id: id as u8, named: false }] }];
  for i in 0..n {
    // the last one to the first
    rules[order[i]] = to(order[(i + 1) % n]);
  }
  for _ in 0..changes {
    let i = pick(n);
    rules[i] = match pick(n + 3) {
      0 => vec![],
      1 => vec![RProd { ak: 10, av: 0, elems: vec![] }],
      k => to(k - 2),
    };
  }
  let r = RGram { start: pick(n + 1) as u8, rules };
  let res = r.build();
  judge(r, res, 1);
}

fn judge(r: RGram, res: Result<G, bongo::grammar::GrammarErrors<u8>>, extra_nts: u8) {
  let n = r.rules.len() as u8;
  let nts = n + extra_nts;
  let reach = r.reachable();
  let used = |x: u8| r.rules.iter().flatten().any(|p| p.elems.iter().any(|e| e.nt && e.id == x));
  let no_rule = |x: u8| x >= n && (x == r.start || used(x));
  let no_prods = |x: u8| x < n && r.rules[x as usize].is_empty();
  let unreach = |x: u8| used(x) && !reach[x as usize];
  match res {
    Ok(_) => {
      check!(r.well_formed(), "an ill-formed grammar was accepted");
      cover("accepted");
      observe(1);
    }
    Err(e) => {
      check!(!r.well_formed(), "a well-formed grammar was rejected");
      same(e.verif_without_rules(), no_rule, nts, "nonterminals without a rule: wrong set");
      same(e.verif_without_prods(), no_prods, nts, "rules without productions: wrong set");
      same(e.verif_unreachable(), unreach, nts, "unreachable nonterminals: wrong set");
      if no_rule(r.start) {
        cover("start without rule");
      }
      if (0..nts).any(unreach) {
        cover("unreachable");
      }
      if (0..nts).any(no_prods) {
        cover("no productions");
      }
      if (0..n).any(|x| unreach(x)) {
        cover("unreachable with rule");
      }
      observe(2);
    }
  }
}

const Q: Shape = Shape { rules: (0, 2), prods: (0, 2), all_prods: 3, len: 2, elems: 4, extra_nts: 1, terms: 1, named: false };

entries! {
  two => run(Q);
  three => run(Shape { rules: (3, 3), prods: (0, 1), all_prods: 3, elems: 3, ..Q });
  four => run(Shape { rules: (4, 4), prods: (0, 1), all_prods: 4, len: 1, elems: 4, ..Q });
  chain4 => chained(4, 2);
  chain5 => chained(5, 1);
  big => run(Shape { rules: (3, 3), prods: (0, 2), all_prods: 4, elems: 4, ..Q });
}
