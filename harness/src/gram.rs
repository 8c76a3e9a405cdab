//! Symbolic grammars.  The shape (numbers of rules, productions and elements) is
//! split into cases; which symbols stand in the productions, which nonterminal
//! is the start and which elements have names are symbolic bytes that only fork
//! where the code under test (or the reference) looks at them.
use crate::*;
use bongo::grammar::{build, Elem, Grammar, GrammarErrors, ProdElement};
use bongo::utils::Name;

pub type G = Grammar<u8, u8, u8, u8>;

#[derive(Clone, Copy)]
pub struct Shape {
  /// rules: at least, at most
  pub rules: (usize, usize),
  /// productions of one rule: at least, at most
  pub prods: (usize, usize),
  /// productions in all, at most
  pub all_prods: usize,
  /// elements of one production, at most
  pub len: usize,
  /// elements in all, at most
  pub elems: usize,
  /// nonterminals beyond the rule heads
  pub extra_nts: u8,
  /// terminals are 0..terms
  pub terms: u8,
  /// elements may have names
  pub named: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct RElem {
  pub nt: bool,
  pub id: u8,
  pub named: bool,
}

#[derive(Clone)]
pub struct RProd {
  pub ak: u8,
  pub av: u8,
  pub elems: Vec<RElem>,
}

/// The grammar as plain data; the head of rule i is i.
#[derive(Clone)]
pub struct RGram {
  pub start: u8,
  pub rules: Vec<Vec<RProd>>,
}

/// Action keys: unique within a rule only, or in the whole grammar.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Keys {
  PerRule,
  Global,
}

impl RGram {
  pub fn symbolic(s: &Shape, keys: Keys) -> RGram {
    RGram::make(s, keys, false)
  }

  /// With every nonterminal split into cases when it is made (terminals and
  /// names stay symbolic).
  pub fn split(s: &Shape, keys: Keys) -> RGram {
    RGram::make(s, keys, true)
  }

  fn make(s: &Shape, keys: Keys, split: bool) -> RGram {
    let n = pick_in(s.rules.0, s.rules.1);
    let mut left = s.elems;
    let mut left_prods = s.all_prods;
    let mut rules: Vec<Vec<RProd>> = Vec::new();
    let mut global = 0u8;
    for i in 0..n {
      let reserve = s.prods.0 * (n - 1 - i);
      let p = pick_in(s.prods.0, s.prods.1.min(left_prods - reserve));
      left_prods -= p;
      let mut prods = Vec::new();
      for k in 0..p {
        let len = pick(s.len.min(left) + 1);
        left -= len;
        let ak = if keys == Keys::Global { 10 + global } else { 10 + k as u8 };
        prods.push(RProd {
          ak,
          av: 100 + global,
          elems: vec![RElem { nt: false, id: 0, named: false }; len],
        });
        global += 1;
      }
      rules.push(prods);
    }
    let nts = n as u8 + s.extra_nts;
    let start = if split { pick(nts as usize) as u8 } else { byte(0, nts - 1) };
    for r in rules.iter_mut() {
      for p in r.iter_mut() {
        for e in p.elems.iter_mut() {
          // one number for the symbol: nonterminals first
          let x = if split {
            let k = pick(nts as usize + 1) as u8;
            if k < nts { k } else { byte(nts, nts + s.terms - 1) }
          } else {
            byte(0, nts + s.terms - 1)
          };
          if x < nts {
            *e = RElem { nt: true, id: x, named: false };
          } else {
            *e = RElem { nt: false, id: x - nts, named: false };
          }
          if s.named {
            e.named = flag();
          }
        }
      }
    }
    RGram { start, rules }
  }

  pub fn build(&self) -> Result<G, GrammarErrors<u8>> {
    build(self.start, |gb| {
      for (i, prods) in self.rules.iter().enumerate() {
        gb.add_rule(i as u8, |rb| {
          for p in prods {
            rb.add_prod_with_elems(p.ak, p.av, p.real_elems());
          }
        });
      }
    })
  }

  /// The nonterminal's number, decided by comparing.
  pub fn nt(&self, id: u8) -> usize {
    let mut i = 0u8;
    while (i as usize) < self.rules.len() {
      if id == i {
        return i as usize;
      }
      i += 1;
    }
    concretize(id as u64) as usize
  }

  /// Same grammar with every nonterminal decided (terminals stay symbolic).
  pub fn decided(&self) -> RGram {
    let mut g = self.clone();
    g.start = self.nt(self.start) as u8;
    for r in g.rules.iter_mut() {
      for p in r.iter_mut() {
        for e in p.elems.iter_mut() {
          if e.nt {
            e.id = self.nt(e.id) as u8;
          }
        }
      }
    }
    g
  }

  pub fn reachable(&self) -> Vec<bool> {
    let mut r = vec![false; 256];
    r[self.start as usize] = true;
    loop {
      let mut changed = false;
      for (i, prods) in self.rules.iter().enumerate() {
        if !r[i] {
          continue;
        }
        for p in prods {
          for e in &p.elems {
            if e.nt && !r[e.id as usize] {
              r[e.id as usize] = true;
              changed = true;
            }
          }
        }
      }
      if !changed {
        return r;
      }
    }
  }

  /// Of a decided grammar.
  pub fn well_formed(&self) -> bool {
    let n = self.rules.len();
    if self.start as usize >= n {
      return false;
    }
    let r = self.reachable();
    for prods in &self.rules {
      if prods.is_empty() {
        return false;
      }
      for p in prods {
        for e in &p.elems {
          if e.nt && (e.id as usize >= n || !r[e.id as usize]) {
            return false;
          }
        }
      }
    }
    true
  }
}

/// The names given to elements: by position.
pub const NAMES: [&str; 6] = ["n0", "n1", "n2", "n3", "n4", "n5"];

impl RProd {
  pub fn real_elems(&self) -> Vec<ProdElement<u8, u8>> {
    let mut v = Vec::with_capacity(self.elems.len());
    for (j, e) in self.elems.iter().enumerate() {
      let el = if e.nt { Elem::NonTerm(e.id) } else { Elem::Term(e.id) };
      v.push(if e.named { ProdElement::new_with_name(Name::new(NAMES[j]), el) } else { ProdElement::new_empty(el) });
    }
    v
  }
}

/// A well-formed symbolic grammar, as data and built; ends the path otherwise.
pub fn well_formed(s: &Shape, keys: Keys) -> Option<(RGram, G)> {
  let r = RGram::split(s, keys);
  if !r.well_formed() {
    return None;
  }
  // that building succeeds is C01's business
  let g = r.build().ok()?;
  Some((r, g))
}

/// How one rule of a chain leads to the next one.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Link {
  /// [next]
  Next,
  /// [next, terminal]
  NextTerm,
  /// [terminal, next]
  TermNext,
  /// [next, next]
  Twice,
  /// [next, last]
  NextLast,
  /// [last, next]
  LastNext,
}

/// Grammars whose n rules, in any order, lead to each other one after the
/// other; the last one is empty, a terminal, or leads back to any of them.  The
/// first `forms` of the links may be any of the given ones, later links are
/// plain.  With `more`, one of the rules has a terminal as second production.
pub fn chain(n: usize, forms: &[Link], free: usize, more: bool, named: bool, terms: u8) -> Option<(RGram, G)> {
  let mut left: Vec<usize> = (0..n).collect();
  let order: Vec<usize> = (0..n).map(|_| left.remove(pick(left.len()))).collect();
  let mut rules: Vec<Vec<RProd>> = vec![Vec::new(); n];
  let last = order[n - 1] as u8;
  let nt = |id: u8| RElem { nt: true, id, named: named && flag() };
  let term = || RElem { nt: false, id: byte(0, terms - 1), named: false };
  for i in 0..n - 1 {
    let y = order[i + 1] as u8;
    let elems = match if i < free { forms[pick(forms.len())] } else { Link::Next } {
      Link::Next => vec![nt(y)],
      Link::NextTerm => vec![nt(y), term()],
      Link::TermNext => vec![term(), nt(y)],
      Link::Twice => vec![nt(y), nt(y)],
      Link::NextLast => vec![nt(y), nt(last)],
      Link::LastNext => vec![nt(last), nt(y)],
    };
    rules[order[i]].push(RProd { ak: 10, av: i as u8, elems });
  }
  let e = pick(n + 2);
  let elems = match e {
    0 => vec![],
    1 => vec![term()],
    _ => vec![nt(order[e - 2] as u8)],
  };
  rules[order[n - 1]].push(RProd { ak: 10, av: 100, elems });
  if more {
    let i = pick(n + 1);
    if i < n {
      rules[order[i]].push(RProd { ak: 11, av: 101, elems: vec![term()] });
    }
  }
  let r = RGram { start: order[0] as u8, rules };
  let g = r.build().ok()?;
  Some((r, g))
}

/// One long production over two nullable nonterminals, one that is not, and a
/// terminal.
pub fn production(min: usize, max: usize, named: bool) -> Option<(RGram, G)> {
  let t = |id: u8| RElem { nt: false, id, named: false };
  let nt = |id: u8| RElem { nt: true, id, named: false };
  let p = |ak: u8, elems: Vec<RElem>| RProd { ak, av: ak + 100, elems };
  let mut elems: Vec<RElem> = (0..pick_in(min, max))
    .map(|_| match pick(4) {
      0 => t(byte(0, 1)),
      k => nt(k as u8),
    })
    .collect();
  for e in elems.iter_mut() {
    e.named = named && flag();
  }
  // so that every rule is reachable
  let all = p(11, vec![nt(1), nt(2), nt(3), t(0)]);
  let rules = vec![vec![p(10, elems), all], vec![p(10, vec![]), p(11, vec![t(0)])], vec![p(10, vec![RElem { named, ..nt(1) }]), p(11, vec![t(1)])], vec![p(10, vec![t(0)])]];
  let r = RGram { start: 0, rules };
  let g = r.build().ok()?;
  Some((r, g))
}

/// One rule with many short productions (repeated ones too).
pub fn wide(min: usize, max: usize, named: bool) -> Option<(RGram, G)> {
  let prods = (0..pick_in(min, max))
    .map(|k| {
      let elems = match pick(3) {
        0 => vec![],
        1 => vec![RElem { nt: false, id: byte(0, 1), named: named && flag() }],
        _ => vec![RElem { nt: true, id: 0, named: named && flag() }],
      };
      RProd { ak: 10 + k as u8, av: 100 + k as u8, elems }
    })
    .collect();
  let r = RGram { start: 0, rules: vec![prods] };
  let g = r.build().ok()?;
  Some((r, g))
}

/// Any text of printable ASCII characters.
pub fn any_text(min: usize, max: usize) -> String {
  let n = pick_in(min, max);
  let v: Vec<u8> = (0..n).map(|_| byte(0x20, 0x7e)).collect();
  unsafe { String::from_utf8_unchecked(v) }
}
