//! Reference analyses of grammars, written over plain data.
use crate::gram::*;
use bongo::grammar::ProdKey;
use bongo::utils::{Name, TreeNode, TreeValue, Void};
use std::collections::BTreeMap;

/// Which nonterminals derive the empty string.
pub fn nullable(r: &RGram) -> Vec<bool> {
  let mut n = vec![false; r.rules.len()];
  for _ in 0..r.rules.len() {
    for (i, ps) in r.rules.iter().enumerate() {
      if ps.iter().any(|p| prod_nullable(&n, p)) {
        n[i] = true;
      }
    }
  }
  n
}

pub fn prod_nullable(n: &[bool], p: &RProd) -> bool {
  p.elems.iter().all(|e| e.nt && n[e.id as usize])
}

/// Some nonterminal has two productions that derive the empty string.
pub fn null_ambiguous(r: &RGram) -> bool {
  let n = nullable(r);
  r.rules.iter().any(|ps| ps.iter().filter(|p| prod_nullable(&n, p)).count() > 1)
}

/// The null derivation of a nonterminal (no null ambiguity).
pub fn null_tree(r: &RGram, keys: &dyn Fn(usize, usize) -> ProdKey<u8, u8>, nt: usize) -> TreeNode<ProdKey<u8, u8>, Void> {
  let n = nullable(r);
  let k = r.rules[nt].iter().position(|p| prod_nullable(&n, p)).unwrap();
  let mut params = BTreeMap::new();
  for (j, e) in r.rules[nt][k].elems.iter().enumerate() {
    if e.named {
      params.insert(Name::new(NAMES[j]), TreeValue::Node(Box::new(null_tree(r, keys, e.id as usize))));
    }
  }
  TreeNode::new(keys(nt, k), params)
}

/// m[a][b]: b can be the first symbol of something derived from a.
pub fn begins(r: &RGram) -> Vec<Vec<bool>> {
  let null = nullable(r);
  let n = r.rules.len();
  let mut m = vec![vec![false; n]; n];
  for a in 0..n {
    m[a][a] = true;
    for p in &r.rules[a] {
      for e in &p.elems {
        if !e.nt {
          break;
        }
        m[a][e.id as usize] = true;
        if !null[e.id as usize] {
          break;
        }
      }
    }
  }
  close(&mut m);
  m
}

fn close(m: &mut [Vec<bool>]) {
  let n = m.len();
  for k in 0..n {
    for i in 0..n {
      for j in 0..n {
        if m[i][k] && m[k][j] {
          m[i][j] = true;
        }
      }
    }
  }
}

/// The first terminals of each nonterminal, possibly with repetitions.
pub fn firsts(r: &RGram) -> Vec<Vec<u8>> {
  let null = nullable(r);
  let b = begins(r);
  let n = r.rules.len();
  (0..n)
    .map(|a| {
      let mut v = Vec::new();
      for c in 0..n {
        if !b[a][c] {
          continue;
        }
        for p in &r.rules[c] {
          for e in &p.elems {
            if !e.nt {
              v.push(e.id);
              break;
            }
            if !null[e.id as usize] {
              break;
            }
          }
        }
      }
      v
    })
    .collect()
}

/// The first terminals of a sequence, and whether it derives the empty string.
pub fn firsts_of(elems: &[RElem], null: &[bool], firsts: &[Vec<u8>]) -> (Vec<u8>, bool) {
  let mut v = Vec::new();
  for e in elems {
    if !e.nt {
      v.push(e.id);
      return (v, false);
    }
    v.extend_from_slice(&firsts[e.id as usize]);
    if !null[e.id as usize] {
      return (v, false);
    }
  }
  (v, true)
}

/// The terminals that can follow each nonterminal, possibly with repetitions.
pub fn follows(r: &RGram) -> Vec<Vec<u8>> {
  let null = nullable(r);
  let f = firsts(r);
  let n = r.rules.len();
  let mut direct = vec![Vec::new(); n];
  // last[a][b]: b can end something derived from a
  let mut last = vec![vec![false; n]; n];
  for a in 0..n {
    last[a][a] = true;
    for p in &r.rules[a] {
      for (i, e) in p.elems.iter().enumerate() {
        if !e.nt {
          continue;
        }
        let (v, empty) = firsts_of(&p.elems[i + 1..], &null, &f);
        direct[e.id as usize].extend(v);
        if empty {
          last[a][e.id as usize] = true;
        }
      }
    }
  }
  close(&mut last);
  (0..n)
    .map(|b| {
      let mut v = Vec::new();
      for a in 0..n {
        if last[a][b] {
          v.extend_from_slice(&direct[a]);
        }
      }
      v
    })
    .collect()
}

/// Does the set hold exactly the members of the list?
pub fn same_set<'a>(have: impl Iterator<Item = &'a u8>, want: &[u8]) -> bool {
  let have: Vec<u8> = have.copied().collect();
  have.iter().all(|h| want.contains(h)) && want.iter().all(|w| have.contains(w))
}
