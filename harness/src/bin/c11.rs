//! C11: what the Earley parser accepts.  C12: the forest it returns.
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, NodeContent, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::wrap_grammar_with_start;
use rt::gram::*;
use rt::*;

/// d[a][i][j]: nonterminal a derives tokens i..j.
type Derives = Vec<Vec<Vec<bool>>>;

fn elem_derives(e: &RElem, d: &Derives, toks: &[u8], i: usize, j: usize) -> bool {
  if e.nt {
    d[e.id as usize][i][j]
  } else {
    j == i + 1 && toks[i] == e.id
  }
}

fn seq_derives(es: &[RElem], d: &Derives, toks: &[u8], i: usize, j: usize) -> bool {
  match es.split_first() {
    None => i == j,
    Some((e, rest)) => (i..=j).any(|m| elem_derives(e, d, toks, i, m) && seq_derives(rest, d, toks, m, j)),
  }
}

fn derives(r: &RGram, toks: &[u8]) -> Derives {
  let n = toks.len();
  let mut d = vec![vec![vec![false; n + 1]; n + 1]; r.rules.len()];
  loop {
    let mut changed = false;
    for a in 0..r.rules.len() {
      for i in 0..=n {
        for j in i..=n {
          if !d[a][i][j] && r.rules[a].iter().any(|p| seq_derives(&p.elems, &d, toks, i, j)) {
            d[a][i][j] = true;
            changed = true;
          }
        }
      }
    }
    if !changed {
      return d;
    }
  }
}

fn tokens(s: &Shape, len: (usize, usize)) -> Vec<u8> {
  let n = pick_in(len.0, len.1);
  // one kind that no production mentions
  (0..n).map(|_| byte(0, s.terms)).collect()
}

fn accepts(s: Shape, len: (usize, usize)) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let toks = tokens(&s, len);
  let Ok(g) = wrap_grammar_with_start(g) else { fail("wrapping failed") };
  let tree: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = tree.handle();
  let res = parse(&g, &h, toks.iter().enumerate().map(|(i, t)| Token::new(*t, i as u8)).collect());
  let d = derives(&r, &toks);
  let want = d[r.start as usize][0][toks.len()];
  check!(res.is_some() || !want, "a derivable input was rejected");
  check!(res.is_none() || want, "an underivable input was accepted");
  cover(if want { "accepted" } else { "rejected" });
  observe(want as u64);
}

type N<'a> = Node<'a, u8, u8, u8>;

enum Content<'a> {
  Leaf(u8, u8),
  Branch(u8, Vec<usize>),
  #[allow(dead_code)]
  Never(std::marker::PhantomData<&'a ()>),
}

struct Forest<'a> {
  nodes: Vec<N<'a>>,
  alts: Vec<Vec<Content<'a>>>,
  width: Vec<Option<usize>>,
}

impl<'a> Forest<'a> {
  fn index(nodes: &mut Vec<N<'a>>, n: N<'a>) -> usize {
    match nodes.iter().position(|m| *m == n) {
      Some(i) => i,
      None => {
        nodes.push(n);
        nodes.len() - 1
      }
    }
  }

  fn new(root: N<'a>) -> Self {
    let mut nodes = vec![root];
    let mut alts = Vec::new();
    while alts.len() < nodes.len() {
      let node = nodes[alts.len()].clone();
      let mut v = Vec::new();
      for a in node.alts() {
        v.push(match a.content() {
          NodeContent::Leaf(l) => Content::Leaf(l.kind(), *l.value()),
          NodeContent::Branch(b) => {
            let c: Vec<usize> = b.nodes().map(|n| Self::index(&mut nodes, n)).collect();
            Content::Branch(b.action(), c)
          }
        });
      }
      check!(!v.is_empty(), "a node without alternatives");
      alts.push(v);
    }
    // how many tokens every node covers
    let mut width = vec![None; nodes.len()];
    loop {
      let mut changed = false;
      for i in 0..nodes.len() {
        if width[i].is_some() {
          continue;
        }
        for a in &alts[i] {
          let w = match a {
            Content::Leaf(..) => Some(1),
            Content::Branch(_, c) => c.iter().map(|c| width[*c]).sum::<Option<usize>>(),
            Content::Never(_) => None,
          };
          if w.is_some() {
            width[i] = w;
            changed = true;
            break;
          }
        }
      }
      if !changed {
        break;
      }
    }
    Forest { nodes, alts, width }
  }
}

/// Every way of cutting i..j into the elements.
fn cuts(es: &[RElem], d: &Derives, toks: &[u8], i: usize, j: usize) -> Vec<Vec<usize>> {
  match es.split_first() {
    None => {
      if i == j {
        vec![vec![j]]
      } else {
        vec![]
      }
    }
    Some((e, rest)) => {
      let mut v = Vec::new();
      for m in i..=j {
        if elem_derives(e, d, toks, i, m) {
          for mut c in cuts(rest, d, toks, m, j) {
            c.insert(0, i);
            v.push(c);
          }
        }
      }
      v
    }
  }
}

fn forest(s: Shape, keys: Keys, len: (usize, usize)) {
  let Some((r, g)) = well_formed(&s, keys) else { return };
  let toks = tokens(&s, len);
  let vals: Vec<u8> = (0..toks.len()).map(|i| 50 + i as u8).collect();
  let d = derives(&r, &toks);
  if !d[r.start as usize][0][toks.len()] {
    return;
  }
  let Ok(g) = wrap_grammar_with_start(g) else { fail("wrapping failed") };
  let tree: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = tree.handle();
  let res = parse(&g, &h, toks.iter().zip(&vals).map(|(t, v)| Token::new(*t, *v)).collect());
  let Some(root) = res else { fail("a derivable input was rejected") };
  is_forest(&r, &d, &toks, &vals, root);
}

/// Two inputs parsed into one tree, tokens with any values.
fn forests(s: Shape, len: (usize, usize), inputs: usize) {
  let Some((r, g)) = well_formed(&s, Keys::PerRule) else { return };
  let Ok(g) = wrap_grammar_with_start(g) else { fail("wrapping failed") };
  let tree: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = tree.handle();
  let mut all = Vec::new();
  for _ in 0..inputs {
    let toks = tokens(&s, len);
    let vals: Vec<u8> = toks.iter().map(|_| byte(0, 255)).collect();
    let d = derives(&r, &toks);
    if !d[r.start as usize][0][toks.len()] {
      // the next one need not suffer from it
      let res = parse(&g, &h, toks.iter().zip(&vals).map(|(t, v)| Token::new(*t, *v)).collect());
      check!(res.is_none(), "an underivable input was accepted");
      continue;
    }
    let res = parse(&g, &h, toks.iter().zip(&vals).map(|(t, v)| Token::new(*t, *v)).collect());
    let Some(root) = res else { fail("a derivable input was rejected") };
    all.push((toks, vals, d, root));
  }
  if all.len() > 1 {
    cover("two forests");
  }
  for (toks, vals, d, root) in all {
    is_forest(&r, &d, &toks, &vals, root);
  }
}

fn is_forest(r: &RGram, d: &Derives, toks: &[u8], vals: &[u8], root: N) {
  let f = Forest::new(root);
  // (node, nonterminal, from)
  let mut todo = vec![(0usize, r.start as usize, 0usize)];
  let mut k = 0;
  let mut ambiguous = false;
  while k < todo.len() {
    let (n, a, i) = todo[k];
    k += 1;
    let j = match f.width[n] {
      Some(w) => i + w,
      None => fail("a node without a finite tree"),
    };
    check!(j <= toks.len() && (k > 1 || j == toks.len()), "a node covers the wrong part of the input");
    let mut have: Vec<(u8, Vec<usize>)> = Vec::new();
    for alt in &f.alts[n] {
      match alt {
        Content::Branch(ak, cs) => {
          let Some(p) = r.rules[a].iter().find(|p| p.ak == *ak) else { fail("an action of another nonterminal") };
          check!(p.elems.len() == cs.len(), "the wrong number of children");
          let mut at = i;
          let mut cut = vec![i];
          for (e, c) in p.elems.iter().zip(cs) {
            if e.nt {
              if !todo.contains(&(*c, e.id as usize, at)) {
                todo.push((*c, e.id as usize, at));
              }
              at += match f.width[*c] {
                Some(w) => w,
                None => fail("a child without a finite tree"),
              };
            } else {
              check!(f.alts[*c].len() == 1 && at < toks.len(), "a token's node has not one alternative");
              match &f.alts[*c][0] {
                Content::Leaf(kind, val) => {
                  check!(*kind == toks[at] && *val == vals[at], "a leaf is not the token at its place");
                }
                _ => fail("a token's node is not a leaf"),
              }
              at += 1;
            }
            check!(at <= toks.len(), "a child covers the wrong part of the input");
            cut.push(at);
          }
          check!(at == j, "an alternative covers another part of the input than its node");
          check!(!have.contains(&(*ak, cut.clone())), "the same alternative twice");
          have.push((*ak, cut));
        }
        _ => fail("a nonterminal's node holds a leaf"),
      }
    }
    let mut want = 0;
    for p in &r.rules[a] {
      for cut in cuts(&p.elems, d, toks, i, j) {
        want += 1;
        check!(have.iter().any(|h| h.0 == p.ak && h.1 == cut), "a derivation is missing");
      }
    }
    check!(have.len() == want, "a derivation that is none");
    if want > 1 {
      ambiguous = true;
    }
  }
  cover(if ambiguous { "ambiguous" } else { "unambiguous" });
  observe(k as u64);
  observe(f.nodes.len() as u64);
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 3), all_prods: 3, len: 3, elems: 4, extra_nts: 0, terms: 2, named: false };

const R2: Shape = Shape { rules: (2, 2), prods: (1, 2), ..Q };
const R3: Shape = Shape { rules: (3, 3), prods: (1, 2), ..Q };

entries! {
  acc1 => accepts(Shape { rules: (1, 1), ..Q }, (0, 4));
  acc2 => accepts(R2, (0, 3));
  acc3 => accepts(R3, (0, 3));
  acc4 => accepts(Shape { all_prods: 4, elems: 5, ..R2 }, (0, 3));
  acc5 => accepts(Shape { all_prods: 4, elems: 5, ..R3 }, (0, 3));
  acc6 => accepts(Shape { rules: (1, 1), elems: 5, ..Q }, (4, 4));
  accone => accepts(Shape { rules: (1, 1), terms: 1, ..Q }, (5, 6));
  acclong => accepts(Shape { rules: (1, 2), terms: 1, elems: 3, ..Q }, (4, 5));
  acc4s => accepts(Shape { all_prods: 4, elems: 4, ..R2 }, (0, 3));
  acc5s => accepts(Shape { all_prods: 4, elems: 4, ..R3 }, (0, 2));
  acc7 => accepts(Shape { rules: (4, 4), prods: (1, 1), all_prods: 4, elems: 4, len: 2, ..Q }, (0, 2));
  for1 => forest(Shape { rules: (1, 1), ..Q }, Keys::Global, (0, 4));
  for2 => forest(R2, Keys::PerRule, (0, 3));
  for3 => forest(R3, Keys::PerRule, (0, 3));
  for4 => forest(Shape { all_prods: 4, elems: 5, ..R2 }, Keys::PerRule, (0, 3));
  for5 => forest(Shape { all_prods: 4, elems: 5, ..R3 }, Keys::PerRule, (0, 3));
  for6 => forest(Shape { rules: (1, 1), elems: 5, ..Q }, Keys::Global, (4, 4));
  forone => forest(Shape { rules: (1, 1), terms: 1, ..Q }, Keys::Global, (5, 6));
  forlong => forest(Shape { rules: (1, 2), terms: 1, elems: 3, ..Q }, Keys::Global, (4, 5));
  for4s => forest(Shape { all_prods: 4, elems: 4, ..R2 }, Keys::Global, (0, 3));
  for5s => forest(Shape { all_prods: 4, elems: 4, ..R3 }, Keys::PerRule, (0, 2));
  for7 => forest(Shape { rules: (4, 4), prods: (1, 1), all_prods: 4, elems: 4, len: 2, ..Q }, Keys::PerRule, (0, 2));
  vals1 => forests(Shape { rules: (1, 1), prods: (1, 2), elems: 3, terms: 1, ..Q }, (0, 3), 1);
  twice => forests(Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, elems: 3, terms: 1, ..Q }, (0, 2), 2);
}
