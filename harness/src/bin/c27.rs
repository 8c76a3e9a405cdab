//! C27: symbols, elements, keys and action trees are told apart by their contents.
use bongo::grammar::{build, Elem, NonTerminal, ProdElement, Terminal};
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use bongo::utils::{Name, ToDoc, TreeNode, TreeValue};
use rt::gram::any_text;
use rt::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// Three values and whether two of them should be equal: a total order that
/// agrees with it.
fn ordered<T: Ord>(v: &[T], same: impl Fn(usize, usize) -> bool) {
  for i in 0..v.len() {
    for j in 0..v.len() {
      let (a, b) = (&v[i], &v[j]);
      let c = a.cmp(b);
      check!((a == b) == same(i, j) && (a != b) != same(i, j), "equality differs from the contents'");
      check!((c == Ordering::Equal) == same(i, j), "order and equality disagree");
      check!(c == b.cmp(a).reverse(), "the order is not antisymmetric");
      check!(a.partial_cmp(b) == Some(c), "the partial order differs");
      for k in 0..v.len() {
        if c == Ordering::Less && b.cmp(&v[k]) == Ordering::Less {
          check!(a.cmp(&v[k]) == Ordering::Less, "the order is not transitive");
        }
      }
      if i < j {
        cover(if same(i, j) { "equal" } else { "different" });
      }
    }
  }
}

#[derive(Default)]
struct Keep(Vec<u8>);
impl std::hash::Hasher for Keep {
  fn write(&mut self, b: &[u8]) {
    self.0.extend_from_slice(b);
  }
  fn finish(&self) -> u64 {
    0
  }
}

fn hashed(n: &impl std::hash::Hash) -> Vec<u8> {
  let mut k = Keep::default();
  n.hash(&mut k);
  k.0
}

fn shown(d: &impl ToDoc) -> String {
  let arena = pretty::Arena::<()>::new();
  let doc: pretty::DocBuilder<'_, pretty::Arena<'_, ()>, ()> = d.to_doc(&arena);
  format!("{}", doc.into_doc().pretty(80))
}

fn symbols(max: usize) {
  let texts: Vec<String> = (0..2).map(|_| any_text(0, max)).collect();
  let same = |i: usize, j: usize| texts[i] == texts[j];
  let ts: Vec<Terminal> = texts.iter().map(|t| Terminal::new(t)).collect();
  let ns: Vec<NonTerminal> = texts.iter().map(|t| NonTerminal::new(t)).collect();
  ordered(&ts, same);
  ordered(&ns, same);
  check!((ts[0] < ts[1]) == (texts[0] < texts[1]), "terminals are not ordered as their names");
  check!((ns[0] < ns[1]) == (texts[0] < texts[1]), "nonterminals are not ordered as their names");
  if texts[0] == texts[1] {
    check!(hashed(&ts[0]) == hashed(&ts[1]) && hashed(&ns[0]) == hashed(&ns[1]), "equal symbols hash differently");
  }
  check!(ts[0].clone() == ts[0] && ns[0].clone() == ns[0], "a copy differs");
  observe(texts[0].len() as u64);
}

fn docs(max: usize) {
  let t = any_text(0, max);
  check!(shown(&Terminal::new(&t)) == t, "a terminal is shown differently");
  check!(shown(&NonTerminal::new(&t)) == t, "a nonterminal is shown differently");
  check!(shown(&Name::new(&t)) == t, "a name is shown differently");
  let e: Elem<Terminal, NonTerminal> = Elem::Term(Terminal::new(&t));
  check!(shown(&e) == t, "a terminal element is shown differently");
  let e: Elem<Terminal, NonTerminal> = Elem::NonTerm(NonTerminal::new(&t));
  check!(shown(&e) == format!("<{}>", t), "a nonterminal element is shown differently");
  check!(shown(&StreamTerminal::Term(Terminal::new(&t))) == t, "a stream terminal is shown differently");
  check!(shown(&StartNonTerminal::NTerm(NonTerminal::new(&t))) == t, "a start nonterminal is shown differently");
  cover("shown");
  observe(t.len() as u64);
}

fn any_elem() -> (bool, u8, Elem<u8, u8>) {
  let nt = flag();
  let id = byte(0, 255);
  (nt, id, if nt { Elem::NonTerm(id) } else { Elem::Term(id) })
}

fn elements() {
  let es: Vec<(bool, u8, Elem<u8, u8>)> = (0..3).map(|_| any_elem()).collect();
  let v: Vec<Elem<u8, u8>> = es.iter().map(|e| e.2.clone()).collect();
  ordered(&v, |i, j| es[i].0 == es[j].0 && es[i].1 == es[j].1);
  for (nt, id, e) in &es {
    check!(e.as_term() == if *nt { None } else { Some(id) }, "as_term");
    check!(e.as_nonterm() == if *nt { Some(id) } else { None }, "as_nonterm");
    let r = e.as_ref();
    check!(match r { Elem::Term(x) => !*nt && x == id, Elem::NonTerm(x) => *nt && x == id }, "as_ref");
  }
  observe(es[0].1 as u64);
}

fn named_elements(n: usize) {
  let mut parts = Vec::new();
  let mut v: Vec<ProdElement<u8, u8>> = Vec::new();
  for _ in 0..n {
    let (nt, id, e) = any_elem();
    let name = if flag() { Some(any_text(0, 1)) } else { None };
    v.push(match (&name, pick(2)) {
      (Some(t), 0) => ProdElement::new_with_name(Name::new(t), e),
      (Some(t), _) => ProdElement::new(Some(Name::new(t)), e),
      (None, 0) => ProdElement::new_empty(e),
      (None, _) => ProdElement::from(e),
    });
    parts.push((nt, id, name));
  }
  ordered(&v, |i, j| parts[i] == parts[j]);
  for (e, (nt, id, name)) in v.iter().zip(&parts) {
    check!(e.id().map(|n| n.str()) == name.as_deref(), "the name of an element");
    check!(match e.elem() { Elem::Term(x) => !*nt && x == id, Elem::NonTerm(x) => *nt && x == id }, "the symbol of an element");
    check!(e.clone() == *e, "a copy differs");
  }
  observe(n as u64);
}

fn wrapped() {
  let xs: Vec<Option<u8>> = (0..3).map(|_| if flag() { Some(byte(0, 255)) } else { None }).collect();
  let same = |i: usize, j: usize| xs[i] == xs[j];
  let ts: Vec<StreamTerminal<u8>> = xs.iter().map(|x| x.map_or(StreamTerminal::EndOfStream, StreamTerminal::Term)).collect();
  ordered(&ts, same);
  let ns: Vec<StartNonTerminal<u8>> = xs.iter().map(|x| x.map_or(StartNonTerminal::Start, StartNonTerminal::NTerm)).collect();
  ordered(&ns, same);
  let ks: Vec<StartActionKey<u8>> = xs.iter().map(|x| x.map_or(StartActionKey::Start, StartActionKey::ActionKey)).collect();
  ordered(&ks, same);
  for i in 0..xs.len() {
    check!(ks[i].as_base() == xs[i].as_ref(), "as_base");
    check!(ts[i].is_eos() == xs[i].is_none(), "is_eos");
    let k = byte(0, 255);
    check!(ts[i].has_kind(&k) == (xs[i] == Some(k)), "has_kind");
  }
  observe(xs.len() as u64);
}

fn keys() {
  let aks: Vec<u8> = (0..4).map(|_| byte(0, 255)).collect();
  let g = build(0u8, |gb| {
    gb.add_rule(0u8, |rb| {
      rb.add_prod(aks[0], 0u8, |pb| {
        pb.add_nonterm(1u8);
      });
      rb.add_prod(aks[1], 1u8, |pb| {
        pb.add_term(1u8);
      });
    });
    gb.add_rule(1u8, |rb| {
      rb.add_prod(aks[2], 2u8, |_| {});
      rb.add_prod(aks[3], 3u8, |_| {});
    });
  });
  let Ok(g) = g else { return };
  let ks: Vec<_> = g.prods().map(|p| p.prod_key()).collect();
  check!(ks.len() == 4, "a production is missing");
  let head = |i: usize| (i / 2) as u8;
  for (i, k) in ks.iter().enumerate() {
    check!(*k.head() == head(i) && *k.action_key() == aks[i], "a key's parts");
  }
  ordered(&ks, |i, j| head(i) == head(j) && aks[i] == aks[j]);
  observe(4);
}

/// Two action trees of any of six shapes.
fn trees() {
  // made twice from the same parts, or with one part changed
  let label = byte(0, 255);
  let (x, y) = (byte(0, 255), byte(0, 255));
  let make = |label: u8, x: u8, y: u8, shape: usize| {
    let mut m: BTreeMap<Name, TreeValue<u8, u8>> = BTreeMap::new();
    match shape {
      0 => {}
      1 => {
        m.insert(Name::new("a"), TreeValue::Leaf(x));
      }
      2 => {
        m.insert(Name::new("b"), TreeValue::Leaf(x));
      }
      3 => {
        m.insert(Name::new("a"), TreeValue::Leaf(x));
        m.insert(Name::new("b"), TreeValue::Leaf(y));
      }
      4 => {
        m.insert(Name::new("a"), TreeValue::Node(Box::new(TreeNode::from_action(x))));
      }
      _ => {
        let mut n = BTreeMap::new();
        n.insert(Name::new("a"), TreeValue::Leaf(y));
        m.insert(Name::new("a"), TreeValue::Node(Box::new(TreeNode::new(x, n))));
      }
    }
    TreeNode::new(label, m)
  };
  let s1 = pick(6);
  let s2 = pick(6);
  let (l2, x2, y2) = (byte(0, 255), byte(0, 255), byte(0, 255));
  let a = make(label, x, y, s1);
  let b = make(l2, x2, y2, s2);
  let uses_x = s1 != 0;
  let uses_y = s1 == 3 || s1 == 5;
  let same = s1 == s2 && label == l2 && (!uses_x || x == x2) && (!uses_y || y == y2);
  let v = [a, b];
  ordered(&v, |i, j| i == j || same);
  check!(v[0].clone() == v[0], "a copy differs");
  if s1 == 0 {
    check!(TreeNode::from_action(label) == v[0], "from_action");
  }
  observe(s1 as u64);
}

entries! {
  symbols4 => symbols(4);
  docs8 => docs(8);
  elems => elements();
  named2 => named_elements(2);
  named3 => named_elements(3);
  starts => wrapped();
  prod_keys => keys();
  trees2 => trees();
}
