//! C14: the parse tree store.
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use rt::*;

type O = TreeOwner<u8, u8, u8>;
type H<'a> = TreeHandle<'a, u8, u8, u8>;
type N<'a> = Node<'a, u8, u8, u8>;
type A<'a> = Alternative<'a, u8, u8, u8>;

#[derive(Clone)]
enum C {
  Leaf(u8, u8),
  Branch(u8, Vec<usize>),
}

fn eq(a: &C, b: &C) -> bool {
  match (a, b) {
    (C::Leaf(k, v), C::Leaf(l, w)) => k == l && v == w,
    (C::Branch(k, v), C::Branch(l, w)) => v == w && k == l,
    _ => false,
  }
}

/// One tree and what should be in it.
struct T<'a> {
  h: &'a H<'a>,
  nodes: Vec<N<'a>>,
  /// numbers of contents
  has: Vec<Vec<usize>>,
  alts: Vec<A<'a>>,
  /// content of each alternative, as number
  which: Vec<usize>,
  contents: Vec<C>,
}

fn changed(w: WasChanged) -> bool {
  match w {
    WasChanged::Changed => true,
    WasChanged::Unchanged => false,
  }
}

impl<'a> T<'a> {
  fn new(h: &'a H<'a>) -> Self {
    T { h, nodes: vec![], has: vec![], alts: vec![], which: vec![], contents: vec![] }
  }

  fn intern(&mut self, c: C) -> usize {
    match self.contents.iter().position(|d| eq(d, &c)) {
      Some(i) => i,
      None => {
        self.contents.push(c);
        self.contents.len() - 1
      }
    }
  }

  fn node(&mut self, n: N<'a>, has: Vec<usize>) {
    check!(self.nodes.iter().all(|m| *m != n), "two nodes are the same");
    self.nodes.push(n);
    self.has.push(has);
  }

  fn children(&self, max: usize) -> Vec<usize> {
    if self.nodes.is_empty() {
      return vec![];
    }
    (0..pick(max + 1)).map(|_| pick(self.nodes.len())).collect()
  }

  fn pick_nodes(&self, c: &[usize]) -> Vec<N<'a>> {
    c.iter().map(|i| self.nodes[*i].clone()).collect()
  }

  fn step(&mut self, max: usize) {
    // a handle is as good as any other
    let h = self.nodes.first().map_or(self.h.clone(), |n| n.handle());
    match pick(7) {
      0 => {
        let n = h.make_node();
        self.node(n, vec![]);
      }
      1 => {
        let (k, v) = (byte(0, 255), byte(0, 255));
        let c = self.intern(C::Leaf(k, v));
        let n = h.make_leaf_node(k, v);
        self.node(n, vec![c]);
      }
      2 => {
        let cs = self.children(max);
        let a = byte(0, 255);
        let n = h.make_branch_node(a, self.pick_nodes(&cs));
        let c = self.intern(C::Branch(a, cs));
        self.node(n, vec![c]);
      }
      3 => {
        let (k, v) = (byte(0, 255), byte(0, 255));
        let c = self.intern(C::Leaf(k, v));
        self.alts.push(self.h.make_leaf_alt(k, v));
        self.which.push(c);
      }
      4 => {
        let cs = self.children(max);
        let a = byte(0, 255);
        let c = self.intern(C::Branch(a, cs.clone()));
        let nodes = self.pick_nodes(&cs);
        self.alts.push(self.h.make_branch_alt(a, nodes));
        self.which.push(c);
      }
      5 => {
        if self.nodes.is_empty() || self.alts.is_empty() {
          return;
        }
        let n = pick(self.nodes.len());
        let a = pick(self.alts.len());
        let w = changed(self.nodes[n].add_alt(&self.alts[a]));
        let c = self.which[a];
        let had = self.has[n].contains(&c);
        check!(w == !had, "adding an alternative reports the wrong change");
        if !had {
          self.has[n].push(c);
        } else {
          cover("added again");
        }
      }
      _ => {
        if self.nodes.is_empty() {
          return;
        }
        let n = pick(self.nodes.len());
        let m = pick(self.nodes.len());
        let w = changed(self.nodes[n].add_all(&self.nodes[m]));
        let mut grew = false;
        for c in self.has[m].clone() {
          if !self.has[n].contains(&c) {
            self.has[n].push(c);
            grew = true;
            cover("added all");
          }
        }
        check!(w == grew, "adding all alternatives reports the wrong change");
      }
    }
  }

  fn reads_as(&self, a: &A<'a>, c: &C) -> bool {
    match (a.content(), c) {
      (NodeContent::Leaf(l), C::Leaf(k, v)) => l.kind() == *k && *l.value() == *v && l.handle().is_same(self.h),
      (NodeContent::Branch(b), C::Branch(k, v)) => {
        let nodes: Vec<N<'a>> = b.nodes().collect();
        b.action() == *k && nodes.len() == v.len() && nodes.iter().zip(v).all(|(n, i)| *n == self.nodes[*i])
      }
      _ => false,
    }
  }

  fn verify(&self) {
    for (i, n) in self.nodes.iter().enumerate() {
      let alts: Vec<A<'a>> = n.alts().collect();
      check!(alts.len() == self.has[i].len(), "a node has the wrong number of alternatives");
      for c in &self.has[i] {
        let c = &self.contents[*c];
        check!(alts.iter().any(|a| self.reads_as(a, c)), "an alternative is lost or reads back differently");
      }
      check!(n.handle().is_same(self.h) && n.handle() == *self.h, "a node's tree");
      observe(alts.len() as u64);
    }
    for (i, a) in self.alts.iter().enumerate() {
      check!(self.reads_as(a, &self.contents[self.which[i]]), "an alternative reads back differently");
      for (j, b) in self.alts[..i].iter().enumerate() {
        check!((a == b) == (self.which[i] == self.which[j]), "alternatives are shared exactly when equal");
        if a == b {
          cover("shared");
        }
      }
    }
  }
}

fn ops(n: usize, max: usize) {
  let o: O = TreeOwner::new();
  let h = o.handle();
  let mut t = T::new(&h);
  for _ in 0..n {
    t.step(max);
  }
  t.verify();
}

/// From a tree with two nodes and an alternative of each kind.
fn ops_from(n: usize, max: usize) {
  let o: O = TreeOwner::default();
  let h = o.handle();
  let mut t = T::new(&h);
  let (k, v) = (byte(0, 255), byte(0, 255));
  let c = t.intern(C::Leaf(k, v));
  let m = t.h.make_leaf_node(k, v);
  t.node(m, vec![c]);
  t.alts.push(t.nodes[0].alts().next().unwrap());
  t.which.push(c);
  let a = byte(0, 255);
  let c = t.intern(C::Branch(a, vec![0, 0]));
  let m = t.h.make_branch_node(a, t.pick_nodes(&[0, 0]));
  t.node(m, vec![c]);
  t.alts.push(t.nodes[1].alts().next().unwrap());
  t.which.push(c);
  for _ in 0..n {
    t.step(max);
  }
  t.verify();
}

/// Two trees side by side do not disturb each other; mixing them panics.
fn mix() {
  let (o, p): (O, O) = (TreeOwner::new(), TreeOwner::new());
  let (h, i) = (o.handle(), p.handle());
  check!(!h.is_same(&i) && h != i && h.is_same(&o.handle()), "is_same");
  let n = h.make_leaf_node(byte(0, 255), byte(0, 255));
  let m = i.make_leaf_node(byte(0, 255), byte(0, 255));
  let a = m.alts().next().unwrap();
  check!(n != m, "nodes of different trees are the same");
  check!(n.alts().next().unwrap() != a, "alternatives of different trees are the same");
  match pick(6) {
    0 => {
      expect_panic();
      n.add_alt(&a);
    }
    1 => {
      expect_panic();
      n.add_all(&m);
    }
    2 => {
      expect_panic();
      h.make_branch_alt(byte(0, 255), vec![m]);
    }
    3 => {
      expect_panic();
      h.make_branch_node(byte(0, 255), vec![n, m]);
    }
    4 => {
      expect_panic();
      i.make_branch_node(byte(0, 255), vec![m.clone(), n, m]);
    }
    _ => {
      let k = byte(0, 255);
      let x = h.make_branch_node(k, vec![n.clone()]);
      let y = i.make_branch_node(k, vec![m.clone()]);
      check!(x != y && x.alts().count() == 1 && y.alts().count() == 1, "trees disturb each other");
      check!(n.alts().count() == 1 && m.alts().count() == 1, "trees disturb each other");
      return;
    }
  }
  fail("trees were mixed");
}

/// Children made while the branch is being made.
fn lazily(steps: usize) {
  let o: O = TreeOwner::new();
  let h = o.handle();
  let first = h.make_leaf_node(1, 2);
  let n = pick(steps + 1);
  let mut made = Vec::new();
  let mut kinds = Vec::new();
  let a = byte(0, 255);
  let it = (0..n).map(|j| {
    let c = match pick(5) {
      0 => h.make_node(),
      1 => {
        let k = byte(0, 255);
        kinds.push((j, k));
        h.make_leaf_node(k, j as u8)
      }
      2 => h.make_branch_node(7, vec![first.clone()]),
      3 => {
        check!(first.alts().count() == 1, "reading while a branch is made");
        first.clone()
      }
      _ => {
        let x = h.make_node();
        x.add_all(&first);
        x
      }
    };
    made.push(c.clone());
    c
  });
  let (alt, br) = if flag() { (Some(h.make_branch_alt(a, it)), None) } else { (None, Some(h.make_branch_node(a, it))) };
  let alt = alt.unwrap_or_else(|| br.unwrap().alts().next().unwrap());
  match alt.content() {
    NodeContent::Branch(b) => {
      check!(b.action() == a, "action");
      check!(b.nodes().collect::<Vec<_>>() == made, "children");
      if n > 0 {
        cover("lazy children");
      }
    }
    _ => fail("a branch became a leaf"),
  };
  for (j, k) in kinds {
    match made[j].alts().next().unwrap().content() {
      NodeContent::Leaf(l) => check!(l.kind() == k && *l.value() == j as u8, "a child made lazily"),
      _ => fail("a leaf became a branch"),
    }
  }
}

entries! {
  ops2 => ops(2, 2);
  ops3 => ops(3, 2);
  ops4 => ops(4, 1);
  from2 => ops_from(2, 2);
  ops5 => ops(5, 1);
  from4 => ops_from(4, 1);
  from3 => ops_from(3, 1);
  mixing => mix();
  lazily2 => lazily(2);
  lazily3 => lazily(3);
}
