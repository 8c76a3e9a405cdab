//! C25: a parse tree shared by threads.  All inputs are made before the threads
//! start; the schedule is chosen symbolically by the engine.
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use rt::*;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

type O = TreeOwner<u8, u8, u8>;
type H<'a> = TreeHandle<'a, u8, u8, u8>;
type N<'a> = Node<'a, u8, u8, u8>;
type A<'a> = Alternative<'a, u8, u8, u8>;

#[derive(Clone, Copy)]
enum Op {
  Node,
  LeafNode(u8),
  BranchNode(u8, usize),
  /// children produced by an iterator that makes them in the tree
  LazyNode(u8),
  LeafAlt(u8),
  BranchAlt(u8, usize),
  /// make a leaf alternative and add it to a node
  Put(usize, u8),
  AddAlt(usize, usize),
  AddAll(usize, usize),
  Alts(usize),
  Content(usize),
}

enum Res<'a> {
  Node(N<'a>),
  Alt(A<'a>),
  Put(A<'a>, bool),
  Changed(bool),
  Alts(Vec<A<'a>>),
  Read(u8, usize),
}

/// What an alternative holds; nodes by their place in `Run::nodes`.
#[derive(Clone, PartialEq)]
enum C {
  Leaf(u8, u8),
  Branch(u8, Vec<usize>),
}

struct Shared<'a> {
  h: H<'a>,
  nodes: Vec<N<'a>>,
  alts: Vec<A<'a>>,
  progs: Vec<Vec<Op>>,
  results: Vec<UnsafeCell<Vec<Res<'a>>>>,
  started: AtomicUsize,
}

fn changed(w: WasChanged) -> bool {
  matches!(w, WasChanged::Changed)
}

fn perform<'a>(s: &Shared<'a>, h: &H<'a>, op: Op) -> Res<'a> {
  match op {
    Op::Node => Res::Node(h.make_node()),
    Op::LeafNode(k) => Res::Node(h.make_leaf_node(k, 0)),
    Op::BranchNode(k, n) => Res::Node(h.make_branch_node(k, vec![s.nodes[n].clone()])),
    Op::LazyNode(k) => Res::Node(h.make_branch_node(k, (0..1).map(|_| s.nodes[0].handle().make_leaf_node(0, 0)))),
    Op::LeafAlt(k) => Res::Alt(s.h.make_leaf_alt(k, 0)),
    Op::BranchAlt(k, n) => Res::Alt(s.nodes[n].alts().next().map_or_else(|| fail("a base node is empty"), |_| {
      make_branch(s, k, n)
    })),
    Op::Put(n, k) => {
      let a = make_leaf(s, k);
      let c = changed(s.nodes[n].add_alt(&a));
      Res::Put(a, c)
    }
    Op::AddAlt(n, a) => Res::Changed(changed(s.nodes[n].add_alt(&s.alts[a]))),
    Op::AddAll(n, m) => Res::Changed(changed(s.nodes[n].add_all(&s.nodes[m]))),
    Op::Alts(n) => Res::Alts(s.nodes[n].alts().collect()),
    Op::Content(a) => match s.alts[a].content() {
      NodeContent::Leaf(l) => Res::Read(l.kind(), *l.value() as usize),
      NodeContent::Branch(b) => Res::Read(b.action(), 100 + b.nodes().count()),
    },
  }
}

/// The alternatives' lifetime is the tree's (the signature says the handle's).
fn make_branch<'a>(s: &Shared<'a>, k: u8, n: usize) -> A<'a> {
  let a = s.h.make_branch_alt(k, vec![s.nodes[n].clone()]);
  unsafe { std::mem::transmute::<A<'_>, A<'a>>(a) }
}
fn make_leaf<'a>(s: &Shared<'a>, k: u8) -> A<'a> {
  s.h.make_leaf_alt(k, 0)
}

extern "C" fn body(arg: u64) {
  let (p, i) = (arg & !7, (arg & 7) as usize);
  let s: &Shared<'static> = unsafe { &*(p as usize as *const Shared<'static>) };
  if !symbolic() {
    s.started.fetch_add(1, SeqCst);
    while s.started.load(SeqCst) < s.progs.len() {
      std::hint::spin_loop();
    }
  }
  let h = s.nodes[0].handle();
  let out = unsafe { &mut *s.results[i].get() };
  for op in &s.progs[i] {
    out.push(perform(s, &h, *op));
  }
}

fn num(all: &[N], n: &N) -> usize {
  all.iter().position(|m| m == n).unwrap_or_else(|| fail("a child node nobody made"))
}

fn read(all: &[N], a: &A) -> C {
  match a.content() {
    NodeContent::Leaf(l) => C::Leaf(l.kind(), *l.value()),
    NodeContent::Branch(b) => C::Branch(b.action(), b.nodes().map(|n| num(all, &n)).collect()),
  }
}

fn same(a: &[C], b: &[C]) -> bool {
  a.len() == b.len() && a.iter().all(|x| b.contains(x))
}

/// Result as numbers and contents.
struct Seen {
  changed: Option<bool>,
  alts: Option<Vec<C>>,
}

struct Judge<'a> {
  progs: &'a [Vec<Op>],
  seen: Vec<Vec<Seen>>,
  base: Vec<C>,
  last: Vec<Vec<C>>,
}

impl Judge<'_> {
  fn order(&self, at: &mut [usize], st: &[Vec<C>]) -> bool {
    let mut left = false;
    for t in 0..self.progs.len() {
      let i = at[t];
      if i == self.progs[t].len() {
        continue;
      }
      left = true;
      let mut st = st.to_vec();
      let mut put = |n: usize, cs: &[C]| {
        let mut grew = false;
        for c in cs {
          if !st[n].contains(c) {
            st[n].push(c.clone());
            grew = true;
          }
        }
        grew
      };
      let seen = &self.seen[t][i];
      let ok = match self.progs[t][i] {
        Op::Put(n, k) => seen.changed == Some(put(n, &[C::Leaf(k, 0)])),
        Op::AddAlt(n, a) => seen.changed == Some(put(n, &[self.base[a].clone()])),
        Op::AddAll(n, m) => {
          let cs = put_source(self, &st, m);
          let mut grew = false;
          for c in cs {
            if !st[n].contains(&c) {
              st[n].push(c);
              grew = true;
            }
          }
          seen.changed == Some(grew)
        }
        Op::Alts(n) => same(seen.alts.as_ref().unwrap(), &st[n]),
        _ => true,
      };
      if ok {
        at[t] += 1;
        let r = self.order(at, &st);
        at[t] -= 1;
        if r {
          return true;
        }
      }
    }
    !left && st.iter().zip(&self.last).all(|(a, b)| same(a, b))
  }
}

fn put_source(_: &Judge, st: &[Vec<C>], m: usize) -> Vec<C> {
  st[m].clone()
}

fn menu(n: usize) -> Op {
  match pick(n) {
    0 => Op::Put(0, 2),
    1 => Op::AddAll(0, 1),
    2 => Op::Alts(0),
    3 => Op::Put(1, 2),
    4 => Op::Node,
    5 => Op::LeafNode(2),
    6 => Op::AddAll(1, 0),
    7 => Op::BranchNode(2, 1),
    8 => Op::LazyNode(2),
    9 => Op::LeafAlt(2),
    10 => Op::BranchAlt(2, 1),
    11 => Op::AddAlt(1, 0),
    12 => Op::Content(1),
    _ => Op::Alts(1),
  }
}

fn once(progs: &[Vec<Op>]) {
  let o: O = TreeOwner::new();
  let h = o.handle();
  let n0 = h.make_leaf_node(0, 0);
  let n1 = h.make_branch_node(1, vec![n0.clone()]);
  let a0 = n0.alts().next().unwrap();
  let a1 = n1.alts().next().unwrap();
  let base = vec![C::Leaf(0, 0), C::Branch(1, vec![0])];
  let s = Shared {
    h: h.clone(),
    nodes: vec![n0, n1],
    alts: vec![a0, a1],
    progs: progs.to_vec(),
    results: progs.iter().map(|_| UnsafeCell::new(Vec::new())).collect(),
    started: AtomicUsize::new(0),
  };
  let p = &s as *const Shared as usize as u64;
  for i in 0..progs.len() {
    spawn(body, p | i as u64);
  }
  join_all();
  // everything made, in no particular order
  let mut nodes = s.nodes.clone();
  let mut alts = s.alts.clone();
  let results: Vec<&Vec<Res>> = s.results.iter().map(|r| unsafe { &*r.get() }).collect();
  for (t, r) in results.iter().enumerate() {
    check!(r.len() == progs[t].len(), "a thread did not finish");
    for (op, r) in progs[t].iter().zip(r.iter()) {
      if let Res::Node(n) = r {
        check!(!nodes.contains(n), "two nodes made by threads are the same");
        nodes.push(n.clone());
        if let Op::LazyNode(_) = op {
          let a = n.alts().next().unwrap_or_else(|| fail("a node lost its alternative"));
          match a.content() {
            NodeContent::Branch(b) => {
              for m in b.nodes() {
                check!(!nodes.contains(&m), "two nodes made by threads are the same");
                nodes.push(m);
              }
            }
            _ => fail("a branch became a leaf"),
          };
        }
      }
    }
  }
  let mut seen = Vec::new();
  for (t, r) in results.iter().enumerate() {
    let mut v = Vec::new();
    for (op, r) in progs[t].iter().zip(r.iter()) {
      let mut x = Seen { changed: None, alts: None };
      match (r, *op) {
        (Res::Node(n), op) => {
          let mut has: Vec<A> = n.alts().collect();
          let cs: Vec<C> = has.iter().map(|a| read(&nodes, a)).collect();
          let fine = match op {
            Op::Node => cs.is_empty(),
            Op::LeafNode(k) => cs == [C::Leaf(k, 0)],
            Op::BranchNode(k, m) => cs == [C::Branch(k, vec![m])],
            Op::LazyNode(k) => match &cs[..] {
              [C::Branch(l, m)] => {
                *l == k && m.len() == 1 && {
                  let inner: Vec<C> = nodes[m[0]].alts().map(|a| read(&nodes, &a)).collect();
                  inner == [C::Leaf(0, 0)]
                }
              }
              _ => false,
            },
            _ => false,
          };
          check!(fine, "a node made by a thread holds something else");
          alts.append(&mut has);
        }
        (Res::Alt(a), op) => {
          let want = match op {
            Op::LeafAlt(k) => C::Leaf(k, 0),
            Op::BranchAlt(k, m) => C::Branch(k, vec![m]),
            _ => fail("?"),
          };
          check!(read(&nodes, a) == want, "an alternative made by a thread holds something else");
          alts.push(a.clone());
        }
        (Res::Put(a, c), Op::Put(_, k)) => {
          check!(read(&nodes, a) == C::Leaf(k, 0), "an alternative made by a thread holds something else");
          alts.push(a.clone());
          x.changed = Some(*c);
        }
        (Res::Changed(c), _) => x.changed = Some(*c),
        (Res::Alts(a), _) => {
          x.alts = Some(a.iter().map(|a| read(&nodes, a)).collect());
          alts.extend(a.iter().cloned());
        }
        (Res::Read(k, v), Op::Content(a)) => {
          check!((*k, *v) == if a == 0 { (0, 0) } else { (1, 101) }, "an alternative reads back differently");
        }
        _ => fail("?"),
      }
      v.push(x);
    }
    seen.push(v);
  }
  let mut last = Vec::new();
  for n in &s.nodes {
    let a: Vec<A> = n.alts().collect();
    last.push(a.iter().map(|a| read(&nodes, a)).collect::<Vec<C>>());
    alts.extend(a);
  }
  let cs: Vec<C> = alts.iter().map(|a| read(&nodes, a)).collect();
  for i in 0..alts.len() {
    for j in 0..i {
      check!((alts[i] == alts[j]) == (cs[i] == cs[j]), "alternatives are shared exactly when equal");
    }
  }
  let j = Judge { progs, seen, base: base.clone(), last };
  let start: Vec<Vec<C>> = vec![vec![base[0].clone()], vec![base[1].clone()]];
  check!(j.order(&mut vec![0; progs.len()], &start), "no order of the operations explains what the threads saw and left");
  cover("finished");
}

fn threads(progs: Vec<Vec<Op>>) {
  // natively the schedule is left to the system: try often
  for _ in 0..if symbolic() { 1 } else { 400 } {
    once(&progs);
  }
}

/// `m` operations to choose from, ordered: swapping threads changes nothing.
fn programs(threads: usize, ops: usize, m: usize) -> Vec<Vec<Op>> {
  (0..threads).map(|_| (0..ops).map(|_| menu(m)).collect()).collect()
}

entries! {
  pairs => threads(programs(2, 1, 14));
  two2 => threads(vec![vec![menu(6), menu(6)], vec![menu(6)]]);
  three => threads(programs(3, 1, 6));
  pairs3 => threads(programs(2, 1, 14));
  four => threads(programs(2, 2, 6));
  three6 => threads(programs(3, 1, 6));
  three14 => threads(programs(3, 1, 14));
}
