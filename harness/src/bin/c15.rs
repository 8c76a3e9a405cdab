//! C15: rendering a forest as a graph.
use bongo::parsers::tree::{Node, TreeOwner};
use rt::*;

type N<'a> = Node<'a, u8, u8, u8>;

/// A graph read from its dot text: vertices with labels, edges.
struct Dot<'s> {
  ids: Vec<&'s str>,
  labels: Vec<&'s str>,
  edges: Vec<(usize, usize)>,
}

fn label(s: &str) -> &str {
  let Some(i) = s.find("[label=\"") else { fail("a vertex without label") };
  let r = &s[i + 8..];
  match r.find('"') {
    Some(j) => &r[..j],
    None => fail("an unfinished label"),
  }
}

fn parse(s: &str) -> Dot<'_> {
  let mut lines = s.lines().map(|l| l.trim()).filter(|l| !l.is_empty());
  check!(lines.next().map_or(false, |l| l.starts_with("digraph") && l.ends_with('{')), "not a directed graph");
  let body: Vec<&str> = lines.collect();
  check!(body.last() == Some(&"}"), "the graph does not end");
  let mut d = Dot { ids: vec![], labels: vec![], edges: vec![] };
  let head = |l: &'_ str| l.find(|c: char| c == '[' || c == ';' || c == ' ').unwrap_or(l.len());
  for l in &body[..body.len() - 1] {
    if !l.contains(" -> ") {
      let id = &l[..head(l)];
      check!(!d.ids.contains(&id), "a vertex is listed twice");
      d.ids.push(id);
      d.labels.push(label(l));
    }
  }
  for l in &body[..body.len() - 1] {
    if let Some(i) = l.find(" -> ") {
      let from = &l[..i];
      let to = &l[i + 4..];
      let to = &to[..head(to)];
      let f = d.ids.iter().position(|x| *x == from);
      let t = d.ids.iter().position(|x| *x == to);
      match (f, t) {
        (Some(f), Some(t)) => d.edges.push((f, t)),
        _ => fail("an edge to a vertex that is not listed"),
      }
    }
  }
  d
}

fn mult(e: &[(usize, usize)], x: (usize, usize)) -> usize {
  e.iter().filter(|y| **y == x).count()
}

/// Is there a renaming of the wanted vertices that gives the graph?
fn matches(labels: &[String], edges: &[(usize, usize)], d: &Dot, map: &mut Vec<usize>) -> bool {
  let k = map.len();
  if k == labels.len() {
    return true;
  }
  for c in 0..d.ids.len() {
    if map.contains(&c) || d.labels[c] != labels[k] {
      continue;
    }
    map.push(c);
    if (0..=k).all(|i| mult(edges, (i, k)) == mult(&d.edges, (map[i], c)) && mult(edges, (k, i)) == mult(&d.edges, (c, map[i])))
      && matches(labels, edges, d, map)
    {
      return true;
    }
    map.pop();
  }
  false
}

fn run(nodes: (usize, usize), alts: usize, children: usize, kinds: usize) {
  let o: TreeOwner<u8, u8, u8> = TreeOwner::new();
  let h = o.handle();
  let n = pick_in(nodes.0, nodes.1);
  let ns: Vec<N> = (0..n).map(|_| h.make_node()).collect();
  // alternatives as (label, children)
  let mut made: Vec<(String, Vec<usize>)> = Vec::new();
  let mut real = Vec::new();
  for _ in 0..pick(alts + 1) {
    let k = pick(kinds);
    if pick(2) == 0 {
      let v = k + 3;
      real.push(h.make_leaf_alt(k as u8, v as u8));
      made.push((format!("{}({})", k, v), vec![]));
    } else {
      let cs: Vec<usize> = (0..pick(children + 1)).map(|_| pick(n)).collect();
      real.push(h.make_branch_alt(k as u8, cs.iter().map(|c| ns[*c].clone()).collect::<Vec<_>>()));
      made.push((format!("{}", k), cs));
    }
  }
  let mut has = vec![vec![false; made.len()]; n];
  for i in 0..n {
    for a in 0..made.len() {
      if pick(2) == 1 {
        ns[i].add_alt(&real[a]);
        // equal contents are one alternative
        let first = made.iter().position(|m| *m == made[a]).unwrap();
        has[i][first] = true;
      }
    }
  }
  let root = pick(n);
  let text = ns[root].to_dot();
  let d = parse(&text);
  // vertices: nodes, then alternatives
  let mut seen_n = vec![false; n];
  let mut seen_a = vec![false; made.len()];
  let mut todo = vec![root];
  seen_n[root] = true;
  while let Some(i) = todo.pop() {
    for a in 0..made.len() {
      if has[i][a] && !seen_a[a] {
        seen_a[a] = true;
        for c in &made[a].1 {
          if !seen_n[*c] {
            seen_n[*c] = true;
            todo.push(*c);
          }
        }
      }
    }
  }
  let vn: Vec<usize> = (0..n).filter(|i| seen_n[*i]).collect();
  let va: Vec<usize> = (0..made.len()).filter(|i| seen_a[*i]).collect();
  let mut labels: Vec<String> = vn.iter().map(|_| String::new()).collect();
  labels.extend(va.iter().map(|a| made[*a].0.clone()));
  let mut edges = Vec::new();
  for (x, i) in vn.iter().enumerate() {
    for (y, a) in va.iter().enumerate() {
      if has[*i][*a] {
        edges.push((x, vn.len() + y));
      }
    }
  }
  for (y, a) in va.iter().enumerate() {
    for c in &made[*a].1 {
      let x = vn.iter().position(|i| i == c).unwrap();
      edges.push((vn.len() + y, x));
    }
  }
  check!(d.ids.len() == labels.len(), "the wrong number of vertices");
  check!(d.edges.len() == edges.len(), "the wrong number of edges");
  check!(matches(&labels, &edges, &d, &mut Vec::new()), "the graph is not the forest");
  if edges.len() > labels.len() {
    cover("cyclic or shared");
  }
  if labels.len() == 1 {
    cover("root alone");
  }
  observe(edges.len() as u64);
}

/// Shows as any text.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Text(String);
impl std::fmt::Debug for Text {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str(&self.0)
  }
}

fn text(min: usize, max: usize) -> Text {
  let mut s = String::new();
  for _ in 0..pick_in(min, max) {
    let c = byte(0x1f, 0x7e);
    s.push(if c == 0x1f { '\n' } else { c as char });
  }
  Text(s)
}

/// The quoted text that s starts with, and what comes after it.
fn unquote(s: &str) -> (String, &str) {
  let mut out = String::new();
  let mut it = s.char_indices();
  check!(matches!(it.next(), Some((_, '"'))), "a label that is not quoted");
  loop {
    let Some((i, c)) = it.next() else { fail("an unfinished label") };
    match c {
      '"' => return (out, &s[i + 1..]),
      '\\' => match it.next() {
        Some((_, 'n')) => out.push('\n'),
        Some((_, c)) if !c.is_ascii_alphanumeric() => out.push(c),
        _ => fail("an escape nobody needs"),
      },
      '\n' => fail("a label that goes on in another line"),
      c => out.push(c),
    }
  }
}

/// Labels of any text are shown so that they can be read back.
fn labels(min: usize, max: usize) {
  let o: TreeOwner<Text, Text, Text> = TreeOwner::new();
  let h = o.handle();
  let n = h.make_node();
  let (a, want) = if pick(2) == 0 {
    let (k, v) = (text(min, max), text(min, max));
    let want = format!("{}({})", k.0, v.0);
    (h.make_leaf_alt(k, v), want)
  } else {
    let k = text(min, max + 1);
    let want = k.0.clone();
    (h.make_branch_alt(k, Vec::new()), want)
  };
  n.add_alt(&a);
  let s = n.to_dot();
  let mut found = 0;
  for l in s.lines() {
    let Some(i) = l.find("[label=") else { continue };
    if l[..i].contains(" -> ") {
      continue;
    }
    let (t, rest) = unquote(&l[i + 7..]);
    check!(rest.starts_with(']'), "something after the label");
    if found == 0 && t.is_empty() {
      // the node
      found = 1;
      continue;
    }
    check!(found == 1 && t == want, "another label");
    found = 2;
  }
  check!(found == 2, "a vertex is missing");
  cover("labelled");
  observe(want.len() as u64);
}

entries! {
  labels1 => labels(0, 1);
  two => run((1, 2), 2, 2, 2);
  three => run((3, 3), 2, 1, 2);
  alts3 => run((2, 2), 3, 1, 2);
  big => run((3, 3), 2, 2, 2);
  big3 => run((2, 2), 3, 2, 1);
}
