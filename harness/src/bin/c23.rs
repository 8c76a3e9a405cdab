//! C23: names are independent strings.
use bongo::utils::Name;
use rt::*;

fn text(max: usize) -> String {
  let n = pick(max + 1);
  let mut s = String::new();
  for _ in 0..n {
    s.push(byte(0, 127) as char);
  }
  s
}

/// A character of any UTF-8 length.
fn any_char() -> char {
  match pick(4) {
    0 => byte(0, 127) as char,
    1 => char::from_u32(range(0x80, 0x7ff) as u32).unwrap(),
    2 => {
      // on either side of the surrogates
      let c = if pick(2) == 0 { range(0x800, 0xd7ff) } else { range(0xe000, 0xffff) };
      char::from_u32(c as u32).unwrap()
    }
    _ => char::from_u32(range(0x10000, 0x10ffff) as u32).unwrap(),
  }
}

fn any_text(max: usize) -> String {
  let mut s = String::new();
  for _ in 0..pick(max + 1) {
    s.push(any_char());
  }
  s
}

/// Keeps what is hashed.
#[derive(Default)]
struct Keep(Vec<u8>);
impl std::hash::Hasher for Keep {
  fn write(&mut self, b: &[u8]) {
    self.0.extend_from_slice(b);
  }
  fn finish(&self) -> u64 {
    0
  }
}

fn hashed(n: &Name) -> Vec<u8> {
  use std::hash::Hash;
  let mut k = Keep::default();
  n.hash(&mut k);
  k.0
}

/// Two names of any texts, made apart or one from the other.
fn pair(len: usize) {
  let t = any_text(len);
  let a = Name::new(&t);
  let (b, u) = match pick(3) {
    0 => (a.clone(), t.clone()),
    1 => {
      // changed and changed back
      let mut b = a.clone();
      b.make_mut().push('x');
      check!(b != a && b.str().len() == t.len() + 1, "the clone of a name does not change");
      b.make_mut().pop();
      (b, t.clone())
    }
    _ => {
      let u = any_text(len);
      (Name::new(u.as_str()), u)
    }
  };
  check!(a.str() == t && b.str() == u, "wrong text");
  check!((a == b) == (t == u) && (a != b) == (t != u), "equality differs from the texts'");
  check!(a.cmp(&b) == t.cmp(&u), "order differs from the texts'");
  check!((a < b) == (t < u) && (a <= b) == (t <= u), "order differs from the texts'");
  if a == b {
    check!(hashed(&a) == hashed(&b), "equal names hash differently");
    cover("equal");
  } else {
    cover("different");
  }
  observe(t.len() as u64);
}

fn check_all(names: &[Name], want: &[String]) {
  for (n, w) in names.iter().zip(want) {
    check!(n.str() == w.as_str(), "a name changed or has the wrong text");
    let r: &str = n.as_ref();
    check!(r == w.as_str(), "as_ref: wrong text");
  }
}

fn run(ops: usize, len: usize) {
  let t = text(len);
  let mut names = vec![Name::new(&t)];
  let mut want = vec![t];
  for _ in 0..ops {
    let i = pick(names.len());
    match pick(5) {
      0 => {
        names.push(names[i].clone());
        want.push(want[i].clone());
      }
      1 => {
        let c = byte(0, 127) as char;
        names[i].make_mut().push(c);
        want[i].push(c);
      }
      2 => {
        names[i].make_mut().clear();
        want[i].clear();
        cover("cleared");
      }
      3 => {
        let t = text(len);
        names.push(Name::new(t.as_str()));
        want.push(t);
      }
      _ => {
        // replaced by a clone of another (dropping the old one)
        let j = pick(names.len());
        names[i] = names[j].clone();
        want[i] = want[j].clone();
      }
    }
    check_all(&names, &want);
  }
  for i in 0..names.len() {
    for j in 0..names.len() {
      check!((names[i] == names[j]) == (want[i] == want[j]), "equality differs from the texts'");
      check!(names[i].cmp(&names[j]) == want[i].cmp(&want[j]), "order differs from the texts'");
      check!(names[i].partial_cmp(&names[j]) == Some(want[i].cmp(&want[j])), "partial order differs");
    }
  }
  observe(names.len() as u64);
}

fn show() {
  let t = any_text(2);
  let n = Name::new(&t);
  check!(format!("{}", n) == t, "displayed differently");
  check!(format!("{:?}", n) == t, "debug form differs from the text");
  observe(t.len() as u64);
}

entries! {
  ops2 => run(2, 2);
  ops3 => run(3, 1);
  ops4 => run(4, 1);
  shown => show();
  pair1 => pair(1);
  pair2 => pair(2);
}
