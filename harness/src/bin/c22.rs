//! C22: typed maps.
use bongo::utils::type_map::{TypeKey, TypeMap};
use rt::*;

/// kind, key, value
#[derive(Default)]
struct Ref(Vec<(u8, u8, u8)>);

impl Ref {
  fn put(&mut self, t: u8, k: u8, v: u8) {
    match self.0.iter_mut().find(|e| e.0 == t && e.1 == k) {
      Some(e) => e.2 = v,
      None => self.0.push((t, k, v)),
    }
  }
  fn get(&self, t: u8, k: u8) -> Option<u8> {
    self.0.iter().find(|e| e.0 == t && e.1 == k).map(|e| e.2)
  }
}

enum Do {
  Insert(u8),
  Get,
  GetMut(u8),
}

/// One operation with a key of kind t.  The key types have one name, and the
/// first two of them one layout and one type of value.
fn act(m: &mut TypeMap, t: u8, k: u8, what: Do) -> Option<u8> {
  macro_rules! with_key {
    (($($f:ty),*), $v:ty, $key:expr, $to:expr, $from:expr) => {{
      #[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
      struct Key($($f),*);
      impl TypeKey for Key {
        type ValueType = $v;
      }
      let key: fn(u8) -> Key = $key;
      let to: fn(u8) -> $v = $to;
      let from: fn(&mut $v) -> &mut u8 = $from;
      match what {
        Do::Insert(v) => {
          m.insert(key(k), to(v));
          None
        }
        Do::Get => m.get(&key(k)).map(|v| *from(&mut v.clone())),
        Do::GetMut(v) => m.get_mut(&key(k)).map(|p| std::mem::replace(from(p), v)),
      }
    }};
  }
  match t {
    0 => with_key!((u8), u8, |k| Key(k), |v| v, |v| v),
    1 => with_key!((u8), u8, |k| Key(k), |v| v, |v| v),
    _ => with_key!((u8, u8), Vec<u8>, |k| Key(7, k), |v| vec![v], |v| &mut v[0]),
  }
}

fn insert(m: &mut TypeMap, t: u8, k: u8, v: u8) {
  act(m, t, k, Do::Insert(v));
}

fn get(m: &mut TypeMap, t: u8, k: u8) -> Option<u8> {
  act(m, t, k, Do::Get)
}

fn run(n: usize) {
  let mut m = [TypeMap::new(), TypeMap::new()];
  let mut r = [Ref::default(), Ref::default()];
  for _ in 0..n {
    match pick(4) {
      0 | 1 => {
        let w = pick(2);
        let t = pick(3) as u8;
        let (k, v) = (byte(0, 255), byte(0, 255));
        insert(&mut m[w], t, k, v);
        r[w].put(t, k, v);
      }
      2 => {
        let w = pick(2);
        let t = pick(3) as u8;
        let (k, v) = (byte(0, 255), byte(0, 255));
        let want = r[w].get(t, k);
        match act(&mut m[w], t, k, Do::GetMut(v)) {
          Some(old) => {
            check!(want == Some(old), "get_mut: wrong value");
            r[w].put(t, k, v);
            cover("changed in place");
          }
          None => check!(want.is_none(), "get_mut: entry lost"),
        }
      }
      _ => {
        let w = pick(2);
        let [a, b] = &mut m;
        let [ra, rb] = &mut r;
        if w == 0 {
          a.merge(b);
          for e in rb.0.drain(..) {
            ra.put(e.0, e.1, e.2);
          }
        } else {
          b.merge(a);
          for e in ra.0.drain(..) {
            rb.put(e.0, e.1, e.2);
          }
        }
        cover("merged");
      }
    }
  }
  for w in 0..2 {
    for t in 0..3 {
      let k = byte(0, 255);
      let got = get(&mut m[w], t, k);
      check!(got == r[w].get(t, k), "get: wrong answer");
      if got.is_some() {
        cover("hit");
      }
      observe(got.map_or(300, |x| x as u64));
    }
    for e in &r[w].0 {
      check!(get(&mut m[w], e.0, e.1) == Some(e.2), "get: entry lost or wrong");
    }
  }
}

entries! {
  ops2 => run(2);
  ops3 => run(3);
  ops4 => run(4);
}
