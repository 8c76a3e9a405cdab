//! C21: mergeable maps.
use bongo::utils::mergeables::{Mergable, MergableMap, Value, ValueCow, ValueRef};
use bongo::utils::WasChanged;
use rt::*;
use std::cmp::Ordering;

/// Ordered by `k` alone, so that keeping the original key can be seen.
#[derive(Clone, Debug)]
struct K {
  k: u8,
  tag: u8,
}
impl PartialEq for K {
  fn eq(&self, o: &Self) -> bool {
    self.k == o.k
  }
}
impl Eq for K {}
impl PartialOrd for K {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for K {
  fn cmp(&self, o: &Self) -> Ordering {
    self.k.cmp(&o.k)
  }
}

/// Merging keeps a record and reports what the other value says.
#[derive(Clone, Debug, PartialEq, Eq)]
struct V {
  log: Vec<u8>,
  report: bool,
}
impl Mergable for V {
  fn merge(&mut self, o: &Self) -> WasChanged {
    self.log.extend_from_slice(&o.log);
    WasChanged::from_changed(o.report)
  }
}

fn ch(w: WasChanged) -> bool {
  matches!(w, WasChanged::Changed)
}

fn run(ops: usize) {
  let mut m: MergableMap<K, V> = if pick(2) == 0 { MergableMap::new() } else { MergableMap::default() };
  let mut r: Vec<(K, V)> = Vec::new();
  for i in 0..ops {
    let k = K { k: byte(0, 255), tag: i as u8 };
    let v = V { log: vec![byte(0, 255)], report: flag() };
    let val = Value::verif_new(k.clone(), v.clone());
    check!(val.key().tag == k.tag && *val.value() == v, "Value: wrong parts");
    let how = pick(5);
    let c = match how {
      0 => m.insert(val),
      1 => insert_static(&mut m, ValueCow::from(val)),
      2 => insert_ref(&mut m, &val),
      3 => {
        let vr = ValueRef::from(&val);
        insert_cow(&mut m, vr.into())
      }
      _ => {
        let mut val2 = Value::verif_new(k.clone(), V { log: vec![], report: false });
        *val2.value_mut() = v.clone();
        insert_cow(&mut m, (&val2).into())
      }
    };
    let want = match r.iter_mut().find(|p| p.0 == k) {
      Some(p) => {
        p.1.log.extend_from_slice(&v.log);
        cover("merged");
        v.report
      }
      None => {
        r.push((k, v));
        true
      }
    };
    check!(ch(c) == want, "wrong change report");
    observe(ch(c) as u64);
  }
  // any key at all, and all the inserted ones
  let q = K { k: byte(0, 255), tag: 200 };
  look(&m, &r, &q);
  for p in &r {
    look(&m, &r, &p.0);
  }
}

fn insert_static(m: &mut MergableMap<K, V>, v: ValueCow<'_, K, V>) -> WasChanged {
  insert_cow(m, v)
}
// the signature ties the value's lifetime to the borrow of the map, hence the
// detour over a raw pointer, which is only used while the map is alive
fn insert_cow(m: &mut MergableMap<K, V>, v: ValueCow<'_, K, V>) -> WasChanged {
  let p: *mut MergableMap<K, V> = m;
  unsafe { (*p).insert_cow(v) }
}
fn insert_ref(m: &mut MergableMap<K, V>, v: &Value<K, V>) -> WasChanged {
  let p: *mut MergableMap<K, V> = m;
  unsafe { (*p).insert_cow(v) }
}

fn look(m: &MergableMap<K, V>, r: &[(K, V)], q: &K) {
  match (m.get_entry(q), r.iter().find(|p| p.0 == *q)) {
    (None, None) => cover("miss"),
    (Some(e), Some(p)) => {
      check!(e.key().k == p.0.k, "look-up: wrong entry");
      check!(e.key().tag == p.0.tag, "look-up: the original key was replaced");
      check!(e.value().log == p.1.log, "look-up: wrong value");
      let v = e.to_value();
      check!(v.key().tag == p.0.tag && v.value().log == p.1.log, "to_value: wrong parts");
      cover("hit");
    }
    (Some(_), None) => fail("look-up: an entry for a key never inserted"),
    (None, Some(_)) => fail("look-up: entry lost"),
  }
}

fn convert() {
  let k = K { k: byte(0, 255), tag: byte(0, 255) };
  let v = V { log: vec![byte(0, 255)], report: flag() };
  let val = Value::verif_new(k.clone(), v.clone());
  let same = |k2: &K, v2: &V| k2.k == k.k && k2.tag == k.tag && *v2 == v;
  let vr: ValueRef<K, V> = (&val).into();
  check!(same(vr.key(), vr.value()), "ValueRef: wrong parts");
  let vr2 = vr.clone();
  check!(same(vr2.key(), vr2.value()), "ValueRef clone: wrong parts");
  let o = vr.to_value();
  check!(same(o.key(), o.value()), "ValueRef::to_value: wrong parts");
  let b: ValueCow<K, V> = match pick(2) {
    0 => (&val).into(),
    _ => vr.into(),
  };
  parts(&b, &same);
  let w: ValueCow<K, V> = o.into();
  parts(&w, &same);
  let x = if pick(2) == 0 { b.into_owned() } else { w.into_owned() };
  check!(same(x.key(), x.value()), "into_owned: wrong parts");
  observe(x.key().k as u64);
}

fn parts<'a>(c: &'a ValueCow<'a, K, V>, same: &dyn Fn(&K, &V) -> bool) {
  check!(same(c.key(), c.value()), "ValueCow: wrong parts");
  let r = c.as_ref();
  check!(same(r.key(), r.value()), "ValueCow::as_ref: wrong parts");
  let o = c.to_owned();
  check!(same(o.key(), o.value()), "ValueCow::to_owned: wrong parts");
  check!(same(c.clone().into_owned().key(), c.value()), "ValueCow::clone: wrong parts");
}

entries! {
  ops3 => run(3);
  ops4 => run(4);
  conv => convert();
}
