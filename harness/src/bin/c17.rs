//! C17: reading buffer ranges.  C18: text positions.
use bongo::utils::buffer::{BufferRange, BufferRangeKey};
use rt::*;

/// Any character whose UTF-8 form has `len` bytes.
fn char_of(len: usize) -> char {
  let (lo, hi) = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)][len - 1];
  let c = range(lo, hi) as u32;
  if len == 3 {
    assume(c < 0xd800 || c > 0xdfff);
  }
  unsafe { char::from_u32_unchecked(c) }
}

struct Text {
  chars: Vec<char>,
  lens: Vec<usize>,
  text: String,
}

impl Text {
  fn any(n: (usize, usize), lens: usize) -> Text {
    let n = pick_in(n.0, n.1);
    let lens: Vec<usize> = (0..n).map(|_| pick_in(1, lens)).collect();
    let chars: Vec<char> = lens.iter().map(|l| char_of(*l)).collect();
    let text: String = chars.iter().collect();
    Text { chars, lens, text }
  }

  fn bytes(&self, from: usize, to: usize) -> usize {
    self.lens[from..to].iter().sum()
  }
}

fn same_text(s: &str, want: &[char]) -> bool {
  let mut it = s.chars();
  want.iter().all(|w| it.next() == Some(*w)) && it.next().is_none()
}

/// A range and the characters it should hold.
#[derive(Clone)]
struct R {
  r: BufferRange,
  from: usize,
  to: usize,
}

fn verify(t: &Text, x: &R, msg: &'static str) {
  let n = t.bytes(x.from, x.to);
  check!(x.r.byte_len() == n && x.r.as_str().len() == n, msg);
  check!(x.r.empty() == (x.from == x.to), msg);
  check!(same_text(x.r.as_str(), &t.chars[x.from..x.to]), msg);
}

fn reads(n: (usize, usize), lens: usize, ops: usize) {
  let t = Text::any(n, lens);
  let n = t.chars.len();
  let mut pool = vec![R { r: BufferRange::new("name", &t.text), from: 0, to: n }];
  for _ in 0..ops {
    let k = pick(pool.len());
    let R { from, to, .. } = pool[k].clone();
    match pick(5) {
      0 => {
        let c = pool[k].r.read_char_mut();
        if from < to {
          check!(c == Some(t.chars[from]), "read_char_mut: wrong character");
          pool[k].from += 1;
        } else {
          check!(c.is_none(), "read_char_mut: a character after the end");
          cover("read at the end");
        }
      }
      1 => match pool[k].r.read_char() {
        None => check!(from == to, "read_char: no character"),
        Some((c, r)) => {
          check!(from < to, "read_char: a character after the end");
          check!(c == t.chars[from], "read_char: wrong character");
          pool.push(R { r, from: from + 1, to });
        }
      },
      2 => {
        let m = pick(n + 2);
        let s = pool[k].r.advance_n_mut(m);
        if m <= to - from {
          check!(s.map_or(false, |s| same_text(s, &t.chars[from..from + m])), "advance_n_mut: wrong text");
          pool[k].from += m;
        } else {
          check!(s.is_none(), "advance_n_mut: advanced past the end");
          cover("advanced too far");
        }
      }
      3 => {
        let m = pick(n + 2);
        match pool[k].r.advance_n(m) {
          None => check!(m > to - from, "advance_n: refused"),
          Some((s, r)) => {
            check!(m <= to - from, "advance_n: advanced past the end");
            check!(same_text(s, &t.chars[from..from + m]), "advance_n: wrong text");
            pool.push(R { r, from: from + m, to });
          }
        }
      }
      _ => {
        let s = pick(pool.len());
        let (sf, st) = (pool[s].from, pool[s].to);
        if st == to && sf >= from {
          let r = pool[k].r.remove_suffix(&pool[s].r);
          pool.push(R { r, from, to: sf });
          if to < n {
            cover("suffix of a shortened range");
          }
        }
      }
    }
  }
  for x in &pool {
    verify(&t, x, "a range holds the wrong text");
    observe(x.r.byte_len() as u64);
  }
}

/// Advancing by any number at all.
fn by_any(n: (usize, usize), lens: usize) {
  let t = Text::any(n, lens);
  let n = t.chars.len();
  let m = range(0, u64::MAX) as usize;
  let from = pick(n + 1);
  let mut r = BufferRange::new("name", &t.text);
  check!(r.advance_n_mut(from).is_some(), "advance_n_mut: refused");
  let mut copy = r.clone();
  let (a, b) = (r.advance_n(m), copy.advance_n_mut(m));
  if m <= n - from {
    let m = concretize(m as u64) as usize;
    let want = &t.chars[from..from + m];
    check!(b.map_or(false, |s| same_text(s, want)), "advance_n_mut: wrong text");
    match a {
      None => fail("advance_n: refused"),
      Some((s, rest)) => {
        check!(same_text(s, want), "advance_n: wrong text");
        verify(&t, &R { r: rest, from: from + m, to: n }, "advance_n: wrong rest");
      }
    }
    verify(&t, &R { r: copy, from: from + m, to: n }, "advance_n_mut: wrong rest");
    cover("advanced");
  } else {
    check!(a.is_none() && b.is_none(), "advanced past the end");
    verify(&t, &R { r: copy, from, to: n }, "a refused advance_n_mut changed the range");
    cover("refused");
  }
  verify(&t, &R { r, from, to: n }, "advance_n changed the range");
  observe(m as u64);
}

fn keys(n: usize, lens: usize) {
  let (a, b) = (Text::any((0, n), lens), Text::any((0, n), lens));
  let ra = BufferRange::new("one", &a.text);
  // keys see only their own text, wherever it lies
  let rb = if pick(2) == 0 {
    let mut long = String::from("é\n");
    long.push_str(&b.text);
    let mut rb = BufferRange::new("two", &long);
    rb.advance_n_mut(2);
    rb
  } else {
    BufferRange::new("one", &b.text)
  };
  let (ka, kb) = (BufferRangeKey::verif_new(ra), BufferRangeKey::verif_new(rb));
  check!(same_text(ka.as_str(), &a.chars) && same_text(kb.as_str(), &b.chars), "a key's text");
  // UTF-8 orders like the characters
  let mut want = std::cmp::Ordering::Equal;
  for i in 0..a.chars.len().max(b.chars.len()) {
    let (x, y) = (a.chars.get(i), b.chars.get(i));
    if x != y {
      want = x.cmp(&y);
      break;
    }
  }
  check!(ka.cmp(&kb) == want && kb.cmp(&ka) == want.reverse(), "the order of keys is not that of their text");
  check!((ka == kb) == (want == std::cmp::Ordering::Equal), "the equality of keys is not that of their text");
  check!(ka.partial_cmp(&kb) == Some(want), "the partial order of keys");
  check!(ka.clone() == ka, "a cloned key differs");
  cover(if want == std::cmp::Ordering::Equal { "equal" } else { "different" });
}

/// Classes of characters as grapheme segmentation (and line splitting) sees them.
#[derive(Clone, Copy, PartialEq)]
enum Class {
  Lf,
  Cr,
  Control,
  Other,
  Extend,
  Zwj,
  Flag,
  Pict,
  L,
  V,
  Prepend,
  Spacing,
}
use Class::*;

/// Class, range of characters, bytes of each.
const KINDS: [(Class, u32, u32, usize); 15] = [
  (Lf, 0x0a, 0x0a, 1),
  (Cr, 0x0d, 0x0d, 1),
  (Other, 0x20, 0x7e, 1),
  (Extend, 0x300, 0x36f, 2),
  (Other, 0x3041, 0x307f, 3),
  (Zwj, 0x200d, 0x200d, 3),
  (Pict, 0x1f600, 0x1f64f, 4),
  (Flag, 0x1f1e6, 0x1f1ff, 4),
  (Control, 0x0b, 0x0c, 1),
  (Control, 0x2028, 0x2029, 3),
  (Control, 0x80, 0x9f, 2),
  (L, 0x1100, 0x115f, 3),
  (V, 0x1160, 0x117f, 3),
  (Prepend, 0x600, 0x605, 2),
  (Spacing, 0x903, 0x903, 3),
];

/// Does a cluster begin at i (counted from the beginning of the line)?
fn begins(c: &[Class], i: usize) -> bool {
  if i == 0 {
    return true;
  }
  let (a, b) = (c[i - 1], c[i]);
  if matches!(a, Control | Lf | Cr) || matches!(b, Control | Lf | Cr) {
    return true;
  }
  if a == L && matches!(b, L | V) || a == V && b == V {
    return false;
  }
  if matches!(b, Extend | Zwj | Spacing) || a == Prepend {
    return false;
  }
  if a == Zwj && b == Pict {
    let mut k = i - 1;
    while k > 0 && c[k - 1] == Extend {
      k -= 1;
    }
    if k > 0 && c[k - 1] == Pict {
      return false;
    }
  }
  if a == Flag && b == Flag {
    let n = c[..i].iter().rev().take_while(|x| **x == Flag).count();
    return n % 2 == 0;
  }
  true
}

fn positions(n: (usize, usize), kinds: usize) {
  let n = pick_in(n.0, n.1);
  let mut classes = Vec::new();
  let mut lens = Vec::new();
  let mut text = String::new();
  for _ in 0..n {
    let (c, lo, hi, len) = KINDS[pick(kinds)];
    classes.push(c);
    lens.push(len);
    text.push(unsafe { char::from_u32_unchecked(range(lo as u64, hi as u64) as u32) });
  }
  // lines as character ranges without their terminators
  let mut lines = Vec::new();
  let mut start = 0;
  let mut i = 0;
  while i < n {
    let mut next = i + 1;
    if classes[i] == Cr && next < n && classes[next] == Lf {
      next += 1;
    }
    if matches!(classes[i], Cr | Lf) {
      lines.push((start, i, next));
      start = next;
      if next == i + 2 {
        cover("CR LF");
      }
    }
    i = next;
  }
  lines.push((start, n, n));
  let all = BufferRange::new("name", &text);
  let from = pick(n + 1);
  let to = pick_in(from, n);
  let mut r = all.clone();
  check!(r.advance_n_mut(from).is_some(), "advancing failed");
  let mut suffix = all.clone();
  check!(suffix.advance_n_mut(to).is_some(), "advancing failed");
  let r = r.remove_suffix(&suffix);
  for (p, at) in [(r.start_pos(), from), (r.end_pos(), to)] {
    let (line, column, offset) = p.verif_parts();
    check!(offset == lens[..at].iter().sum::<usize>(), "wrong byte offset");
    let l = lines.iter().filter(|l| l.2 > l.1 && l.2 <= at).count();
    check!(line == l, "wrong line");
    let (s, e, _) = lines[l];
    let col = (s..e.min(at)).filter(|k| begins(&classes[s..e], k - s)).count();
    check!(column == col, "wrong column");
    observe((line * 100 + column) as u64);
    if col > 1 && l > 0 {
      cover("second line");
    }
    if col < at.min(e).saturating_sub(s) {
      cover("cluster");
    }
  }
}

entries! {
  reads3 => reads((0, 3), 4, 2);
  reads2 => reads((0, 2), 4, 3);
  reads4 => reads((4, 4), 2, 2);
  readsbig => reads((0, 3), 4, 3);
  any3 => by_any((0, 3), 4);
  any5 => by_any((4, 5), 2);
  keys2 => keys(2, 4);
  keys3 => keys(3, 2);
  lines5 => positions((0, 5), 3);
  lines4 => positions((0, 4), 5);
  kinds3 => positions((0, 3), 15);
  pict5 => positions((5, 5), 8);
  lines6 => positions((6, 6), 4);
  kinds4 => positions((4, 4), 15);
}
