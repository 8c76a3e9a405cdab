//! C16: token streams.
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use rt::*;

/// Yields tokens, and promises some of them.
struct Source {
  tokens: std::vec::IntoIter<(u8, u8)>,
  low: usize,
  high: Option<usize>,
}

impl Iterator for Source {
  type Item = Token<u8, u8>;
  fn next(&mut self) -> Option<Token<u8, u8>> {
    self.low = self.low.saturating_sub(1);
    self.high = self.high.map(|h| h.saturating_sub(1));
    self.tokens.next().map(|t| Token::new(t.0, t.1))
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    (self.low, self.high)
  }
}

fn run(tokens: usize, ops: usize) {
  let n = pick(tokens + 1);
  let ts: Vec<(u8, u8)> = (0..n).map(|_| (byte(0, 255), byte(0, 255))).collect();
  // any promise that an iterator over n tokens may make
  let low = pick(n + 1);
  let high = match pick(3) {
    0 => None,
    k => Some(n + k - 1),
  };
  let s = VecTokenStream::from_into_iter(Source { tokens: ts.clone().into_iter(), low, high });
  let mut streams = vec![(s, 0usize)];
  for _ in 0..ops {
    let i = pick(streams.len());
    if streams.len() < 3 && pick(2) == 1 {
      let c = (streams[i].0.clone(), streams[i].1);
      streams.push(c);
      continue;
    }
    let r = streams[i].0.next();
    let pos = streams[i].1;
    match r {
      Some((t, rest)) => {
        check!(pos < n, "a token after the end");
        let (k, v) = t.verif_parts();
        check!(*k == ts[pos].0 && *v == ts[pos].1, "the wrong token");
        // reading leaves the stream itself alone
        let again = match streams[i].0.next() {
          Some((t, _)) => t,
          None => fail("a second read of the same stream found nothing"),
        };
        let (k, v) = again.verif_parts();
        check!(*k == ts[pos].0 && *v == ts[pos].1, "a second read of the same stream differs");
        streams[i] = (rest, pos + 1);
        cover("token");
        observe(pos as u64);
      }
      None => {
        check!(pos == n, "the stream ends early");
        cover("end");
        observe(1000);
      }
    }
  }
}

entries! {
  t3 => run(3, 5);
  t4 => run(4, 7);
}
