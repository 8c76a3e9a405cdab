//! C24: pretty-printing grammars.  C26: debug forms.
use bongo::grammar::{build, Elem, Grammar, ProdElement};
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::utils::fmt::{list_fmt, set_fmt, struct_fmt, tuple_fmt};
use bongo::utils::{Name, ToDoc};
use rt::gram::*;
use rt::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Tm(u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Nt(u8);

impl ToDoc for Tm {
  fn to_doc<'a, DA: pretty::DocAllocator<'a>>(&self, da: &'a DA) -> pretty::DocBuilder<'a, DA, ()>
  where
    DA::Doc: Clone,
  {
    da.text(["alpha", "beta", "gamma"][concretize(self.0 as u64) as usize])
  }
}

fn nt_name(i: u8) -> &'static str {
  ["nonterminalzero", "nonterminalone", "nonterminaltwo", "nonterminalthree", "nonterminalfour"][concretize(i as u64) as usize]
}

impl ToDoc for Nt {
  fn to_doc<'a, DA: pretty::DocAllocator<'a>>(&self, da: &'a DA) -> pretty::DocBuilder<'a, DA, ()>
  where
    DA::Doc: Clone,
  {
    da.text(nt_name(self.0))
  }
}

type PG = Grammar<Tm, Nt, u8, u8>;

fn grammar(r: &RGram) -> PG {
  let g = build(Nt(r.start), |gb| {
    // last rule first: the order of the heads counts
    for (i, prods) in r.rules.iter().enumerate().rev() {
      gb.add_rule(Nt(i as u8), |rb| {
        for p in prods {
          let v: Vec<ProdElement<Tm, Nt>> = p
            .elems
            .iter()
            .enumerate()
            .map(|(j, e)| {
              let el = if e.nt { Elem::NonTerm(Nt(e.id)) } else { Elem::Term(Tm(e.id)) };
              ProdElement::new(if e.named { Some(Name::new(NAMES[j])) } else { None }, el)
            })
            .collect();
          rb.add_prod_with_elems(p.ak, p.av, v);
        }
      });
    }
  });
  match g {
    Ok(g) => g,
    Err(_) => fail("a well-formed grammar was refused"),
  }
}

/// Words and signs of a text.
fn tokens(s: &str) -> Vec<String> {
  let mut v: Vec<String> = Vec::new();
  let mut word = false;
  for c in s.chars() {
    if c.is_ascii_alphanumeric() {
      if word {
        v.last_mut().unwrap().push(c);
      } else {
        v.push(c.to_string());
      }
      word = true;
    } else {
      word = false;
      if c != ' ' && c != '\n' {
        v.push(c.to_string());
      }
    }
  }
  v
}

fn expected(r: &RGram) -> String {
  let mut s = String::new();
  for (i, ps) in r.rules.iter().enumerate() {
    s.push_str(nt_name(i as u8));
    s.push_str(" =>");
    for (k, p) in ps.iter().enumerate() {
      if k > 0 {
        s.push_str(" |");
      }
      if p.elems.is_empty() {
        s.push_str(" ε");
      }
      for (j, e) in p.elems.iter().enumerate() {
        s.push(' ');
        if e.named {
          s.push_str(NAMES[j]);
          s.push(':');
        }
        if e.nt {
          s.push('<');
          s.push_str(nt_name(e.id));
          s.push('>');
        } else {
          s.push_str(["alpha", "beta", "gamma"][concretize(e.id as u64) as usize]);
        }
      }
    }
    s.push_str(" ;");
  }
  s
}

fn prettily(s: Shape, wrap: bool) {
  prettily_of(Some(RGram::split(&s, Keys::PerRule)), wrap)
}

fn prettily_of(r: Option<RGram>, wrap: bool) {
  let Some(r) = r else { return };
  if !r.well_formed() {
    return;
  }
  let g = grammar(&r);
  let (text, want) = if wrap {
    let Ok(w) = wrap_grammar_with_start(g) else { fail("wrapping failed") };
    (
      w.to_pretty(),
      format!("Start = <START>, Rules {{ <START> => start:<{}> <EOS> ; {} }},", nt_name(r.start), expected(&r)),
    )
  } else {
    (g.to_pretty(), format!("Start = {}, Rules {{ {} }},", nt_name(r.start), expected(&r)))
  };
  let (have, want) = (tokens(&text), tokens(&want));
  let n = have.len().min(want.len());
  check!(have[..n] == want[..n], "the pretty form differs");
  check!(have.len() == want.len(), "the pretty form is longer or shorter");
  if text.trim_end().contains('\n') {
    cover("several lines");
  }
  cover("printed");
  observe(text.len() as u64);
}

#[allow(dead_code)]
mod shown {
  use super::*;

  /// What std prints for the same data.
  #[derive(Debug)]
  pub struct Rule {
    pub head: Nt,
    pub prods: Vec<Prod>,
  }
  #[derive(Debug)]
  pub struct Prod {
    pub head: Nt,
    pub elems: Vec<El>,
  }
  pub struct El(pub Option<&'static str>, pub RElem);

  impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      if let Some(n) = self.0 {
        write!(f, "{}:", n)?;
      }
      if self.1.nt {
        write!(f, "<Nt({})>", self.1.id)
      } else {
        write!(f, "Tm({})", self.1.id)
      }
    }
  }
}

/// The symbols in the named list of a debug form.
fn listed(all: &[String], field: &str, kind: &str) -> Vec<u8> {
  let Some(at) = all.iter().position(|t| t == field) else { fail("the debug form of the grammar lacks a list of symbols") };
  check!(all[at + 1] == ":" && all[at + 2] == "[", "the debug form of the grammar: list");
  let mut v = Vec::new();
  let mut i = at + 3;
  while all[i] != "]" {
    check!(all[i] == kind && all[i + 1] == "(" && all[i + 3] == ")", "the debug form of the grammar: symbol");
    match all[i + 2].parse::<u8>() {
      Ok(x) => v.push(x),
      Err(_) => fail("the debug form of the grammar: number"),
    }
    i += 4;
  }
  v
}

fn debugged(s: Shape) {
  debugged_of(Some(RGram::split(&s, Keys::PerRule)))
}

fn debugged_of(r: Option<RGram>) {
  let Some(mut r) = r else { return };
  if !r.well_formed() {
    return;
  }
  for ps in r.rules.iter_mut() {
    for p in ps {
      for e in p.elems.iter_mut() {
        e.id = concretize(e.id as u64) as u8;
      }
    }
  }
  let g = grammar(&r);
  let want: Vec<shown::Rule> = r
    .rules
    .iter()
    .enumerate()
    .map(|(i, ps)| shown::Rule {
      head: Nt(i as u8),
      prods: ps
        .iter()
        .map(|p| shown::Prod {
          head: Nt(i as u8),
          elems: p.elems.iter().enumerate().map(|(j, e)| shown::El(if e.named { Some(NAMES[j]) } else { None }, *e)).collect(),
        })
        .collect(),
    })
    .collect();
  let plain = |s: String| -> Vec<String> { tokens(&s).into_iter().filter(|t| t != ",").collect() };
  let want = plain(format!("{:?}", want));
  let have = plain(format!("{:?}", g.rules().collect::<Vec<_>>()));
  check!(have == want, "the debug form of the rules differs");
  let alternate = flag();
  let all = plain(if alternate { format!("{:#?}", g) } else { format!("{:?}", g) });
  check!(all.windows(want.len()).any(|w| w == &want[..]), "the debug form of the grammar does not show its rules");
  // the lists of symbols, in any order, repeated or not
  let es = || r.rules.iter().flatten().flat_map(|p| p.elems.iter());
  let ts = listed(&all, "Terms", "Tm");
  check!(es().all(|e| e.nt || ts.contains(&e.id)), "the debug form of the grammar lacks a terminal");
  check!(ts.iter().all(|t| es().any(|e| !e.nt && e.id == *t)), "the debug form of the grammar has a terminal too many");
  let ns = listed(&all, "NonTerms", "Nt");
  check!(es().all(|e| !e.nt || ns.contains(&e.id)), "the debug form of the grammar lacks a nonterminal");
  check!(ns.iter().all(|t| (*t as usize) < r.rules.len()), "the debug form of the grammar has a nonterminal too many");
  cover("debugged");
  observe(want.len() as u64);
}

/// Entries: numbers below 100.
fn values(n: usize) -> Vec<u8> {
  (0..pick(n + 1)).map(|_| byte(0, 255)).collect()
}

fn helpers(n: usize) {
  let v = values(n);
  const KEYS: [&str; 4] = ["a", "bc", "d", "e"];
  let pairs: Vec<(&str, u8)> = v.iter().enumerate().map(|(i, x)| (KEYS[i], *x)).collect();
  let name = ["", "Name"][pick(2)];
  struct By<F>(F);
  impl<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Debug for By<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      (self.0)(f)
    }
  }
  let alternate = flag();
  let show = |d: &dyn std::fmt::Debug| if alternate { format!("{:#?}", d) } else { format!("{:?}", d) };
  let (have, again, want) = match pick(4) {
    0 => {
      let d = list_fmt(v.clone());
      (show(&d), show(&d), show(&By(|f: &mut std::fmt::Formatter<'_>| f.debug_list().entries(&v).finish())))
    }
    1 => {
      let d = set_fmt(v.clone());
      (show(&d), show(&d), show(&By(|f: &mut std::fmt::Formatter<'_>| f.debug_set().entries(&v).finish())))
    }
    2 => {
      let d = tuple_fmt(name, v.clone());
      (show(&d), show(&d), show(&By(|f: &mut std::fmt::Formatter<'_>| {
        let mut t = f.debug_tuple(name);
        for x in &v {
          t.field(x);
        }
        t.finish()
      })))
    }
    _ => {
      let d = struct_fmt(name, pairs.clone());
      (show(&d), show(&d), show(&By(|f: &mut std::fmt::Formatter<'_>| {
        let mut t = f.debug_struct(name);
        for (k, x) in &pairs {
          t.field(k, x);
        }
        t.finish()
      })))
    }
  };
  check!(have == want, "a debug helper does not print what std prints");
  check!(again == want, "a debug helper prints something else the second time");
  cover("helped");
  observe(have.len() as u64);
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 2, elems: 3, extra_nts: 0, terms: 2, named: true };
const T: Shape = Shape { rules: (3, 3), prods: (1, 1), len: 3, elems: 4, terms: 1, ..Q };

entries! {
  small => prettily(Q, false);
  three => prettily(T, false);
  wrapped => prettily(Shape { elems: 2, ..Q }, true);
  prod5 => prettily_of(production(0, 5, true).map(|x| x.0), false);
  prod6 => prettily_of(production(0, 6, true).map(|x| x.0), false);
  wide6 => prettily_of(wide(1, 6, true).map(|x| x.0), false);
  chain4 => prettily_of(chain(4, &[Link::Next, Link::NextTerm, Link::Twice], 1, true, true, 1).map(|x| x.0), false);
  debugprod4 => debugged_of(production(0, 4, true).map(|x| x.0));
  debugprod5 => debugged_of(production(0, 5, true).map(|x| x.0));
  debugwide5 => debugged_of(wide(1, 5, true).map(|x| x.0));
  debugchain4 => debugged_of(chain(4, &[Link::Next, Link::NextTerm, Link::Twice], 1, true, true, 1).map(|x| x.0));
  long => prettily(Shape { rules: (1, 2), prods: (1, 2), len: 4, elems: 4, ..Q }, false);
  debug => debugged(Q);
  debug3 => debugged(Shape { elems: 3, ..T });
  helpers2 => helpers(2);
  helpers3 => helpers(3);
}
