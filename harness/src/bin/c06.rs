//! C06: FIRST sets.  C07: FOLLOW sets.
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::PassContext;
use rt::gram::Link::*;
use rt::gram::*;
use rt::refs::*;
use rt::*;

fn first(s: Shape) {
  first_of(well_formed(&s, Keys::PerRule))
}

fn first_of(rg: Option<(RGram, G)>) {
  let Some((r, g)) = rg else { return };
  let ctx = PassContext::new(&g);
  let f = match ctx.get_pass::<Firsts<u8, u8>>() {
    Err(_) => {
      check!(null_ambiguous(&r), "an error without null ambiguity");
      cover("error");
      return;
    }
    Ok(f) => f,
  };
  check!(!null_ambiguous(&r), "null ambiguity was not reported");
  let want = firsts(&r);
  for i in 0..r.rules.len() {
    match f.get(&(i as u8)) {
      None => check!(want[i].is_empty(), "first set missing"),
      Some(s) => {
        check!(same_set(s.iter(), &want[i]), "wrong first set");
        observe(s.len() as u64);
        if s.len() > 1 {
          cover("two firsts");
        }
      }
    }
  }
  check!(f.get(&(r.rules.len() as u8)).is_none(), "a first set for an unknown nonterminal");
}

fn follow(s: Shape) {
  follow_of(well_formed(&s, Keys::PerRule))
}

fn follow_of(rg: Option<(RGram, G)>) {
  let Some((r, g)) = rg else { return };
  if null_ambiguous(&r) {
    return;
  }
  let ctx = PassContext::new(&g);
  let f = match ctx.get_pass::<Follows<u8, u8>>() {
    Err(_) => fail("an error without null ambiguity"),
    Ok(f) => f,
  };
  let want = follows(&r);
  for i in 0..r.rules.len() {
    match f.verif_sets().get(&(i as u8)) {
      None => check!(want[i].is_empty(), "follow set missing"),
      Some(s) => {
        check!(same_set(s.iter(), &want[i]), "wrong follow set");
        observe(s.len() as u64);
        if s.len() > 1 {
          cover("two follows");
        }
      }
    }
  }
  for k in f.verif_sets().keys() {
    check!((*k as usize) < r.rules.len(), "a follow set for an unknown nonterminal");
  }
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 3), all_prods: 4, len: 2, elems: 4, extra_nts: 0, terms: 2, named: false };
const L: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 4, elems: 4, extra_nts: 0, terms: 2, named: false };

entries! {
  first2 => first(Q);
  first3 => first(Shape { rules: (3, 3), prods: (1, 2), ..Q });
  firstlong => first(L);
  firstchain5 => first_of(chain(5, &[Next, NextTerm, TermNext, LastNext], 2, true, false, 2));
  firstchain4 => first_of(chain(4, &[Next, NextTerm, TermNext, Twice, NextLast, LastNext], 3, true, false, 2));
  first42 => first(Shape { rules: (4, 4), prods: (1, 2), all_prods: 5, len: 2, elems: 4, ..Q });
  firstlong5 => first(Shape { elems: 5, ..L });
  firstprod5 => first_of(production(0, 5, false));
  firstbig => first(Shape { rules: (3, 3), prods: (1, 2), all_prods: 5, elems: 5, ..Q });
  follow2 => follow(Q);
  follow3 => follow(Shape { rules: (3, 3), prods: (1, 2), ..Q });
  followlong => follow(L);
  followchain5 => follow_of(chain(5, &[Next, NextTerm, NextLast, Twice], 2, true, false, 2));
  followchain4 => follow_of(chain(4, &[Next, NextTerm, TermNext, Twice, NextLast, LastNext], 3, true, false, 2));
  follow42 => follow(Shape { rules: (4, 4), prods: (1, 2), all_prods: 5, len: 2, elems: 4, ..Q });
  followlong5 => follow(Shape { elems: 5, ..L });
  followprod5 => follow_of(production(0, 5, false));
  followbig => follow(Shape { rules: (3, 3), prods: (1, 2), all_prods: 5, elems: 5, ..Q });
}
