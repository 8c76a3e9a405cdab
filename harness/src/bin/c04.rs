//! C04: nullability.  C05: null derivations.
use bongo::grammar::passes::nullable::{Nullable, NullableError};
use bongo::grammar::passes::PassContext;
use rt::gram::Link::*;
use rt::gram::*;
use rt::refs::*;
use rt::*;

fn nulls(s: Shape) {
  nulls_of(well_formed(&s, Keys::PerRule))
}

fn nulls_of(rg: Option<(RGram, G)>) {
  let Some((r, g)) = rg else { return };
  let ctx = PassContext::new(&g);
  let res = ctx.get_pass::<Nullable<u8, u8>>();
  let null = nullable(&r);
  let amb = null_ambiguous(&r);
  let pass = match res {
    Err(NullableError::Ambiguity) => {
      check!(amb, "an ambiguity error without null ambiguity");
      cover("ambiguous");
      observe(2);
      return;
    }
    Ok(p) => p,
  };
  check!(!amb, "null ambiguity was not reported");
  let set = pass.get_nullable_set();
  let info = pass.get_nullable_info();
  for i in 0..r.rules.len() {
    let i8 = i as u8;
    check!(pass.is_nullable(&i8) == null[i], "is_nullable");
    check!(info.is_nullable(&i8) == null[i], "is_nullable (info)");
    check!(set.contains(&i8) == null[i], "get_nullable_set");
    for (p, q) in g.get_rule(&i8).prods().zip(&r.rules[i]) {
      check!(pass.is_prod_nullable(&p) == prod_nullable(&null, q), "is_prod_nullable");
    }
  }
  check!(set.len() == null.iter().filter(|x| **x).count(), "get_nullable_set: too many");
  check!(info.get_nullable_set() == set, "get_nullable_set (info)");
  check!(!pass.is_nullable(&(r.rules.len() as u8)), "an unknown nonterminal is nullable");
  let k = null.iter().filter(|x| **x).count();
  observe(k as u64);
  if k > 1 && !null[r.start as usize] {
    cover("some nullable");
  }
}

fn trees(s: Shape) {
  trees_of(well_formed(&s, Keys::PerRule))
}

fn trees_of(rg: Option<(RGram, G)>) {
  let Some((r, g)) = rg else { return };
  if null_ambiguous(&r) {
    return;
  }
  let ctx = PassContext::new(&g);
  let Ok(pass) = ctx.get_pass::<Nullable<u8, u8>>() else { return };
  let null = nullable(&r);
  let keys = |i: usize, k: usize| g.get_rule(&(i as u8)).prods().nth(k).unwrap().prod_key();
  for i in 0..r.rules.len() {
    match pass.get_nullable_info().get_nullable_action(&(i as u8)) {
      None => check!(!null[i], "no null action for a nullable nonterminal"),
      Some(t) => {
        check!(null[i], "a null action for a nonterminal that is not nullable");
        let w = null_tree(&r, &keys, i);
        check!(*t == w, "the null action is not the null derivation");
        cover("action");
        observe(i as u64);
        let n = nullable(&r);
        let p = r.rules[i].iter().find(|p| prod_nullable(&n, p)).unwrap();
        if p.elems.len() > 1 && p.elems.iter().all(|e| e.named) {
          cover("named children");
        }
      }
    }
  }
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 3), all_prods: 4, len: 2, elems: 4, extra_nts: 0, terms: 1, named: false };
const T: Shape = Shape { rules: (1, 3), prods: (1, 2), all_prods: 4, len: 2, elems: 4, extra_nts: 0, terms: 1, named: true };

entries! {
  null2 => nulls(Q);
  null3 => nulls(Shape { rules: (3, 3), prods: (1, 2), all_prods: 4, elems: 4, ..Q });
  null4 => nulls(Shape { rules: (4, 4), prods: (1, 1), all_prods: 4, elems: 5, ..Q });
  chain6 => nulls_of(chain(6, &[Next], 0, false, false, 1));
  chain5 => nulls_of(chain(5, &[Next, NextTerm, Twice, LastNext], 2, false, false, 1));
  chain4 => nulls_of(chain(4, &[Next, NextTerm, TermNext, Twice, NextLast, LastNext], 3, true, false, 1));
  wide => nulls(Shape { rules: (1, 2), prods: (1, 5), all_prods: 6, len: 1, elems: 6, ..Q });
  null5 => nulls(Shape { rules: (5, 5), prods: (1, 1), all_prods: 5, len: 2, elems: 5, ..Q });
  null42 => nulls(Shape { rules: (4, 4), prods: (1, 2), all_prods: 5, len: 2, elems: 5, ..Q });
  nulllong => nulls(Shape { rules: (1, 2), prods: (1, 3), all_prods: 4, len: 4, elems: 6, ..Q });
  nullbig => nulls(Shape { rules: (3, 3), prods: (1, 3), all_prods: 5, elems: 5, ..Q });
  tree3 => trees(T);
  tree4 => trees(Shape { rules: (4, 4), all_prods: 4, elems: 4, ..T });
  treechain5 => trees_of(chain(5, &[Next, Twice], 1, false, true, 1));
  treechain4 => trees_of(chain(4, &[Next, Twice, NextLast, LastNext], 2, true, true, 1));
  treelong => trees(Shape { rules: (3, 3), prods: (1, 2), all_prods: 4, len: 3, elems: 3, ..T });
  tree42 => trees(Shape { rules: (4, 4), prods: (1, 2), all_prods: 5, len: 2, elems: 4, ..T });
  treebig => trees(Shape { rules: (3, 3), elems: 5, all_prods: 5, len: 3, ..T });
}
