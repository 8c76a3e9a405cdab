//! C08: removing the empty string.
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::Elem;
use rt::gram::*;
use rt::refs::*;
use rt::*;

fn run(s: Shape) {
  run_of(well_formed(&s, Keys::PerRule))
}

fn run_of(rg: Option<(RGram, G)>) {
  let Some((r, g)) = rg else { return };
  if null_ambiguous(&r) {
    // nothing is claimed about the result, but it has to end
    let _ = transform_to_nonnull(&g);
    return;
  }
  let null = nullable(&r);
  let res = transform_to_nonnull(&g);
  // a rule is left empty if its productions are all empty
  if r.rules.iter().any(|ps| ps.iter().all(|p| p.elems.is_empty())) {
    check!(res.is_err(), "a rule without productions was accepted");
    cover("nothing left");
    return;
  }
  let t = match res {
    Ok(t) => t,
    Err(_) => fail("the transform failed"),
  };
  let keys = |i: usize, k: usize| g.get_rule(&(i as u8)).prods().nth(k).unwrap().prod_key();
  check!(*t.start_nt() == r.start, "start");
  check!(t.rules().count() == r.rules.len(), "number of rules");
  for i in 0..r.rules.len() {
    let Some(rule) = t.try_get_rule(&(i as u8)) else { fail("a rule is missing") };
    let n = r.rules[i].len();
    let mut found = vec![0u32; n];
    let prods: Vec<_> = rule.prods().collect();
    for (x, p) in prods.iter().enumerate() {
      check!(*p.head() == i as u8, "head");
      check!(p.num_elements() > 0, "an empty production");
      let (ak, drops) = p.action_key().verif_parts();
      let (av, args) = p.action_value().verif_parts();
      let k = match r.rules[i].iter().position(|q| q.ak == *ak) {
        Some(k) => k,
        None => fail("the action key does not record an original action"),
      };
      let q = &r.rules[i][k];
      check!(*av == q.av, "the action value does not record the original value");
      let nts = q.elems.iter().filter(|e| e.nt).count();
      check!(drops.len() == nts, "the action key does not record every nonterminal occurrence");
      // walk the original, dropping what is recorded
      let mut occ = 0;
      let mut at = 0;
      let mut nargs = 0;
      for (j, e) in q.elems.iter().enumerate() {
        let dropped = if e.nt {
          occ += 1;
          drops[occ - 1]
        } else {
          false
        };
        if dropped {
          check!(null[e.id as usize], "a nonterminal that is not nullable was dropped");
          if e.named {
            nargs += 1;
            let want = null_tree(&r, &keys, e.id as usize);
            let got = args.iter().find(|a| a.0.str() == NAMES[j]).map(|a| a.1);
            check!(got == Some(&want), "the null derivation of a dropped occurrence is not recorded");
            cover("recorded derivation");
          }
          continue;
        }
        let got = match p.prod_elements().get(at) {
          Some(x) => x,
          None => fail("a kept element is missing"),
        };
        at += 1;
        let same = match got.elem() {
          Elem::Term(x) => !e.nt && *x == e.id,
          Elem::NonTerm(x) => e.nt && *x == e.id,
        };
        check!(same, "a kept element differs");
        let name = match got.id() {
          None => !e.named,
          Some(m) => e.named && m.str() == NAMES[j],
        };
        check!(name, "a kept element's name differs");
      }
      check!(at == p.num_elements(), "an element too many");
      check!(args.len() == nargs, "a null derivation too many");
      found[k] += 1;
      for y in &prods[..x] {
        let (ak2, drops2) = y.action_key().verif_parts();
        check!(ak2 != ak || drops2 != drops, "the same variant twice");
        check!(y.action_key() != p.action_key(), "action keys are not distinct");
        cover("variants");
      }
    }
    // all variants are distinct and sound, so counting shows that none is missing
    for k in 0..n {
      let q = &r.rules[i][k];
      let m = q.elems.iter().filter(|e| e.nt && null[e.id as usize]).count();
      let mut want = 1u32 << m;
      if m == q.elems.len() {
        want -= 1;
      }
      check!(found[k] == want, "a variant is missing");
      observe(want as u64);
    }
  }
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 4, len: 2, elems: 4, extra_nts: 0, terms: 1, named: true };

entries! {
  two => run(Q);
  three5 => run(Shape { rules: (3, 3), all_prods: 5, elems: 5, named: false, ..Q });
  long => run(Shape { len: 3, elems: 3, all_prods: 3, ..Q });
  prod4 => run_of(production(0, 4, true));
  prod5 => run_of(production(5, 5, true));
  prod6 => run_of(production(6, 6, true));
  long5 => run(Shape { len: 5, elems: 5, all_prods: 3, ..Q });
  big => run(Shape { rules: (3, 3), all_prods: 4, elems: 4, ..Q });
}
