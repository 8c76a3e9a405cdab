//! C03: wrapping with a start rule.
use bongo::grammar::Elem;
use bongo::start_grammar::*;
use bongo::utils::Name;
use rt::gram::*;
use rt::*;

fn run(s: Shape) {
  run_of(Some(RGram::split(&s, Keys::PerRule)))
}

fn run_of(r: Option<RGram>) {
  let Some(mut r) = r else { return };
  for p in r.rules.iter_mut().flatten() {
    p.ak = byte(0, 255);
    p.av = byte(0, 255);
  }
  if !r.well_formed() {
    return;
  }
  let Ok(g) = r.build() else { return };
  let w = match wrap_grammar_with_start(g) {
    Ok(w) => w,
    Err(_) => fail("wrapping a well-formed grammar failed"),
  };
  check!(*w.start_nt() == StartNonTerminal::Start, "start nonterminal");
  check!(*w.start_rule().head() == StartNonTerminal::Start, "start rule");
  check!(w.start_rule().prods().count() == 1, "the start rule has other than one production");
  let p = w.start_prod();
  check!(*p.head() == StartNonTerminal::Start, "start production: head");
  check!(*p.action_key() == StartActionKey::Start && p.action_key().as_base().is_none(), "start production: key");
  check!(matches!(p.action_value(), StartActionValue::Start), "start production: value");
  check!(p.num_elements() == 2, "start production: length");
  let e0 = &p.prod_elements()[0];
  let e1 = &p.prod_elements()[1];
  check!(e0.id().map_or(false, |n| n.str() == "start"), "start production: first element's name");
  check!(*e0.elem() == Elem::NonTerm(StartNonTerminal::NTerm(r.start)), "start production: first element");
  check!(e1.id().is_none() && *e1.elem() == Elem::Term(StreamTerminal::EndOfStream), "start production: second element");
  let mut n = 0;
  for rule in w.rules() {
    let i = match rule.head() {
      StartNonTerminal::Start => continue,
      StartNonTerminal::NTerm(i) => *i as usize,
    };
    n += 1;
    check!(i < r.rules.len(), "a rule nobody added");
    check!(rule.prods().count() == r.rules[i].len(), "number of productions");
    for (p, q) in rule.prods().zip(&r.rules[i]) {
      check!(*p.head() == StartNonTerminal::NTerm(i as u8), "head");
      check!(p.action_key().as_base() == Some(&q.ak), "action key");
      check!(matches!(p.action_value(), StartActionValue::ActionValue(v) if *v == q.av), "action value");
      check!(p.num_elements() == q.elems.len(), "number of elements");
      for (j, (e, x)) in p.prod_elements().iter().zip(&q.elems).enumerate() {
        let same = match e.elem() {
          Elem::Term(StreamTerminal::Term(t)) => {
            let k = byte(0, 255);
            let h = StreamTerminal::Term(*t);
            check!(h.has_kind(&k) == (*t == k) && !h.is_eos(), "has_kind");
            !x.nt && *t == x.id
          }
          Elem::NonTerm(StartNonTerminal::NTerm(t)) => x.nt && *t == x.id,
          _ => false,
        };
        check!(same, "element");
        let name = match e.id() {
          None => !x.named,
          Some(m) => x.named && m.str() == NAMES[j],
        };
        check!(name, "element name");
      }
    }
  }
  check!(n == r.rules.len(), "a rule is missing");
  let eos: StreamTerminal<u8> = StreamTerminal::EndOfStream;
  check!(eos.is_eos() && !eos.has_kind(&byte(0, 255)), "end of stream");
  cover("wrapped");
  observe(n as u64);
}

/// Names with any text.
fn named(elems: usize, min: usize, max: usize) {
  let n = pick_in(1, elems);
  let texts: Vec<String> = (0..n).map(|_| any_text(min, max)).collect();
  let which: Vec<Option<usize>> = (0..n).map(|i| pick(i + 2).checked_sub(1)).collect();
  let nts: Vec<bool> = (0..n).map(|_| pick(2) == 1).collect();
  let mut v = Vec::new();
  for i in 0..n {
    let e = if nts[i] { Elem::NonTerm(0u8) } else { Elem::Term(i as u8) };
    v.push(bongo::grammar::ProdElement::new(which[i].map(|k| Name::new(&texts[k])), e));
  }
  let g: G = match bongo::grammar::build(0u8, |gb| {
    gb.add_rule(0u8, |rb| {
      rb.add_prod_with_elems(0u8, 0u8, v);
    });
  }) {
    Ok(g) => g,
    Err(_) => return,
  };
  let w = match wrap_grammar_with_start(g) {
    Ok(w) => w,
    Err(_) => fail("wrapping a well-formed grammar failed"),
  };
  let rule = w.get_rule(&StartNonTerminal::NTerm(0));
  check!(rule.prods().count() == 1, "number of productions");
  let p = rule.prods().next().unwrap();
  check!(p.num_elements() == n, "number of elements");
  for (i, e) in p.prod_elements().iter().enumerate() {
    match (e.id(), which[i]) {
      (None, None) => {}
      (Some(a), Some(k)) => {
        let (a, b) = (a.str(), &texts[k]);
        check!(a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x == y), "element name: text");
      }
      _ => fail("element name: lost or invented"),
    }
    check!(e.elem().as_nonterm().is_some() == nts[i], "element kind");
  }
  cover("wrapped");
  observe(n as u64);
}

const Q: Shape = Shape { rules: (1, 2), prods: (1, 2), all_prods: 3, len: 2, elems: 3, extra_nts: 0, terms: 2, named: true };

entries! {
  small => run(Q);
  three => run(Shape { rules: (3, 3), prods: (1, 1), all_prods: 3, len: 2, elems: 4, ..Q });
  names3 => named(3, 0, 1);
  names1 => named(1, 2, 8);
  names4 => named(4, 1, 1);
  prod5 => run_of(production(0, 5, true).map(|x| x.0));
  prod6 => run_of(production(0, 6, true).map(|x| x.0));
  wide7 => run_of(wide(1, 7, true).map(|x| x.0));
  chain5 => run_of(chain(5, &[Link::Next, Link::NextTerm, Link::Twice], 1, true, false, 2).map(|x| x.0));
  big => run(Shape { elems: 4, all_prods: 4, len: 3, ..Q });
}
