"""What each check runs: harness binary, entry points, bounds, witnesses."""

DEADLINE = {"quick": 700, "thorough": 3600}

COMMON_ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness linked with /repo's crate is what the machine runs (sampled paths are replayed natively)",
    "symx implements that IR faithfully, and z3 answers correctly (satisfiable answers are re-evaluated; a sample is put to other solvers)",
    "memory allocation does not fail; bounds as listed per entry",
    "overflow checks on, debug assertions of the standard library off, one instantiation of each generic item (the one the harness uses)",
]

PROPS = {}

PROPS["C19"] = {
    "bin": "c19",
    "entries": [
        {"name": "ops2", "tier": "quick", "bounds": "empty or one-entry map, every sequence of 2 operations (insert, insert_iter of 0..2 values, insert_from_key_set), all keys and values over u8, then get of every key, iter, into_inner", "covers": ["copied", "hit", "miss"]},
        {"name": "ops3", "tier": "thorough", "bounds": "as ops2 with 3 operations", "covers": ["copied", "hit", "miss"]},
        {"name": "merge4", "tier": "quick", "bounds": "merge_value_pairs of 0..4 pairs over u8", "covers": ["distinct", "merged"]},
        {"name": "merge5", "tier": "thorough", "bounds": "merge_value_pairs of 0..5 pairs over u8", "covers": ["distinct", "merged"]},
    ],
    "outside": "longer operation sequences, other key/value types",
}

PROPS["C01"] = {
    "bin": "c01",
    "entries": [
        {"name": "two", "bounds": "0..2 rules, each 0..2 productions, at most 3 productions of at most 2 elements, 4 elements in all; any start symbol; elements range over the heads, one nonterminal without rule and a terminal", "covers": ["accepted", "start without rule", "unreachable", "no productions", "unreachable with rule"]},
        {"name": "three", "bounds": "3 rules with 0..1 productions, at most 2 elements each, 3 in all", "covers": ["accepted", "start without rule", "unreachable", "no productions", "unreachable with rule"]},
        {"name": "four", "bounds": "4 rules with 0..1 productions of at most 1 element"},
        {"name": "chain4", "bounds": "4 rules in any order, each leading to the next, up to two of them changed to have no production or an empty one or to lead to any nonterminal, one without rule included; any start", "covers": ["accepted", "start without rule", "unreachable", "no productions", "unreachable with rule"]},
        {"name": "chain5", "bounds": "5 rules likewise, one of them changed", "covers": ["accepted", "start without rule", "no productions"]},
        {"name": "big", "bounds": "3 rules with 0..2 productions, at most 4 in all, at most 2 elements each, 4 in all", "covers": ["accepted", "start without rule", "unreachable", "no productions", "unreachable with rule"]},
    ],
    "outside": "larger grammars; rules added twice for one head; symbol types other than u8",
}

NOT_APPLICABLE = {}

PROPS["C20"] = {
    "bin": "c20",
    "entries": [
        {"name": "fixed4", "bounds": "fixed_point of every function on 4 values from every start whose orbit has a fixed point", "covers": ["longest orbit", "no fixed point"]},
        {"name": "fixed5", "tier": "thorough", "bounds": "same with 5 values", "covers": ["longest orbit"]},
        {"name": "changes4", "tier": "quick", "bounds": "change_loop over every report sequence of length 4, change_iter over 0..4 arbitrary items, join/merge", "covers": ["early change"]},
        {"name": "changes5", "tier": "thorough", "bounds": "same with 5", "covers": ["early change"]},
        {"name": "bfs3", "bounds": "breadth_first_search on every directed graph of 3 nodes with arbitrary distinct u8 labels and every initial set", "covers": ["all from one"]},
        {"name": "bfs4", "tier": "thorough", "bounds": "same with 4 nodes", "covers": ["all from one"]},
        {"name": "keyed3", "bounds": "apply_fixed_point, values 2-bit sets, 3 keys, at most 2 edges with arbitrary masks, at most 2 seeds", "covers": ["propagated"]},
        {"name": "keyed4", "tier": "thorough", "bounds": "same with at most 3 edges", "covers": ["propagated"]},
        {"name": "only3", "bounds": "take_only of 0..3 items", "covers": ["one"]},
    ],
    "outside": "larger graphs and value sets; processors that are not monotone; functions without a reachable fixed point (the loop does not end, by definition)",
}
PROPS["C16"] = {
    "bin": "c16",
    "entries": [
        {"name": "t3", "tier": "quick", "bounds": "0..3 tokens with arbitrary u8 kinds and values from an iterator with any valid size hint, every sequence of 5 steps (read or clone) on up to 3 copies", "covers": ["token", "end"]},
        {"name": "t4", "tier": "thorough", "bounds": "0..4 tokens, 7 steps", "covers": ["token", "end"]},
    ],
    "outside": "longer streams and histories",
}
PROPS["C21"] = {
    "bin": "c21",
    "entries": [
        {"name": "ops3", "tier": "quick", "bounds": "every sequence of 3 insertions (insert, insert_cow owned, borrowed, by ValueRef, after value_mut) of arbitrary u8 keys and values whose merge reports arbitrarily, then every look-up", "covers": ["hit", "miss", "merged"]},
        {"name": "ops4", "tier": "thorough", "bounds": "same with 4", "covers": ["hit", "miss", "merged"]},
        {"name": "conv", "bounds": "every conversion between owned, borrowed and either-way entries"},
    ],
    "outside": "longer sequences; insert_cow is called through a raw pointer because its signature ties the value's lifetime to the map's borrow",
}
PROPS["C22"] = {
    "bin": "c22",
    "entries": [
        {"name": "ops2", "tier": "quick", "bounds": "two maps, every sequence of 2 operations (insert, get_mut and write, merge either way) over three key types with arbitrary u8 keys and values, then look-ups of arbitrary keys in both", "covers": ["changed in place", "merged", "hit"]},
        {"name": "ops4", "bounds": "same with 4 operations", "covers": ["changed in place", "merged", "hit"]},
    ],
    "outside": "longer sequences, more key types",
}
PROPS["C23"] = {
    "bin": "c23",
    "entries": [
        {"name": "ops2", "bounds": "texts of 0..2 arbitrary ASCII characters, every sequence of 2 operations (clone, push, clear, new, assign a clone)", "covers": ["cleared"]},
        {"name": "ops3", "bounds": "texts of 0..1 characters, 3 operations", "covers": ["cleared"]},
        {"name": "ops4", "bounds": "texts of 0..1 characters, 4 operations", "covers": ["cleared"]},
        {"name": "shown", "bounds": "Display and Debug of texts of 0..2 arbitrary characters"},
        {"name": "pair2", "bounds": "two names of 0..2 arbitrary characters of any UTF-8 length, made apart, cloned, or cloned and changed back: text, equality, order, hash", "covers": ["equal", "different"]},
    ],
    "outside": "longer texts, longer histories, formatting with width or precision",
}

G_OUT = "larger grammars, symbol types other than u8"
PROPS["C02"] = {
    "bin": "c02",
    "entries": [
        {"name": "small", "bounds": "well-formed grammars of 1..2 rules, at most 3 productions of at most 2 elements (3 in all), any start, any symbols (2 terminals), any names on or off, any u8 action keys and values; built in two ways and orders, read through every accessor, original or clone", "covers": ["read", "several productions"]},
        {"name": "three", "bounds": "3 rules of one production, 4 elements in all", "covers": ["read"]},
        {"name": "names3", "bounds": "one rule, 1..2 productions, 1..3 elements (terminal or the head), each without a name or with one of 3 arbitrary ASCII texts of 0..1 characters, repeated or not", "covers": ["read"]},
        {"name": "names1", "bounds": "one element with a name of 2..8 arbitrary ASCII characters or none", "covers": ["read"]},
        {"name": "names4", "tier": "thorough", "bounds": "as names3 with 4 elements and texts of one character", "covers": ["read"]},
        {"name": "big", "bounds": "1..2 rules, at most 4 productions, at most 3 elements each, 4 in all", "covers": ["read"]},
        {"name": "other", "bounds": "every comparison of the first rules of two grammars (rebuilt, cloned or different) of 1..2 rules with one production of at most one element"},
        {"name": "prod5", "bounds": "one production of 0..5 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["read"]},
        {"name": "wide7", "bounds": "one rule with 1..7 productions (empty, a terminal or the head; repeated or not), named or not", "covers": ["read"]},
        {"name": "chain5", "bounds": "chains of 5 rules in any order, the first 1 links of any form of: next / next terminal / next next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production", "covers": ["read"]},
        {"name": "prod6", "tier": "thorough", "bounds": "one production of 0..6 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["read"]},
    ],
    "outside": G_OUT + "; rules added twice for one head",
}
PROPS["C03"] = {
    "bin": "c03",
    "entries": [
        {"name": "small", "bounds": "well-formed grammars of 1..2 rules, at most 3 productions of at most 2 elements (3 in all), any start, symbols, names, action keys and values", "covers": ["wrapped"]},
        {"name": "three", "bounds": "3 rules of one production, 4 elements in all", "covers": ["wrapped"]},
        {"name": "names3", "bounds": "one rule, 1..2 productions, 1..3 elements (terminal or the head), each without a name or with one of 3 arbitrary ASCII texts of 0..1 characters, repeated or not", "covers": ["wrapped"]},
        {"name": "names1", "bounds": "one element with a name of 2..8 arbitrary ASCII characters or none", "covers": ["wrapped"]},
        {"name": "names4", "tier": "thorough", "bounds": "as names3 with 4 elements and texts of one character", "covers": ["wrapped"]},
        {"name": "big", "bounds": "1..2 rules, at most 4 productions, at most 3 elements each, 4 in all", "covers": ["wrapped"]},
        {"name": "prod6", "bounds": "one production of 0..6 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["wrapped"]},
        {"name": "wide7", "bounds": "one rule with 1..7 productions (empty, a terminal or the head; repeated or not), named or not", "covers": ["wrapped"]},
        {"name": "chain5", "bounds": "chains of 5 rules in any order, the first 1 links of any form of: next / next terminal / next next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production", "covers": ["wrapped"]},
    ],
    "outside": G_OUT,
}
PROPS["C04"] = {
    "bin": "c04",
    "entries": [
        {"name": "null2", "bounds": "well-formed grammars of 1..2 rules, 1..3 productions each (4 in all), at most 2 elements each (4 in all)", "covers": ["ambiguous"]},
        {"name": "null3", "bounds": "3 rules, 4 productions in all, 4 elements in all", "covers": ["ambiguous", "some nullable"]},
        {"name": "nullbig", "bounds": "3 rules, 5 productions in all, 5 elements in all, at most 2 in one", "covers": ["ambiguous", "some nullable"]},
        {"name": "null5", "bounds": "5 rules of one production, 5 elements in all, at most 2 in one", "covers": ["some nullable"]},
        {"name": "null42", "bounds": "4 rules, 5 productions in all, 5 elements in all, at most 2 in one", "covers": ["ambiguous", "some nullable"]},
        {"name": "nulllong", "bounds": "1..2 rules, 1..3 productions each, 4 in all, at most 4 elements each, 6 in all", "covers": ["ambiguous"]},
        {"name": "wide", "bounds": "1..2 rules with 1..5 productions, 6 in all, of at most one element", "covers": ["ambiguous"]},
        {"name": "chain6", "bounds": "chains of 6 rules in any order, the last rule empty, a terminal or leading back to any"},
        {"name": "chain5", "bounds": "chains of 5 rules in any order, the first 2 links of any form of: next / next terminal / next next / last next, the last rule empty, a terminal or leading back to any", "covers": ["some nullable"]},
        {"name": "chain4", "bounds": "chains of 4 rules in any order, the first 3 links of any form of: next / next terminal / terminal next / next next / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production", "covers": ["some nullable"]},
    ],
    "outside": G_OUT,
}
PROPS["C05"] = {
    "bin": "c04",
    "entries": [
        {"name": "tree3", "bounds": "well-formed grammars without null ambiguity of 1..3 rules, at most 4 productions, at most 2 elements each (4 in all), each element named or not", "covers": ["action", "named children"]},
        {"name": "tree4", "bounds": "4 rules of one production, 4 elements in all", "covers": ["action"]},
        {"name": "tree42", "tier": "thorough", "bounds": "4 rules, 5 productions in all, 4 elements in all, at most 2 in one, named or not", "covers": ["action", "named children"]},
        {"name": "treechain5", "bounds": "chains of 5 rules in any order, the first 1 links of any form of: next / next next, the last rule empty, a terminal or leading back to any, named or not", "covers": ["action", "named children"]},
        {"name": "treechain4", "bounds": "chains of 4 rules in any order, the first 2 links of any form of: next / next next / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, named or not", "covers": ["action", "named children"]},
        {"name": "treelong", "bounds": "3 rules, 4 productions in all, 3 elements in all, at most 3 in one, named or not", "covers": ["action", "named children"]},
        {"name": "treebig", "tier": "thorough", "wall": 1500, "bounds": "3 rules, 5 productions in all, 5 elements in all, at most 3 in one, named or not", "covers": ["action", "named children"]},
    ],
    "outside": G_OUT + "; productions that use one name twice",
}
PROPS["C06"] = {
    "bin": "c06",
    "entries": [
        {"name": "first2", "bounds": "well-formed grammars of 1..2 rules, 1..3 productions each (4 in all), at most 2 elements each (4 in all), 2 terminals", "covers": ["error", "two firsts"]},
        {"name": "first3", "bounds": "3 rules, 4 productions in all, 4 elements in all", "covers": ["error", "two firsts"]},
        {"name": "firstlong5", "bounds": "1..2 rules, at most 3 productions, at most 4 elements in one, 5 in all", "covers": ["error", "two firsts"]},
        {"name": "firstbig", "bounds": "3 rules, 5 productions in all, 5 elements in all, at most 2 in one", "covers": ["error", "two firsts"]},
        {"name": "first42", "bounds": "4 rules, 5 productions in all, 4 elements in all, at most 2 in one", "covers": ["error", "two firsts"]},
        {"name": "firstchain5", "bounds": "chains of 5 rules in any order, the first 2 links of any form of: next / next terminal / terminal next / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, 2 terminals", "covers": ["two firsts"]},
        {"name": "firstchain4", "bounds": "chains of 4 rules in any order, the first 3 links of any form of: next / next terminal / terminal next / next next / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, 2 terminals", "covers": ["two firsts"]},
        {"name": "firstprod5", "bounds": "one production of 0..5 elements (terminal, either of two nullable nonterminals, or one that is not)", "covers": ["two firsts"]},
    ],
    "outside": G_OUT,
}
PROPS["C07"] = {
    "bin": "c06",
    "entries": [
        {"name": "follow2", "bounds": "well-formed grammars without null ambiguity of 1..2 rules, 1..3 productions each (4 in all), at most 2 elements each (4 in all), 2 terminals", "covers": ["two follows"]},
        {"name": "follow3", "bounds": "3 rules, 4 productions in all, 4 elements in all", "covers": ["two follows"]},
        {"name": "followlong5", "bounds": "1..2 rules, at most 3 productions, at most 4 elements in one, 5 in all", "covers": ["two follows"]},
        {"name": "followbig", "bounds": "3 rules, 5 productions in all, 5 elements in all, at most 2 in one", "covers": ["two follows"]},
        {"name": "follow42", "bounds": "4 rules, 5 productions in all, 4 elements in all, at most 2 in one", "covers": ["two follows"]},
        {"name": "followchain5", "bounds": "chains of 5 rules in any order, the first 2 links of any form of: next / next terminal / next last / next next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, 2 terminals", "covers": ["two follows"]},
        {"name": "followchain4", "bounds": "chains of 4 rules in any order, the first 3 links of any form of: next / next terminal / terminal next / next next / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, 2 terminals", "covers": ["two follows"]},
        {"name": "followprod5", "bounds": "one production of 0..5 elements (terminal, either of two nullable nonterminals, or one that is not)", "covers": ["two follows"]},
    ],
    "outside": G_OUT,
}

PROPS["C08"] = {
    "bin": "c08",
    "entries": [
        {"name": "two", "bounds": "well-formed grammars of 1..2 rules with 1..2 productions of at most 2 elements (4 in all), named or not", "covers": ["nothing left", "variants", "recorded derivation"]},
        {"name": "big", "bounds": "3 rules, 4 productions, 4 elements in all, named or not", "covers": ["variants", "recorded derivation"]},
        {"name": "long5", "bounds": "1..2 rules, 3 productions, 5 elements, all of them in one or not, named or not", "covers": ["variants", "recorded derivation"]},
        {"name": "three5", "bounds": "3 rules, at most 5 productions, 5 elements in all, unnamed", "covers": ["nothing left", "variants"]},
        {"name": "prod4", "bounds": "one production of 0..4 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["variants", "recorded derivation"]},
        {"name": "prod5", "bounds": "one production of 5 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["variants", "recorded derivation"]},
        {"name": "prod6", "bounds": "one production of 6 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["variants", "recorded derivation"]},
    ],
    "outside": G_OUT + "; productions that use one name twice",
}
PROPS["C09"] = {
    "bin": "c09",
    "entries": [
        {"name": "order3", "tier": "quick", "bounds": "3 pass types, each requesting up to 2 later ones in any order (repeats included), failing or not, going on after a failed dependency or not; every sequence of 3 requests", "covers": ["cached", "failed"]},
        {"name": "order4", "tier": "thorough", "bounds": "same with 4 requests", "covers": ["cached", "failed"]},
        {"name": "loops", "bounds": "3 pass types, each requesting at most one of them (cycles included), 2 requests", "covers": ["loop", "failed", "cached"]},
        {"name": "loops2", "tier": "thorough", "bounds": "same with up to 2 requested passes", "covers": ["loop", "failed", "cached"]},
        {"name": "apart6", "bounds": "two contexts, of two grammars with any u8 start or of one; 6 requests for two passes, one depending on the other, to either in any order", "covers": ["cached"]},
        {"name": "own4", "bounds": "4 requests, 4 elements", "covers": ["cached", "failed"]},
    ],
    "outside": "more pass types and requests; passes whose behaviour changes from run to run; a context used after a recursion panic was caught",
}
PROPS["C10"] = {
    "bin": "c10",
    "entries": [
        {"name": "item", "bounds": "every item of well-formed grammars of 1..2 rules, 3 productions, 3 elements in all, named or not; advance_if with any symbol", "covers": ["advanced"]},
        {"name": "itemlong", "bounds": "same with 4 elements in all, unnamed", "covers": ["advanced"]},
        {"name": "order", "bounds": "all pairs and triples of items of well-formed grammars of 1..2 rules, 3 productions, at most 3 elements each, 4 in all", "covers": ["several"]},
        {"name": "set3", "bounds": "sets made of 0..3 additions, well-formed grammars of 1..2 rules, at most 2 productions of at most 2 elements (3 in all), named or not", "covers": ["groups"]},
        {"name": "close3", "bounds": "every set of the items of one production of at most 2 elements, every closing function that maps an item to at most 2 items", "covers": ["closed"]},
        {"name": "close4", "bounds": "every set of the items of at most two productions of at most 2 elements in all, every closing function that maps an item to at most one", "covers": ["closed"]},
        {"name": "close5", "tier": "thorough", "bounds": "same with 3 elements in all", "covers": ["closed"]},
    ],
    "outside": G_OUT + "; larger item sets",
}
PROPS["C11"] = {
    "bin": "c11",
    "entries": [
        {"name": "acc1", "bounds": "well-formed grammars of one rule with 1..3 productions of at most 3 elements (4 in all), 2 terminals; 0..4 tokens of any of 3 kinds", "covers": ["accepted", "rejected"]},
        {"name": "acc3", "bounds": "3 rules of one production, at most 3 elements each, 4 in all; 0..3 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acc4", "tier": "thorough", "wall": 1500, "bounds": "2 rules, 4 productions, at most 3 elements each, 5 in all; 0..3 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acc5", "tier": "thorough", "wall": 1500, "bounds": "3 rules, 4 productions, at most 3 elements each, 5 in all; 0..3 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acc6", "tier": "thorough", "bounds": "one rule, 3 productions, 5 elements in all; 4 tokens", "max-instr": 400000000, "covers": ["accepted", "rejected"]},
        {"name": "acc4s", "bounds": "2 rules, 4 productions, at most 3 elements each, 4 in all; 0..3 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acc5s", "bounds": "3 rules, 4 productions, at most 3 elements each, 4 in all; 0..2 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acc7", "bounds": "4 rules of one production of at most 2 elements, 4 in all; 0..2 tokens", "covers": ["accepted", "rejected"]},
        {"name": "accone", "max-instr": 200000000, "bounds": "one rule, 3 productions, at most 3 elements each, 4 in all, one terminal; 5..6 tokens", "covers": ["accepted", "rejected"]},
        {"name": "acclong", "max-instr": 200000000, "bounds": "1..2 rules, 3 productions, 3 elements in all, one terminal; 4..5 tokens", "covers": ["accepted", "rejected"]},
    ],
    "outside": G_OUT + "; longer inputs",
}
PROPS["C12"] = {
    "bin": "c11",
    "entries": [
        {"name": "for1", "bounds": "well-formed grammars of one rule with 1..3 productions of at most 3 elements (4 in all), 2 terminals; 0..4 tokens of any of 3 kinds", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for2", "bounds": "2 rules, 3 productions, at most 3 elements each, 4 in all; 0..3 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for3", "bounds": "3 rules of one production, at most 3 elements each, 4 in all; 0..3 tokens", "covers": ["unambiguous"]},
        {"name": "for4", "tier": "thorough", "wall": 1500, "bounds": "2 rules, 4 productions, at most 3 elements each, 5 in all; 0..3 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for5", "tier": "thorough", "wall": 1500, "bounds": "3 rules, 4 productions, at most 3 elements each, 5 in all; 0..3 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for6", "tier": "thorough", "bounds": "one rule, 3 productions, 5 elements in all; 4 tokens", "max-instr": 400000000, "covers": ["ambiguous", "unambiguous"]},
        {"name": "for4s", "bounds": "2 rules, 4 productions, at most 3 elements each, 4 in all; 0..3 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for5s", "bounds": "3 rules, 4 productions, at most 3 elements each, 4 in all; 0..2 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "for7", "bounds": "4 rules of one production of at most 2 elements, 4 in all; 0..2 tokens", "covers": ["unambiguous"]},
        {"name": "forone", "max-instr": 200000000, "bounds": "one rule, 3 productions, at most 3 elements each, 4 in all, one terminal; 5..6 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "forlong", "max-instr": 200000000, "bounds": "1..2 rules, 3 productions, 3 elements in all, one terminal; 4..5 tokens", "covers": ["ambiguous", "unambiguous"]},
        {"name": "vals1", "bounds": "one rule, 2 productions, 3 elements in all; 0..3 tokens with any u8 values"},
        {"name": "twice", "bounds": "1..2 rules, 3 productions, 3 elements in all; two inputs of 0..2 tokens each with any u8 values parsed into one tree", "covers": ["two forests"]},
    ],
    "outside": G_OUT + "; longer inputs",
}
PROPS["C13"] = {
    "bin": "c13",
    "entries": [
        {"name": "two", "bounds": "kernels of two items, 3 elements in all", "covers": ["closed", "shifted"]},
        {"name": "las", "bounds": "kernels of one item with 1..2 lookaheads, 3 elements in all", "covers": ["closed", "shifted"]},
        {"name": "three", "bounds": "kernels of one item, 3 rules, 4 productions, 4 elements in all", "covers": ["closed", "shifted"]},
        {"name": "one5", "bounds": "every item with one lookahead (of 3) as kernel, well-formed grammars without null ambiguity of 1..2 rules, 3 productions of at most 5 elements, 5 in all, 2 terminals", "covers": ["closed", "shifted"]},
        {"name": "prod4", "bounds": "kernels of one item, one production of 0..4 elements (terminal, either of two nullable nonterminals, or one that is not)", "covers": ["closed", "shifted"]},
        {"name": "chain4", "bounds": "kernels of one item, chains of 4 rules in any order, the first 2 links of any form of: next / next terminal / terminal next / next next / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production", "covers": ["closed", "shifted"]},
        {"name": "big", "bounds": "kernels of 1..2 items with 1..2 lookaheads each, 1..2 rules, 4 productions, 3 elements in all", "covers": ["closed", "shifted"]},
        {"name": "chain5", "tier": "thorough", "bounds": "kernels of one item, chains of 5 rules in any order, the first 1 links of any form of: next / next terminal / next last / last next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production", "covers": ["closed", "shifted"]},
        {"name": "three2", "tier": "thorough", "bounds": "kernels of 1..2 items, 3 rules, 4 productions, 4 elements in all", "covers": ["closed", "shifted"]},
    ],
    "outside": G_OUT + "; items with an empty set of lookaheads (they stand for no LR(1) item: whether the code keeps them is not judged)",
}
PROPS["C14"] = {
    "bin": "c14",
    "entries": [
        {"name": "ops3", "bounds": "every sequence of 3 operations on an empty tree (make a node, leaf node, branch node, leaf alternative, branch alternative; add an alternative to a node; add all of a node's alternatives to another) with arbitrary u8 kinds, values and actions and 0..2 arbitrary children, then everything read back", "covers": ["added all"]},
        {"name": "ops4", "bounds": "same with 4 operations and 0..1 children", "covers": ["added again", "added all", "shared"]},
        {"name": "from2", "bounds": "same with 2 operations, starting with a leaf node and a branch node with arbitrary contents", "covers": ["added again", "added all", "shared"]},
        {"name": "from3", "bounds": "same with 3 operations and 0..1 children", "covers": ["added again", "added all", "shared"]},
        {"name": "ops5", "tier": "thorough", "bounds": "5 operations on an empty tree and 0..1 children", "covers": ["added again", "added all", "shared"]},
        {"name": "from4", "tier": "thorough", "bounds": "4 operations from the two nodes and 0..1 children", "covers": ["added again", "added all", "shared"]},
        {"name": "mixing", "bounds": "every operation that could mix two trees"},
        {"name": "lazily2", "bounds": "branches whose 0..2 children are made or read by operations on the same tree while the branch is being made", "covers": ["lazy children"]},
        {"name": "lazily3", "tier": "thorough", "bounds": "same with 0..3 children", "covers": ["lazy children"]},
    ],
    "outside": "longer sequences; kinds, values and actions other than u8; wrongly ordered or panicking comparison of user types",
}
PROPS["C15"] = {
    "bin": "c15",
    "entries": [
        {"name": "two", "bounds": "every forest of 1..2 nodes and 0..2 alternatives (leaf or branch with 0..2 children, 2 possible labels, any membership), every root", "covers": ["cyclic or shared", "root alone"]},
        {"name": "three", "bounds": "3 nodes, 0..2 alternatives with 0..1 children", "covers": ["cyclic or shared", "root alone"]},
        {"name": "alts3", "bounds": "2 nodes, 0..3 alternatives with 0..1 children", "covers": ["cyclic or shared", "root alone"]},
        {"name": "big", "bounds": "3 nodes, 0..2 alternatives with 0..2 children", "covers": ["cyclic or shared", "root alone"]},
        {"name": "labels1", "bounds": "one alternative whose kind and value, or action, shows as 0..1 (action: 0..2) printable ASCII characters or line feeds", "covers": ["labelled"]},
        {"name": "big3", "tier": "thorough", "bounds": "2 nodes, 0..3 alternatives with 0..2 children, one label", "covers": ["cyclic or shared", "root alone"]},
    ],
    "outside": "larger forests; longer labels and such of other characters",
}
PROPS["C17"] = {
    "bin": "c17",
    "entries": [
        {"name": "reads3", "bounds": "texts of 0..3 arbitrary characters of any UTF-8 length, every sequence of 2 operations (read_char, read_char_mut, advance_n, advance_n_mut with 0..n+1, remove_suffix) on the range and those derived from it", "covers": ["read at the end", "advanced too far"]},
        {"name": "reads2", "bounds": "texts of 0..2 characters, 3 operations", "covers": ["read at the end", "advanced too far", "suffix of a shortened range"]},
        {"name": "reads4", "bounds": "texts of 4 characters of 1..2 bytes, 2 operations", "covers": ["advanced too far"]},
        {"name": "readsbig", "tier": "thorough", "bounds": "texts of 0..3 characters, 3 operations", "covers": ["read at the end", "advanced too far", "suffix of a shortened range"]},
        {"name": "any3", "bounds": "texts of 0..3 arbitrary characters of any UTF-8 length, advanced (both ways) from any position by any 64-bit number", "covers": ["advanced", "refused"]},
        {"name": "any5", "bounds": "texts of 4..5 characters of 1..2 bytes, likewise", "covers": ["advanced", "refused"]},
        {"name": "keys2", "bounds": "keys of any two texts of 0..2 arbitrary characters, at equal or different offsets", "covers": ["equal", "different"]},
        {"name": "keys3", "tier": "thorough", "bounds": "keys of any two texts of 0..3 characters of 1..2 bytes", "covers": ["equal", "different"]},
    ],
    "outside": "longer texts and histories; removing a range that is no suffix (documented as a caller's mistake)",
}
PROPS["C18"] = {
    "bin": "c17",
    "entries": [
        {"name": "lines5", "bounds": "texts of 0..5 characters from LF, CR and printable ASCII, every range", "covers": ["CR LF", "second line"]},
        {"name": "lines4", "bounds": "texts of 0..4 characters, adding combining (U+0300..U+036F) and 3-byte characters (hiragana)", "covers": ["CR LF", "second line", "cluster"]},
        {"name": "kinds3", "bounds": "texts of 0..3 characters, adding ZWJ, emoji, regional indicators, VT, FF, U+2028, U+2029, C1 controls, Hangul L and V, prepended and spacing marks", "covers": ["CR LF", "cluster"]},
        {"name": "lines6", "tier": "thorough", "bounds": "texts of 6 characters of 4 kinds", "covers": ["CR LF", "second line", "cluster"]},
        {"name": "pict5", "tier": "thorough", "bounds": "texts of 5 characters of 8 kinds (emoji, ZWJ, flags)", "covers": ["CR LF", "second line", "cluster"]},
        {"name": "kinds4", "tier": "thorough", "bounds": "texts of 4 characters of all 15 kinds", "covers": ["CR LF", "second line", "cluster"]},
    ],
    "outside": "longer texts; characters outside the listed ranges",
}
PROPS["C24"] = {
    "bin": "c24",
    "entries": [
        {"name": "small", "bounds": "well-formed grammars of 1..2 rules, at most 3 productions of at most 2 elements (3 in all), named or not, 2 terminals", "covers": ["printed", "several lines"]},
        {"name": "three", "bounds": "3 rules of one production of at most 3 elements, 4 in all, named or not, one terminal", "covers": ["printed", "several lines"]},
        {"name": "wrapped", "bounds": "grammars of 1..2 rules wrapped with a start rule, 2 elements in all", "covers": ["printed", "several lines"]},
        {"name": "long", "bounds": "1..2 rules, productions of at most 4 elements, 4 in all", "covers": ["printed", "several lines"]},
        {"name": "prod5", "bounds": "one production of 0..5 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["printed", "several lines"]},
        {"name": "wide6", "bounds": "one rule with 1..6 productions (empty, a terminal or the head; repeated or not), named or not", "covers": ["printed", "several lines"]},
        {"name": "chain4", "bounds": "chains of 4 rules in any order, the first 1 links of any form of: next / next terminal / next next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, named or not", "covers": ["printed", "several lines"]},
        {"name": "prod6", "tier": "thorough", "bounds": "one production of 0..6 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["printed", "several lines"]},
    ],
    "outside": G_OUT + "; symbol names with white space or signs; where lines are broken",
}
PROPS["C25"] = {
    "bin": "c25",
    "entries": [
        {"name": "pairs", "preemptions": 2, "samples": 40, "bounds": "2 threads, one of 14 operations each, every schedule with at most 2 preemptions", "covers": ["finished"]},
        {"name": "two2", "preemptions": 2, "samples": 40, "bounds": "2 threads, 2 and 1 of 6 operations, every schedule with at most 2 preemptions", "covers": ["finished"]},
        {"name": "three", "preemptions": 1, "samples": 40, "bounds": "3 threads, one of 6 operations each, every schedule with at most 1 preemption", "covers": ["finished"]},
        {"name": "pairs3", "tier": "thorough", "preemptions": 3, "samples": 40, "wall": 1500, "bounds": "2 threads, one of 14 operations each, every schedule with at most 3 preemptions", "covers": ["finished"]},
        {"name": "four", "tier": "thorough", "preemptions": 2, "samples": 40, "wall": 1500, "bounds": "2 threads, 2 of 6 operations each, every schedule with at most 2 preemptions", "covers": ["finished"]},
        {"name": "three6", "tier": "thorough", "preemptions": 2, "samples": 40, "wall": 1500, "bounds": "3 threads, one of 6 operations each, every schedule with at most 2 preemptions", "covers": ["finished"]},
        {"name": "three14", "tier": "thorough", "preemptions": 1, "samples": 40, "wall": 1500, "bounds": "3 threads, one of 14 operations each, every schedule with at most 1 preemption", "covers": ["finished"]},
    ],
    "outside": "more threads, operations and preemptions; schedules that need weak memory ordering (the locks of std are taken to work as documented)",
    "assumptions": ["threads are switched only at atomic operations and blocking calls, and memory is sequentially consistent: safe Rust shares other memory only under the locks built from them"],
}
PROPS["C26"] = {
    "bin": "c24",
    "entries": [
        {"name": "debug", "bounds": "well-formed grammars of 1..2 rules, at most 3 productions of at most 2 elements (3 in all), named or not, 2 terminals; plain and alternate form", "covers": ["debugged"]},
        {"name": "debug3", "bounds": "3 rules of one production of at most 3 elements, 3 in all", "covers": ["debugged"]},
        {"name": "helpers2", "bounds": "lists, sets, tuples and structs of 0..2 arbitrary u8, plain and alternate, printed twice", "covers": ["helped"]},
        {"name": "helpers3", "tier": "thorough", "bounds": "same with 0..3", "covers": ["helped"]},
        {"name": "debugprod4", "bounds": "one production of 0..4 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["debugged"]},
        {"name": "debugwide5", "bounds": "one rule with 1..5 productions (empty, a terminal or the head; repeated or not), named or not", "covers": ["debugged"]},
        {"name": "debugchain4", "bounds": "chains of 4 rules in any order, the first 1 links of any form of: next / next terminal / next next, the last rule empty, a terminal or leading back to any, one rule with a terminal as second production, named or not", "covers": ["debugged"]},
        {"name": "debugprod5", "tier": "thorough", "bounds": "one production of 0..5 elements (terminal, either of two nullable nonterminals, or one that is not), named or not", "covers": ["debugged"]},
    ],
    "outside": G_OUT + "; formatting flags other than the alternate form",
}
PROPS["C27"] = {
    "bin": "c27",
    "entries": [
        {"name": "symbols4", "bounds": "two terminals and nonterminals whose names are 0..4 printable ASCII characters: equality, order, hash", "covers": ["equal", "different"]},
        {"name": "docs8", "bounds": "symbols and elements with names of 0..8 printable ASCII characters, pretty form", "covers": ["shown"]},
        {"name": "elems", "bounds": "three elements of any kind and any u8 symbol", "covers": ["equal", "different"]},
        {"name": "named2", "bounds": "two elements of any kind and any u8 symbol, without name or with one of 0..1 ASCII characters, made in four ways", "covers": ["equal", "different"]},
        {"name": "starts", "bounds": "three symbols and three keys of a grammar wrapped with a start rule, any u8 inside", "covers": ["equal", "different"]},
        {"name": "prod_keys", "bounds": "four productions of two heads with any u8 action keys", "covers": ["equal", "different"]},
        {"name": "trees2", "bounds": "two action trees of six shapes with any u8 labels and leaves", "covers": ["equal", "different"]},
        {"name": "named3", "bounds": "as named2 with three elements", "covers": ["equal", "different"]},
    ],
    "outside": "longer names, symbol types other than u8 and names, larger trees",
}
