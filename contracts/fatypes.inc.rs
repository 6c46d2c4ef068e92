// ------------------------------------------------------------ the two kinds of automata
//@ item laps_regex/src/nfa.rs struct NFA attr=reject_recursive_types(S)
//@ end
//@ item laps_regex/src/dfa.rs struct DFA attr=reject_recursive_types(S)
//@ end
//@ include dfaspec.inc.rs
