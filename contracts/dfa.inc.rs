// ------------------------------------------------------------ deterministic automata
//@ item laps_regex/src/fa.rs trait State
//@ drop new add dump
//@ end
//@ item laps_regex/src/fa.rs struct DenseState
//@ end
//@ item laps_regex/src/fa.rs struct FiniteAutomaton
//@ end
//@ item laps_regex/src/fa.rs type DenseFA
//@ end
//@ item laps_regex/src/dfa.rs struct DFA
//@ end
impl<S> State<S> for DenseState<S> {}
//@ include edges.inc.rs
//@ include dfaspec.inc.rs
