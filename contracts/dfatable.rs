use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ assume `Ord` of the symbol types is a total order under which different symbols differ; SymbolOp follows its contract (proved in unit symbols)
//@ assume HashMap and BTreeMap are finite maps whose iteration yields every entry once, in some order (standard library)
//@ assume vectors of equal contents are equal; cloning yields an equal value
//@ assume sort_unstable permutes (standard library)
//@ rewrite keys of a map in some order :: in fa.states().keys() ==> in fa.states().keys_()
//@ rewrite entries of a map in some order :: in fa.states() { ==> in fa.states().entries_() {
//@ rewrite index of a map :: ids[id] ==> *ids.index_(id)
//@ rewrite index of a map :: ids[next] ==> *ids.index_(next)
//@ rewrite index of a map :: ids[&$e] ==> *ids.index_(&$e)
//@ rewrite HashMap::entry and or_insert_with of a pure value :: table.entry($k).or_insert_with(|| $b) ==> table.entry_or_($k, $b)
//@ rewrite clone to a function with its contract :: sym.clone() ==> clone_(sym)
//@ rewrite iterator adapters to a loop :: let tags = tags.into_iter().map(|(id, tag)| $e).collect(); ==> let tags = { let mut m_ = HashMap::new(); for (id, tag) in tags.into_entries_() { let (k_, v_) = $e; m_.insert(k_, v_); } m_ };
//@ rewrite iterator adapters to a loop :: self.table.into_iter().map(|(s, t)| $e).collect(); ==> { let mut v_ = Vec::new(); for (s, t) in self.table.into_entries_() { v_.push($e); } v_ };
//@ rewrite sort_unstable to a function that permutes :: table.sort_unstable() ==> sort_(&mut table)
//@ rewrite comparison of vectors :: t == &states ==> same_(t, &states)
//@ rewrite iterator of a vector :: sym.into_iter() ==> iter_(sym)
//@ rewrite extend by the rest of an iterator :: equiv.extend(iter) ==> extend_(equiv, iter)
//@ rewrite comparison of an optional symbol :: last_r.next().as_ref() == Some(&first_sym.0) ==> match last_r.next() { Some(n_) => same_(&n_, &first_sym.0), None => false }
//@ rewrite iterator adapters to loops :: trans_table.into_iter().flat_map(|s| s.into_iter()).collect::<Vec<_>>().into_boxed_slice() ==> { let mut v_ = Vec::new(); for s in trans_table { for x_ in s { v_.push(x_); } } boxed_(v_) }
//@ rewrite iterator adapters to loops :: equivs.into_iter().enumerate().flat_map(|(i, es)| es.into_iter().map(move |(l, r)| $e)).collect() ==> { let mut m_ = BTreeMap::new(); let mut i_ = 0; for es in equivs { let i = i_; for (l, r) in es { let (k_, v_) = $e; m_.insert(k_, v_); } i_ = i_ + 1; } m_ }
//@ rewrite type annotation :: let mut ids = HashMap::new(); ==> let mut ids: HashMap<usize, usize> = HashMap::new();
//@ rewrite value in a block, to state a fact about it :: Self { table, tags, init_id: $e, num_states, } ==> { let t_ = Self { table, tags, init_id: $e, num_states }; t_ }
//@ rewrite value in a block, to state a fact about it :: Self { table, init_id, num_states, sym_map, tags, } ==> { let t_ = Self { table, init_id, num_states, sym_map, tags }; t_ }
//@ include table.inc.rs
//@ include ranges.inc.rs
//@ include vecs.inc.rs
broadcast use ve::vec_ext;
//@ include dfa.inc.rs

//@ item laps_regex/src/fa.rs impl FiniteAutomaton props=C06 only=1
//@ fn states
    ensures *r == self.states,
//@ fn init_id
    ensures r == self.init,
//@ end
//@ item laps_regex/src/fa.rs impl DenseState props=C06 only=1
//@ fn outs
    ensures r@ == self.outs@,
//@ end
//@ include dfatable.inc.rs
}
fn main() {}
