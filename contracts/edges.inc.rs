// ------------------------------------------------------------ edges of a state
pub open spec fn has_edge<K>(outs: Seq<(K, usize)>, k: K, p: usize) -> bool { exists|i: int| 0 <= i < outs.len() && #[trigger] outs[i] == (k, p) }
pub open spec fn one_edge<K>(outs: Seq<(K, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < outs.len() ==> (#[trigger] outs[i]).0 != (#[trigger] outs[j]).0 }
