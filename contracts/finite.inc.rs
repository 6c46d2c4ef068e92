// ------------------------------------------------------------ how many numbers, and sets of numbers, there are
pub mod fin { use vstd::prelude::*;
pub open spec fn all() -> nat { usize::MAX as nat + 1 }
/// The numbers below n.
pub open spec fn below_(n: nat) -> Set<usize> decreases n { if n == 0 { set![] } else { below_((n - 1) as nat).insert((n - 1) as usize) } }
proof fn in_below(n: nat, q: usize)
  requires n <= all(),
  ensures below_(n).contains(q) == (q < n),
  decreases n,
{ if n > 0 { in_below((n - 1) as nat, q); } }
/// The sets of numbers below n.
pub open spec fn sets_(n: nat) -> Set<Set<usize>> decreases n { if n == 0 { set![Set::<usize>::empty()] } else { sets_((n - 1) as nat).union(sets_((n - 1) as nat).map(|s: Set<usize>| s.insert((n - 1) as usize))) } }
proof fn in_sets(n: nat, s: Set<usize>)
  requires n <= all(), forall|q: usize| #[trigger] s.contains(q) ==> q < n,
  ensures sets_(n).contains(s),
  decreases n,
{
  if n == 0 { assert(s =~= Set::<usize>::empty()); } else {
    let x = (n - 1) as usize;
    let f = |s: Set<usize>| s.insert(x);
    let r = s.remove(x);
    in_sets((n - 1) as nat, r);
    if s.contains(x) { assert(f(r) =~= s); assert(sets_((n - 1) as nat).map(f).contains(s)); } else { assert(r =~= s); }
  }
}
/// How many numbers are not in the set.
#[verifier::opaque]
pub open spec fn room(c: Set<usize>) -> nat { below_(all()).difference(c).len() }
pub proof fn room_less(c: Set<usize>, d: Set<usize>)
  requires c.subset_of(d),
  ensures room(d) <= room(c), c != d ==> room(d) < room(c),
{
  reveal(room);
  let a = below_(all()).difference(c); let b = below_(all()).difference(d);
  vstd::set_lib::lemma_len_subset(b, a);
  if c != d {
    let q = choose|q: usize| d.contains(q) && !c.contains(q);
    assert(d.contains(q) && !c.contains(q)) by { if forall|q: usize| d.contains(q) ==> c.contains(q) { assert(c =~= d); } }
    in_below(all(), q);
    assert(a.contains(q) && !b.contains(q));
    vstd::set_lib::lemma_len_subset(b, a.remove(q));
  }
}
/// How many sets of numbers are not in the set.
#[verifier::opaque]
pub open spec fn rooms(c: Set<Set<usize>>) -> nat { sets_(all()).difference(c).len() }
pub proof fn rooms_less(c: Set<Set<usize>>, s: Set<usize>)
  requires !c.contains(s),
  ensures rooms(c.insert(s)) < rooms(c),
{
  reveal(rooms);
  let a = sets_(all()).difference(c); let b = sets_(all()).difference(c.insert(s));
  in_sets(all(), s);
  assert(a.contains(s) && !b.contains(s));
  assert(b.subset_of(a.remove(s)));
  vstd::set_lib::lemma_len_subset(b, a.remove(s));
}
}
pub use fin::{room, rooms};
