// ------------------------------------------------------------ what an intermediate expression means
//@ item laps_regex/src/mir.rs enum Mir attr=reject_recursive_types(S)+reject_recursive_types(T)
//@ end
pub type Keys<S> = Seq<Vec<(S, S)>>;
/// A number of rounds (for the instantiation of quantifiers).
pub open spec fn times(n: nat) -> bool { true }
/// The words of keys an expression matches.
pub open spec fn ends<S, T>(m: Mir<S, T>, u: Keys<S>) -> bool decreases m, 0nat {
  match m {
    Mir::Empty => u.len() == 0,
    Mir::Ranges(rs) => u.len() == 1 && u[0] == rs,
    Mir::Concat(c) => cat(c, c.len() as nat, u),
    Mir::Alter(a) => exists|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u),
    Mir::Kleene(k) => exists|n: nat| #[trigger] times(n) && star(*k, n, u),
  }
}
/// The first n expressions, one after the other.
pub open spec fn cat<S, T>(c: Vec<Mir<S, T>>, n: nat, u: Keys<S>) -> bool decreases c, n {
  if n == 0 { u.len() == 0 } else if n > c.len() { false } else { exists|i: int| 0 <= i <= u.len() && cat(c, (n - 1) as nat, #[trigger] u.take(i)) && ends(c[n - 1], u.skip(i)) }
}
/// n times the expression.
pub open spec fn star<S, T>(k: Mir<S, T>, n: nat, u: Keys<S>) -> bool decreases k, n {
  if n == 0 { u.len() == 0 } else { exists|i: int| 0 <= i <= u.len() && star(k, (n - 1) as nat, #[trigger] u.take(i)) && ends(k, u.skip(i)) }
}
/// The words of keys an expression gives a tag.
pub open spec fn says<S, T>(m: Mir<S, T>, u: Keys<S>, t: T) -> bool decreases m {
  match m {
    Mir::Concat(c) => c.len() > 0 && exists|i: int| 0 <= i <= u.len() && cat(c, (c.len() - 1) as nat, #[trigger] u.take(i)) && says(c[c.len() - 1], u.skip(i), t),
    Mir::Alter(a) => exists|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)),
    _ => false,
  }
}
pub open spec fn untagged<S, T>(m: Mir<S, T>) -> bool decreases m {
  match m {
    Mir::Concat(c) => forall|j: int| 0 <= j < c.len() ==> untagged(#[trigger] c[j]),
    Mir::Alter(a) => forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).1 is None && untagged(a[j].0),
    Mir::Kleene(k) => untagged(*k),
    _ => true,
  }
}
/// No empty lists; tags only where nothing follows, and none inside of another.
pub open spec fn tails<S, T>(m: Mir<S, T>) -> bool decreases m {
  match m {
    Mir::Concat(c) => c.len() > 0 && (forall|j: int| 0 <= j < c.len() ==> tails(#[trigger] c[j])) && forall|j: int| 0 <= j < c.len() - 1 ==> untagged(#[trigger] c[j]),
    Mir::Alter(a) => a.len() > 0 && forall|j: int| 0 <= j < a.len() ==> tails((#[trigger] a[j]).0) && (a[j].1 is Some ==> untagged(a[j].0)),
    Mir::Kleene(k) => tails(*k) && untagged(*k),
    _ => true,
  }
}
/// The keys of an expression.
pub open spec fn has_range<S, T>(m: Mir<S, T>, k: Vec<(S, S)>) -> bool decreases m {
  match m {
    Mir::Empty => false,
    Mir::Ranges(rs) => k == rs,
    Mir::Concat(c) => exists|j: int| 0 <= j < c.len() && has_range(#[trigger] c[j], k),
    Mir::Alter(a) => exists|j: int| 0 <= j < a.len() && has_range((#[trigger] a[j]).0, k),
    Mir::Kleene(e) => has_range(*e, k),
  }
}
