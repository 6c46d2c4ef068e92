// ------------------------------------------------------------ values
pub mod ve { use vstd::prelude::*;
/// Vectors of equal contents are equal (their capacity is not looked at).
pub broadcast axiom fn vec_ext<T>(a: Vec<T>, b: Vec<T>)
  requires #[trigger] a@ == #[trigger] b@,
  ensures a == b;
}
#[verifier::external_body]
fn clone_<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
fn same_<T>(x: &T, y: &T) -> (r: bool) ensures r == (*x == *y) { unimplemented!() }
