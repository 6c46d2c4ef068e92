use vstd::prelude::*;
verus! {
//@ assume `Ord` of the symbol types is a total order under which different symbols differ (char and u8: the order of their numbers)
//@ assume BTreeMap and HashMap are finite maps; `range(s..).next()` gives the entry of the smallest key not below s (standard library)
//@ assume str::chars and str::bytes yield the characters and the bytes of the string (standard library)
//@ rewrite first entry of a map from a key on :: self.sym_map.range(s..).next() ==> first_from_(&self.sym_map, s)
//@ rewrite comparison of symbols :: s >= l ==> ge_(s, &l)
//@ rewrite bool::then_some to if :: ($a < $b).then_some($v) ==> if $a < $b { Some($v) } else { None }
//@ rewrite slice of a box :: &self.table ==> self.table.as_ref_()
//@ rewrite characters of a string :: s.chars() ==> chars_(s)
//@ rewrite bytes of a string :: s.bytes() ==> bytes_(s)
//@ include table.inc.rs
//@ include matcher.inc.rs
}
fn main() {}
