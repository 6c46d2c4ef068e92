use vstd::prelude::*;
verus! {
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
//@ include input.inc.rs
broadcast use is::is_lemmas;

//@ include spanfns.inc.rs

//@ include instream.inc.rs
}
fn main() {}
