// ------------------------------------------------------------ small steps of the standard library
#[verifier::external_body]
fn unreached<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
fn append_<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
#[verifier::external_body]
fn unbox_<T>(b: Box<T>) -> (r: T) ensures r == *b { unimplemented!() }
