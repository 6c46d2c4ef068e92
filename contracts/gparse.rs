use vstd::prelude::*;
verus! {

//@ assume component parsers satisfy the contract of the Parse trait
//@ assume the declarations of /verif/gen/src/p.rs stand for all declarations (every shape of structure and variant, starting tokens, const parameters)
//@ rewrite name of the generated type parameter :: __LAPS_MACROS_TS ==> TS
//@ rewrite paths of the crate :: laps::parse::Parse ==> Parse
//@ rewrite paths of the crate :: laps::token::TokenStream ==> TokenStream
//@ rewrite paths of the crate :: laps::span::Result ==> Result
//@ rewrite paths of the crate :: std::result::Result::Ok ==> Ok
//@ rewrite constructor as a function written as a closure :: .maybe($i_t) ==> .maybe(|k_: TS::Token| $i_t(k_))
//@ rewrite TokenStream::parse called as the extracted free function :: tokens.parse() ==> parse_(tokens)

//@ include token.inc.rs
//@ include spanned.inc.rs

//@ item src/token.rs trait TokenStream props=C20,C22
//@ free fn parse_<TS: TokenStream, T: Parse<TS>>(self_: &mut TS) -> Result<T>
//@ fn parse
    ensures T::parses(old(self_).rest(), r, final(self_).rest()),
//@ end

// ------------------------------------------------------------ components: any types that satisfy the trait's contract
macro_rules! component { ($t:ident, $p:ident, $c:ident) => { verus! {
#[verifier::external_body]
pub struct $t { _p: u8 }
pub uninterp spec fn $p<K>(s: St<K>, r: Result<$t>, z: St<K>) -> bool;
pub uninterp spec fn $c<K>(s: St<K>, r: Result<bool>) -> bool;
impl<TS: TokenStream> Parse<TS> for $t {
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool { $p(s, r, z) }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { $c(s, r) }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
  #[verifier::external_body]
  fn parse(tokens: &mut TS) -> (r: Result<Self>) { unimplemented!() }
  #[verifier::external_body]
  fn maybe(tokens: &mut TS) -> (r: Result<bool>) { unimplemented!() }
}
} } }
component!(C1, c1_parses, c1_checks);
component!(C2, c2_parses, c2_checks);
component!(C3, c3_parses, c3_checks);
macro_rules! one_token { ($t:ident, $p:ident, $a:ident) => { verus! {
pub struct $t<K>(pub K);
pub uninterp spec fn $p<K>(s: St<K>, r: Result<$t<K>>, z: St<K>) -> bool;
pub uninterp spec fn $a<K>(t: K) -> bool;
impl<TS: TokenStream> Parse<TS> for $t<TS::Token> {
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool { $p(s, r, z) }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { match s.at(0) { Ok(t) => r == Result::<bool>::Ok($a(t)), Err(e) => r == Result::<bool>::Err(e) } }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { $a(t) }
  #[verifier::external_body]
  fn parse(tokens: &mut TS) -> (r: Result<Self>) { unimplemented!() }
  #[verifier::external_body]
  fn maybe(tokens: &mut TS) -> (r: Result<bool>) { unimplemented!() }
}
} } }
one_token!(T1, t1_parses, t1_accepts);
one_token!(T2, t2_parses, t2_accepts);

/// What a chain of up to three checks reads and puts back.
pub proof fn chain_lemmas<K>(s: St<K>)
  ensures
    s.good(1) <==> s.at(0) is Ok,
    s.good(2) <==> s.at(0) is Ok && s.at(1) is Ok,
    s.good(3) <==> s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Ok,
    s.good(0),
    s.at(0) is Err ==> s.shift(1).after(Seq::empty()) == s.without(0),
    s.at(0) is Ok && s.at(1) is Err ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0)) == s.without(1),
    s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Err ==> s.shift(3).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0)) == s.without(2),
    s.at(0) is Ok ==> s.shift(1).after(Seq::empty().push(s.at(0)->Ok_0)) == s,
    s.at(0) is Ok && s.at(1) is Ok ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0)) == s,
    s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Ok ==> s.shift(3).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0).push(s.at(2)->Ok_0)) == s,
{
  if s.good(1) { assert(s.at(0) is Ok); }
  if s.good(2) { assert(s.at(0) is Ok && s.at(1) is Ok); }
  if s.good(3) { assert(s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Ok); }
  assert(s.at(0) is Err ==> s.shift(1).after(Seq::empty()) =~= s.without(0));
  assert(s.at(0) is Ok && s.at(1) is Err ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0)) =~= s.without(1));
  assert(s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Err ==> s.shift(3).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0)) =~= s.without(2));
  assert(s.at(0) is Ok ==> s.shift(1).after(Seq::empty().push(s.at(0)->Ok_0)) =~= s);
  assert(s.at(0) is Ok && s.at(1) is Ok ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0)) =~= s);
  assert(s.at(0) is Ok && s.at(1) is Ok && s.at(2) is Ok ==> s.shift(3).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0).push(s.at(2)->Ok_0)) =~= s);
}

//@ include gparse.inc.rs
}
fn main() {}
