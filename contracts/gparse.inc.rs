// written by tools/gen_gparse.py
//@ item gen mod p >> struct Named
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Named props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && ((r is Err && <C3 as Parse<TS>>::parses(q2, Result::<C3>::Err(r->Err_0), z))
      || (exists|v2: C3, q3: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q2, Result::<C3>::Ok(v2), q3) && (r == Result::<Self>::Ok(Self { a: v0, b: v1, c: v2 }) && z == q3)))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C1 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct Tuple
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Tuple props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self(v0, v1)) && z == q2)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C1 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct One
//@ end
//@ item gen mod p >> impl laps::parse::Parse for One props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self(v0)) && z == q1)))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C2 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct UnitS
//@ end
//@ item gen mod p >> impl laps::parse::Parse for UnitS props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r == Result::<Self>::Ok(Self) && z == s)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    r == Result::<bool>::Ok(true)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct EmptyN
//@ end
//@ item gen mod p >> impl laps::parse::Parse for EmptyN props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r == Result::<Self>::Ok(Self {}) && z == s)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    r == Result::<bool>::Ok(true)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct Arr
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Arr props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && ((r is Err && <C1 as Parse<TS>>::parses(q1, Result::<C1>::Err(r->Err_0), z))
      || (exists|v1: C1, q2: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q1, Result::<C1>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self { a: v0, b: v1 }) && z == q2)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C3 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct Start1
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Start1 props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self { a: v0, b: v1 }) && z == q2)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    if s.good(1) { r == Result::<bool>::Ok(<T1<TS::Token> as Parse<TS>>::accepts(s.at(0)->Ok_0)) }
    else { exists|k: nat| k < 1 && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ entry
    proof { chain_lemmas(tokens.rest()); }
//@ end
//@ item gen mod p >> struct Start2
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Start2 props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self(v0)) && z == q1)))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    if s.good(2) { r == Result::<bool>::Ok(<T1<TS::Token> as Parse<TS>>::accepts(s.at(0)->Ok_0) && <T2<TS::Token> as Parse<TS>>::accepts(s.at(1)->Ok_0)) }
    else { exists|k: nat| k < 2 && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ entry
    proof { chain_lemmas(tokens.rest()); }
//@ end
//@ item gen mod p >> enum Plain
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Plain props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::X(v0, v1)) && z == q2))))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && ((r is Err && <C3 as Parse<TS>>::parses(q1, Result::<C3>::Err(r->Err_0), z))
      || (exists|v1: C3, q2: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q1, Result::<C3>::Ok(v1), q2) && ((r is Err && <C1 as Parse<TS>>::parses(q2, Result::<C1>::Err(r->Err_0), z))
      || (exists|v2: C1, q3: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q2, Result::<C1>::Ok(v2), q3) && (r == Result::<Self>::Ok(Self::Y { a: v0, b: v1, c: v2 }) && z == q3))))))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::Z(v0)) && z == q1)))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C3 as Parse<TS>>::checks(s, r))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(false)))))))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum UnitLast
//@ end
//@ item gen mod p >> impl laps::parse::Parse for UnitLast props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::X(v0, v1)) && z == q2))))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::Y { a: v0 }) && z == q1))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && (r == Result::<Self>::Ok(Self::Z) && z == s)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(true)))))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum UnitMid
//@ end
//@ item gen mod p >> impl laps::parse::Parse for UnitMid props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::X(v0)) && z == q1))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && (r == Result::<Self>::Ok(Self::U) && z == s)))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(true)))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum UnitFirst
//@ end
//@ item gen mod p >> impl laps::parse::Parse for UnitFirst props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r == Result::<Self>::Ok(Self::U) && z == s)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    r == Result::<bool>::Ok(true)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum EmptyVar
//@ end
//@ item gen mod p >> impl laps::parse::Parse for EmptyVar props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::X(v0)) && z == q1))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && (r == Result::<Self>::Ok(Self::E()) && z == s)))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(true)))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum Only
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Only props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::X(v0, v1)) && z == q2)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(false)))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum Four
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Four props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::A(v0)) && z == q1))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::B(v0)) && z == q1))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::C(v0)) && z == q1))))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C1 as Parse<TS>>::parses(q1, Result::<C1>::Err(r->Err_0), z))
      || (exists|v1: C1, q2: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q1, Result::<C1>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::D(v0, v1)) && z == q2)))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C3 as Parse<TS>>::checks(s, r))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(false)))))))))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> enum StartE1
//@ end
//@ item gen mod p >> impl laps::parse::Parse for StartE1 props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::X(v0)) && z == q1))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::Y(v0)) && z == q1)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    if s.good(1) { r == Result::<bool>::Ok(<T1<TS::Token> as Parse<TS>>::accepts(s.at(0)->Ok_0)) }
    else { exists|k: nat| k < 1 && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ entry
    proof { chain_lemmas(tokens.rest()); }
//@ end
//@ item gen mod p >> enum StartE2
//@ end
//@ item gen mod p >> impl laps::parse::Parse for StartE2 props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C3 as Parse<TS>>::parses(q1, Result::<C3>::Err(r->Err_0), z))
      || (exists|v1: C3, q2: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q1, Result::<C3>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::X(v0, v1)) && z == q2))))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::Y(v0)) && z == q1))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && (r == Result::<Self>::Ok(Self::Z) && z == s)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    if s.good(2) { r == Result::<bool>::Ok(<T2<TS::Token> as Parse<TS>>::accepts(s.at(0)->Ok_0) && <T1<TS::Token> as Parse<TS>>::accepts(s.at(1)->Ok_0)) }
    else { exists|k: nat| k < 2 && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ entry
    proof { chain_lemmas(tokens.rest()); }
//@ end
//@ item gen mod p >> struct Six
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Six props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && ((r is Err && <C3 as Parse<TS>>::parses(q2, Result::<C3>::Err(r->Err_0), z))
      || (exists|v2: C3, q3: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q2, Result::<C3>::Ok(v2), q3) && ((r is Err && <C3 as Parse<TS>>::parses(q3, Result::<C3>::Err(r->Err_0), z))
      || (exists|v3: C3, q4: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q3, Result::<C3>::Ok(v3), q4) && ((r is Err && <C1 as Parse<TS>>::parses(q4, Result::<C1>::Err(r->Err_0), z))
      || (exists|v4: C1, q5: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q4, Result::<C1>::Ok(v4), q5) && ((r is Err && <C2 as Parse<TS>>::parses(q5, Result::<C2>::Err(r->Err_0), z))
      || (exists|v5: C2, q6: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q5, Result::<C2>::Ok(v5), q6) && (r == Result::<Self>::Ok(Self(v0, v1, v2, v3, v4, v5)) && z == q6)))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C1 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct Raw
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Raw props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && ((r is Err && <C1 as Parse<TS>>::parses(q1, Result::<C1>::Err(r->Err_0), z))
      || (exists|v1: C1, q2: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q1, Result::<C1>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self { r#type: v0, tokens: v1 }) && z == q2)))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    <C2 as Parse<TS>>::checks(s, r)
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
//@ item gen mod p >> struct Start3
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Start3 props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r == Result::<Self>::Ok(Self) && z == s)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    if s.good(3) { r == Result::<bool>::Ok(<T1<TS::Token> as Parse<TS>>::accepts(s.at(0)->Ok_0) && <T2<TS::Token> as Parse<TS>>::accepts(s.at(1)->Ok_0) && <T1<TS::Token> as Parse<TS>>::accepts(s.at(2)->Ok_0)) }
    else { exists|k: nat| k < 3 && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ entry
    proof { chain_lemmas(tokens.rest()); }
//@ end
//@ item gen mod p >> enum Nine
//@ end
//@ item gen mod p >> impl laps::parse::Parse for Nine props=C22
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && ((r is Err && <C3 as Parse<TS>>::parses(q2, Result::<C3>::Err(r->Err_0), z))
      || (exists|v2: C3, q3: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q2, Result::<C3>::Ok(v2), q3) && ((r is Err && <C1 as Parse<TS>>::parses(q3, Result::<C1>::Err(r->Err_0), z))
      || (exists|v3: C1, q4: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q3, Result::<C1>::Ok(v3), q4) && (r == Result::<Self>::Ok(Self::A(v0, v1, v2, v3)) && z == q4))))))))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::B { x: v0 }) && z == q1))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::C(v0)) && z == q1))))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && ((r is Err && <C1 as Parse<TS>>::parses(q1, Result::<C1>::Err(r->Err_0), z))
      || (exists|v1: C1, q2: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q1, Result::<C1>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::D(v0, v1)) && z == q2))))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::r#If(v0, v1)) && z == q2))))))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && ((r is Err && <C1 as Parse<TS>>::parses(q1, Result::<C1>::Err(r->Err_0), z))
      || (exists|v1: C1, q2: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(q1, Result::<C1>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::F { y: v0, z: v1 }) && z == q2))))))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C1 as Parse<TS>>::parses(s, Result::<C1>::Err(r->Err_0), z))
      || (exists|v0: C1, q1: St<TS::Token>| #[trigger] <C1 as Parse<TS>>::parses(s, Result::<C1>::Ok(v0), q1) && (r == Result::<Self>::Ok(Self::G(v0)) && z == q1))))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && ((r is Err && <C3 as Parse<TS>>::parses(s, Result::<C3>::Err(r->Err_0), z))
      || (exists|v0: C3, q1: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(s, Result::<C3>::Ok(v0), q1) && ((r is Err && <C2 as Parse<TS>>::parses(q1, Result::<C2>::Err(r->Err_0), z))
      || (exists|v1: C2, q2: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(q1, Result::<C2>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::H(v0, v1)) && z == q2))))))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::parses(s, Result::<C2>::Err(r->Err_0), z))
      || (exists|v0: C2, q1: St<TS::Token>| #[trigger] <C2 as Parse<TS>>::parses(s, Result::<C2>::Ok(v0), q1) && ((r is Err && <C3 as Parse<TS>>::parses(q1, Result::<C3>::Err(r->Err_0), z))
      || (exists|v1: C3, q2: St<TS::Token>| #[trigger] <C3 as Parse<TS>>::parses(q1, Result::<C3>::Ok(v1), q2) && (r == Result::<Self>::Ok(Self::I(v0, v1)) && z == q2)))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C3 as Parse<TS>>::checks(s, r))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C3 as Parse<TS>>::checks(s, r))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C1 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C1 as Parse<TS>>::checks(s, r))
    || (<C1 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C3 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C3 as Parse<TS>>::checks(s, r))
    || (<C3 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && ((r is Err && <C2 as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <C2 as Parse<TS>>::checks(s, r))
    || (<C2 as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && r == Result::<bool>::Ok(false)))))))))))))))))))
  }
  open spec fn one_token() -> bool { false }
  open spec fn accepts(t: TS::Token) -> bool { false }
//@ fn parse
//@ fn maybe props=C21,C22
//@ end
