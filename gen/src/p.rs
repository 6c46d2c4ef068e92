// written by tools/gen_gparse.py
use laps::parse::Parse;
use laps::span::Result;
use laps::token::TokenStream;

macro_rules! component {
  ($($t:ident)*) => {$(
    pub struct $t;
    impl<TS: TokenStream> Parse<TS> for $t {
      fn parse(_: &mut TS) -> Result<Self> { unimplemented!() }
      fn maybe(_: &mut TS) -> Result<bool> { unimplemented!() }
    }
  )*};
}
component!(C1 C2 C3);
macro_rules! token {
  ($($t:ident)*) => {$(
    pub struct $t<K>(pub K);
    impl<TS: TokenStream> Parse<TS> for $t<TS::Token> {
      fn parse(_: &mut TS) -> Result<Self> { unimplemented!() }
      fn maybe(_: &mut TS) -> Result<bool> { unimplemented!() }
    }
  )*};
}
token!(T1 T2);

#[derive(Parse)]
pub struct Named { pub a: C1, pub b: C2, pub c: C3 }

#[derive(Parse)]
pub struct Tuple(pub C1, pub C2);

#[derive(Parse)]
pub struct One(pub C2);

#[derive(Parse)]
pub struct UnitS;

#[derive(Parse)]
pub struct EmptyN {}

#[derive(Parse)]
pub struct Arr<const N: usize> { pub a: C3, pub b: C1 }

#[derive(Parse)]
#[starts_with(T1)]
pub struct Start1 { pub a: C1, pub b: C2 }

#[derive(Parse)]
#[starts_with(T1, T2)]
pub struct Start2(pub C3);

#[derive(Parse)]
pub enum Plain {
  X(C1, C2),
  Y { a: C2, b: C3, c: C1 },
  Z(C3),
}

#[derive(Parse)]
pub enum UnitLast {
  X(C1, C2),
  Y { a: C2 },
  Z,
}

#[derive(Parse)]
pub enum UnitMid {
  X(C1),
  U,
  Y(C2),
}

#[derive(Parse)]
pub enum UnitFirst {
  U,
  Y(C2),
}

#[derive(Parse)]
pub enum EmptyVar {
  X(C1),
  E(),
  Y(C2, C1),
}

#[derive(Parse)]
pub enum Only {
  X(C1, C2),
}

#[derive(Parse)]
pub enum Four {
  A(C1),
  B(C2),
  C(C3),
  D(C1, C1),
}

#[derive(Parse)]
#[starts_with(T1)]
pub enum StartE1 {
  X(C1),
  Y(C2),
}

#[derive(Parse)]
#[starts_with(T2, T1)]
pub enum StartE2 {
  X(C1, C3),
  Y(C2),
  Z,
}

#[derive(Parse)]
pub struct Six(pub C1, pub C2, pub C3, pub C3, pub C1, pub C2);

#[derive(Parse)]
pub struct Raw { pub r#type: C2, pub tokens: C1 }

#[derive(Parse)]
#[starts_with(T1, T2, T1)]
pub struct Start3;

#[derive(Parse)]
pub enum Nine {
  A(C1, C2, C3, C1),
  B { x: C2 },
  C(C3),
  D(C1, C1),
  r#If(C2, C2),
  F { y: C3, z: C1 },
  G(C1),
  H(C3, C2),
  I(C2, C3),
}
