// written by tools/gen_gspan.py
use laps::span::{Span, Spanned, TrySpan};

pub struct F1(Span);
impl Spanned for F1 { fn span(&self) -> Span { self.0.clone() } }
pub struct F2(Span);
impl Spanned for F2 { fn span(&self) -> Span { self.0.clone() } }
pub struct O1(Option<Span>);
impl TrySpan for O1 { fn try_span(&self) -> Option<Span> { self.0.clone() } }
pub struct O2(Option<Span>);
impl TrySpan for O2 { fn try_span(&self) -> Option<Span> { self.0.clone() } }

#[derive(Spanned)]
pub struct One(pub F1);

#[derive(Spanned)]
pub struct Two { pub a: F1, pub b: F2 }

#[derive(Spanned)]
pub struct Front { #[try_span] pub a: O1, pub b: F1 }

#[derive(Spanned)]
pub struct Back { pub a: F1, #[try_span] pub b: O1 }

#[derive(Spanned)]
pub struct Mid { #[try_span] pub a: O1, pub b: F1, #[try_span] pub c: O2 }

#[derive(Spanned)]
pub struct Outer(#[try_span] pub O1, #[try_span] pub O2, pub F1, #[try_span] pub O2, #[try_span] pub O1);

#[derive(Spanned)]
pub struct Wide { #[try_span] pub a: O1, pub b: F1, #[try_span] pub c: O2, pub d: F2, #[try_span] pub e: O1, #[try_span] pub f: O2 }

#[derive(Spanned)]
pub struct Gen<T> where T: Spanned { #[try_span] pub a: O1, pub t: T, #[try_span] pub b: O1 }

#[derive(Spanned)]
pub enum Sum {
  A(F1),
  B(F2, #[try_span] O1, F1),
  C { #[try_span] x: O1, y: F1, #[try_span] z: O2 },
  D(#[try_span] O1, #[try_span] O2, F2),
}

#[derive(Spanned)]
pub struct Ten(#[try_span] pub O2, #[try_span] pub O1, #[try_span] pub O2, pub F1, #[try_span] pub O1, pub F2, #[try_span] pub O1, #[try_span] pub O2, #[try_span] pub O1, #[try_span] pub O2);

#[derive(Spanned)]
pub struct Raw { #[try_span] pub r#type: O1, pub span: F1, #[try_span] pub r#match: O2 }

#[derive(Spanned)]
pub enum Six {
  A(F1, #[try_span] O1),
  B { w: F2 },
  C { #[try_span] x: O1, #[try_span] y: O2, z: F2 },
  D(F1, F2, F1, F2),
  r#If(#[try_span] O2, F1, #[try_span] O2, F1, #[try_span] O2),
  F(F2, #[try_span] O2, #[try_span] O2, #[try_span] O2),
}

#[derive(Spanned)]
pub enum GenSum<T> where T: Spanned {
  A(T, #[try_span] O1),
  B { #[try_span] x: O2, t: T, y: T },
}
