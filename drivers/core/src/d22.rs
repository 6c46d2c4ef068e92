//! C21, C22: code generated by `derive(Parse)`, over a catalogue of declarations.
use crate::parsing::{entry, explore, rtoken, show_tok, Cur, Entry, Spec};
use crate::tokens::{in_mask, Is, Item, Tok, K, R};
use laps::ast::NonEmptySeq;
use laps::parse::Parse;
use laps::token::{token_ast, Token, TokenStream};
use vcommon::Rep;

type A = Is<1>;
type B = Is<2>;
type C = Is<4>;
type AB = Is<3>;

// ---------------------------------------------------------------- C22 subjects

token_ast! {
  macro Tk<K> {
    [a] => { kind: K(0) },
    [b] => { kind: K(1) },
    [c] => { kind: K(2) },
    [ab] => { kind: K(0) | K(1), prompt: "a or b" },
    [low] => { kind: K(n) if *n < 2, prompt: "low" },
  }
}

fn opt<T: Spec>(c: &mut Cur) -> R<String> {
  Option::<T>::rparse(c)
}

/// Spec of a structure or variant: fields in order, shown in `name(..)`.
macro_rules! fields {
  ($c:ident, $name:expr; $($t:ty),*) => {{
    #[allow(unused_mut)]
    let mut v: Vec<String> = vec![];
    $(v.push(<$t>::rparse($c)?);)*
    let _ = &$c;
    Ok(format!("{}({})", $name, v.join(" ")))
  }};
}
macro_rules! shown {
  ($name:expr; $($e:expr),*) => {{
    let v: Vec<String> = vec![$($e.show()),*];
    format!("{}({})", $name, v.join(" "))
  }};
}

#[derive(Parse)]
#[token(Tok)]
struct Named {
  x: A,
  y: Option<B>,
  z: Vec<C>,
}
impl Spec for Named {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Named"; A, Option<B>, Vec<C>)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    A::rmaybe(c)
  }
  fn show(&self) -> String {
    shown!("Named"; self.x, self.y, self.z)
  }
}

#[derive(Parse)]
#[token(Tok)]
struct Unnamed(AB, B, Option<A>);
impl Spec for Unnamed {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Unnamed"; AB, B, Option<A>)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    AB::rmaybe(c)
  }
  fn show(&self) -> String {
    shown!("Unnamed"; self.0, self.1, self.2)
  }
}

#[derive(Parse)]
#[token(Tok)]
struct Unit;
#[derive(Parse)]
struct EmptyNamed {}
#[derive(Parse)]
#[token(Tok)]
struct EmptyTuple();
macro_rules! empty_spec {
  ($($t:ident)*) => {$(
    impl Spec for $t {
      fn rparse(_: &mut Cur) -> R<String> {
        Ok("()".into())
      }
      fn rmaybe(_: &Cur) -> R<bool> {
        Ok(true)
      }
      fn show(&self) -> String {
        "()".into()
      }
    }
  )*};
}
empty_spec!(Unit EmptyNamed EmptyTuple);

/// A leaf with a lifetime and a type parameter.
pub trait Mask {
  const M: u32;
}
pub struct One;
impl Mask for One {
  const M: u32 = 2;
}
pub struct Ty<'x, T>(Tok, std::marker::PhantomData<&'x T>);
impl<'x, T: Mask, TS: TokenStream<Token = Tok>> Parse<TS> for Ty<'x, T> {
  fn parse(tokens: &mut TS) -> laps::span::Result<Self> {
    let t = tokens.next_token()?;
    if in_mask(T::M, t.kind.0) {
      Ok(Ty(t, std::marker::PhantomData))
    } else {
      tokens.unread(t);
      Err(crate::tokens::err(false))
    }
  }
  fn maybe(tokens: &mut TS) -> laps::span::Result<bool> {
    Ok(in_mask(T::M, tokens.peek()?.kind.0))
  }
}
impl<'x, T: Mask> Spec for Ty<'x, T> {
  fn rparse(c: &mut Cur) -> R<String> {
    rtoken(c, |k| in_mask(T::M, k))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(in_mask(T::M, c.at(0)?))
  }
  fn show(&self) -> String {
    show_tok(&self.0)
  }
}
/// Every kind of parameter, with bounds, defaults and a where clause.
#[derive(Parse)]
#[token(Tok)]
struct Params<'x, 'y: 'x, T: Mask + 'static, U = One, const M: u32 = 1>
where
  U: Mask + 'x,
{
  a: Ty<'x, T>,
  b: Option<Ty<'y, U>>,
  c: Is<M>,
}
impl<'x, 'y: 'x, T: Mask + 'static, U: Mask + 'x> Spec for Params<'x, 'y, T, U, 1> {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Params"; Ty<'x, T>, Option<Ty<'y, U>>, A)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ty::<'x, T>::rmaybe(c)
  }
  fn show(&self) -> String {
    shown!("Params"; self.a, self.b, self.c)
  }
}
#[derive(Parse)]
#[token(Tok)]
enum ParamsOr<'x, T, const M: u32>
where
  T: Mask + 'static,
{
  P(Ty<'x, T>, Is<M>),
  Q { q: Is<M>, t: Ty<'x, T> },
}
impl<'x, T: Mask + 'static> Spec for ParamsOr<'x, T, 5> {
  fn rparse(c: &mut Cur) -> R<String> {
    if Ty::<'x, T>::rmaybe(c)? {
      fields!(c, "P"; Ty<'x, T>, Is<5>)
    } else {
      fields!(c, "Q"; Is<5>, Ty<'x, T>)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(Ty::<'x, T>::rmaybe(c)? || Is::<5>::rmaybe(c)?)
  }
  fn show(&self) -> String {
    match self {
      Self::P(a, b) => shown!("P"; a, b),
      Self::Q { q, t } => shown!("Q"; q, t),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
struct Gen<const M: u32, const N: u32> {
  t: Is<M>,
  u: Is<N>,
}

// enumerations

#[derive(Parse)]
#[token(Tok)]
enum Choice {
  X(A, B),
  Y { b: B, c: C },
  Z(AB, C),
  W(C),
}
impl Spec for Choice {
  fn rparse(c: &mut Cur) -> R<String> {
    if A::rmaybe(c)? {
      fields!(c, "X"; A, B)
    } else if B::rmaybe(c)? {
      fields!(c, "Y"; B, C)
    } else if AB::rmaybe(c)? {
      fields!(c, "Z"; AB, C)
    } else {
      fields!(c, "W"; C)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(A::rmaybe(c)? || B::rmaybe(c)? || AB::rmaybe(c)? || C::rmaybe(c)?)
  }
  fn show(&self) -> String {
    match self {
      Self::X(a, b) => shown!("X"; a, b),
      Self::Y { b, c } => shown!("Y"; b, c),
      Self::Z(a, b) => shown!("Z"; a, b),
      Self::W(c) => shown!("W"; c),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
enum WithUnit {
  Seq(NonEmptySeq<A>, Option<C>),
  Opt(B),
  Nothing,
}
impl Spec for WithUnit {
  fn rparse(c: &mut Cur) -> R<String> {
    if A::rmaybe(c)? {
      fields!(c, "Seq"; NonEmptySeq<A>, Option<C>)
    } else if B::rmaybe(c)? {
      fields!(c, "Opt"; B)
    } else {
      Ok("Nothing()".into())
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(A::rmaybe(c)? || B::rmaybe(c)? || true)
  }
  fn show(&self) -> String {
    match self {
      Self::Seq(a, b) => shown!("Seq"; a, b),
      Self::Opt(a) => shown!("Opt"; a),
      Self::Nothing => "Nothing()".into(),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
enum Single {
  Only(A, C),
}
impl Spec for Single {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Only"; A, C)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    A::rmaybe(c)
  }
  fn show(&self) -> String {
    let Self::Only(a, b) = self;
    shown!("Only"; a, b)
  }
}

#[derive(Parse)]
#[token(Tok)]
enum UnitFirst {
  None,
  #[allow(dead_code)]
  Some(A),
}
impl Spec for UnitFirst {
  fn rparse(_: &mut Cur) -> R<String> {
    Ok("None()".into())
  }
  fn rmaybe(_: &Cur) -> R<bool> {
    Ok(true)
  }
  fn show(&self) -> String {
    match self {
      Self::None => "None()".into(),
      Self::Some(a) => shown!("Some"; a),
    }
  }
}

/// Variants after one without components are never parsed.
#[derive(Parse)]
#[token(Tok)]
enum MidUnit {
  First(A, C),
  Empty(),
  #[allow(dead_code)]
  Never { c: C, a: A },
  Last(B),
}
impl Spec for MidUnit {
  fn rparse(c: &mut Cur) -> R<String> {
    if A::rmaybe(c)? {
      fields!(c, "First"; A, C)
    } else {
      Ok("Empty()".into())
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    A::rmaybe(c)?;
    Ok(true)
  }
  fn show(&self) -> String {
    match self {
      Self::First(a, b) => shown!("First"; a, b),
      Self::Empty() => "Empty()".into(),
      Self::Never { c, a } => shown!("Never"; c, a),
      Self::Last(b) => shown!("Last"; b),
    }
  }
}

/// Attributes in another order, with others in between.
#[allow(dead_code)]
#[derive(Parse)]
/// It begins so.
#[starts_with(Tk![b], Tk![low])]
#[allow(non_snake_case)]
#[token(laps::token::Token<K>)]
enum Attrs {
  /// One.
  #[allow(dead_code)]
  One(#[allow(dead_code)] Option<B>, AB),
  Two {
    /// Field.
    #[allow(dead_code)]
    r#type: C,
    B: B,
  },
}
impl Spec for Attrs {
  fn rparse(c: &mut Cur) -> R<String> {
    if Option::<B>::rmaybe(c)? {
      fields!(c, "One"; Option<B>, AB)
    } else {
      fields!(c, "Two"; C, B)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    upcoming(c, &[&|k| k == 1, &|k| k < 2])
  }
  fn show(&self) -> String {
    match self {
      Self::One(a, b) => shown!("One"; a, b),
      Self::Two { r#type, B } => shown!("Two"; r#type, B),
    }
  }
}

/// Nested and recursive: `Expr` is `a`, or `b Expr c`.
#[derive(Parse)]
#[token(Tok)]
enum Expr {
  Leaf(A),
  Nest(B, Box<Expr>, C),
}
impl Spec for Expr {
  fn rparse(c: &mut Cur) -> R<String> {
    if A::rmaybe(c)? {
      fields!(c, "Leaf"; A)
    } else {
      fields!(c, "Nest"; B, Box<Expr>, C)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(A::rmaybe(c)? || B::rmaybe(c)?)
  }
  fn show(&self) -> String {
    match self {
      Self::Leaf(a) => shown!("Leaf"; a),
      Self::Nest(b, e, c) => shown!("Nest"; b, e, c),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
enum Nested {
  One(Named),
  Two(Unnamed),
  Three(WithUnit),
}
impl Spec for Nested {
  fn rparse(c: &mut Cur) -> R<String> {
    if Named::rmaybe(c)? {
      fields!(c, "One"; Named)
    } else if Unnamed::rmaybe(c)? {
      fields!(c, "Two"; Unnamed)
    } else {
      fields!(c, "Three"; WithUnit)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(Named::rmaybe(c)? || Unnamed::rmaybe(c)? || WithUnit::rmaybe(c)?)
  }
  fn show(&self) -> String {
    match self {
      Self::One(a) => shown!("One"; a),
      Self::Two(a) => shown!("Two"; a),
      Self::Three(a) => shown!("Three"; a),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
enum GenChoice<const M: u32> {
  First(Is<M>, Is<M>),
  Second(Option<Is<M>>),
}

// declared starting tokens

/// Whether the upcoming tokens are the given kinds, position by position; an
/// unreadable token is an error unless an earlier one was wrong already.
fn upcoming(c: &Cur, ks: &[&dyn Fn(u32) -> bool]) -> R<bool> {
  for (i, k) in ks.iter().enumerate() {
    if !k(c.at(i)?) {
      // the rest is not needed for the answer, but is looked at
      for j in i + 1..ks.len() {
        c.at(j)?;
      }
      return Ok(false);
    }
  }
  Ok(true)
}

#[derive(Parse)]
#[token(Tok)]
#[starts_with(Tk![a], Tk![b])]
struct StartAb {
  x: AB,
  y: AB,
}
impl Spec for StartAb {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "StartAb"; AB, AB)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    upcoming(c, &[&|k| k == 0, &|k| k == 1])
  }
  fn show(&self) -> String {
    shown!("StartAb"; self.x, self.y)
  }
}

#[derive(Parse)]
#[token(Tok)]
#[starts_with(Tk![low], Tk![c], Tk![ab])]
enum StartLow {
  P(B, Is<7>),
  Q(Is<7>, Is<7>, A),
}
impl Spec for StartLow {
  fn rparse(c: &mut Cur) -> R<String> {
    if B::rmaybe(c)? {
      fields!(c, "P"; B, Is<7>)
    } else {
      fields!(c, "Q"; Is<7>, Is<7>, A)
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    upcoming(c, &[&|k| k < 2, &|k| k == 2, &|k| k < 2])
  }
  fn show(&self) -> String {
    match self {
      Self::P(a, b) => shown!("P"; a, b),
      Self::Q(a, b, c) => shown!("Q"; a, b, c),
    }
  }
}

#[derive(Parse)]
#[token(Tok)]
#[starts_with(Tk![c])]
struct StartUnit;
impl Spec for StartUnit {
  fn rparse(_: &mut Cur) -> R<String> {
    Ok("()".into())
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    upcoming(c, &[&|k| k == 2])
  }
  fn show(&self) -> String {
    "()".into()
  }
}

impl Spec for Gen<1, 2> {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Gen"; A, B)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    A::rmaybe(c)
  }
  fn show(&self) -> String {
    shown!("Gen"; self.t, self.u)
  }
}

impl Spec for GenChoice<3> {
  fn rparse(c: &mut Cur) -> R<String> {
    if AB::rmaybe(c)? {
      fields!(c, "First"; AB, AB)
    } else {
      let o = opt::<AB>(c)?;
      Ok(format!("Second({o})"))
    }
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(AB::rmaybe(c)? || true)
  }
  fn show(&self) -> String {
    match self {
      Self::First(a, b) => shown!("First"; a, b),
      Self::Second(a) => shown!("Second"; a),
    }
  }
}

/// The generated token types themselves.
macro_rules! tk_spec {
  ($($t:ident: $ok:expr;)*) => {$(
    impl Spec for $t {
      fn rparse(c: &mut Cur) -> R<String> {
        rtoken(c, $ok)
      }
      fn rmaybe(c: &Cur) -> R<bool> {
        let f: fn(u32) -> bool = $ok;
        Ok(f(c.at(0)?))
      }
      fn show(&self) -> String {
        show_tok(&self.0)
      }
    }
  )*};
}
type TA = Tk![a];
type TAb = Tk![ab];
type TLow = Tk![low];
tk_spec! { TA: |k| k == 0; TAb: |k| k < 2; TLow: |k| k < 2; }

// many fields, many variants

#[derive(Parse)]
#[token(Tok)]
struct Long(Option<A>, Option<B>, A, Vec<C>, Option<B>, Option<A>, Vec<B>, Option<C>, Option<AB>, C, Option<A>);
impl Spec for Long {
  fn rparse(c: &mut Cur) -> R<String> {
    fields!(c, "Long"; Option<A>, Option<B>, A, Vec<C>, Option<B>, Option<A>, Vec<B>, Option<C>, Option<AB>, C, Option<A>)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Option::<A>::rmaybe(c)
  }
  fn show(&self) -> String {
    shown!("Long"; self.0, self.1, self.2, self.3, self.4, self.5, self.6, self.7, self.8, self.9, self.10)
  }
}
macro_rules! pairs {
  ($($n:ident $x:tt $y:tt $k:literal $l:literal;)*) => {$(
    #[derive(Parse)]
    #[token(Tok)]
    #[starts_with(Tk![$x], Tk![$y])]
    struct $n(Is<7>, Is<7>);
    impl Spec for $n {
      fn rparse(c: &mut Cur) -> R<String> {
        fields!(c, stringify!($n); Is<7>, Is<7>)
      }
      fn rmaybe(c: &Cur) -> R<bool> {
        upcoming(c, &[&|k| k == $k, &|k| k == $l])
      }
      fn show(&self) -> String {
        shown!(stringify!($n); self.0, self.1)
      }
    }
  )*
    #[derive(Parse)]
    #[token(Tok)]
    enum Many {
      $($n { it: $n },)*
      Last(C, Is<7>),
    }
    impl Spec for Many {
      fn rparse(c: &mut Cur) -> R<String> {
        $(if $n::rmaybe(c)? {
          return fields!(c, stringify!($n); $n);
        })*
        fields!(c, "Last"; C, Is<7>)
      }
      fn rmaybe(c: &Cur) -> R<bool> {
        Ok($($n::rmaybe(c)? ||)* C::rmaybe(c)?)
      }
      fn show(&self) -> String {
        match self {
          $(Self::$n { it } => shown!(stringify!($n); it),)*
          Self::Last(a, b) => shown!("Last"; a, b),
        }
      }
    }
  };
}
pairs! {
  Paa a a 0 0;
  Pab a b 0 1;
  Pac a c 0 2;
  Pba b a 1 0;
  Pbb b b 1 1;
  Pbc b c 1 2;
  Pca c a 2 0;
  Pcb c b 2 1;
  Pcc c c 2 2;
}

pub fn entries() -> Vec<Entry> {
  macro_rules! es {
    ($($t:ty;)*) => { vec![$(entry::<$t>(stringify!($t)),)*] };
  }
  let mut v = es! {
    Named; Unnamed; Unit; EmptyNamed; EmptyTuple; Choice; WithUnit; Single; UnitFirst; MidUnit; Attrs; Expr; Nested;
    StartAb; StartLow; StartUnit; TA; TAb; TLow; Gen<1, 2>; GenChoice<3>; Params<'static, 'static, One>; ParamsOr<'static, One, 5>;
  };
  v.extend(es! { Long; Many; Vec<Many>; (Named, C); NonEmptySeq<Choice>; Option<StartAb>; Vec<Single>; (Unit, A); Option<Choice>; });
  v
}

pub fn c22(rep: &mut Rep) {
  let es = entries();
  // recursion first, then everything on short streams
  for depth in [0usize, 1, 5, 200] {
    let mut items = vec![Item::T(1); depth];
    items.push(Item::T(0));
    items.extend(vec![Item::T(2); depth]);
    let e = es.iter().find(|e| e.name == "Expr").unwrap();
    if !(e.parse)(rep, e.name, &items) {
      return;
    }
  }
  if explore(rep, &es, false, 22, 0.5) {
    explore(rep, &es, true, 23, 0.85);
  }
}
