//! C26: code generated by `derive(Spanned)`.
use crate::spans::{check_span, leaf_span, Parts, L};
use laps::span::{FileType, Location, Span, Spanned, TrySpan};
use vcommon::{guard_d, Rep, Rng};

// ---------------------------------------------------------------- C26

type S = L<7>;

#[derive(Spanned)]
struct S1 {
  a: S,
}
#[derive(Spanned)]
struct S2(S, S);
#[derive(Spanned)]
struct S3 {
  a: S,
  #[try_span]
  b: Option<S>,
}
#[derive(Spanned)]
struct S4 {
  /// It may be missing.
  #[try_span]
  #[allow(dead_code)]
  a: Option<S>,
  #[allow(dead_code)]
  b: S,
  #[allow(dead_code)]
  #[try_span]
  c: Option<S>,
}
#[derive(Spanned)]
struct S5(#[try_span] Vec<Option<S>>, #[try_span] Option<S>, S, #[try_span] Option<S>, #[try_span] Vec<Option<S>>);
#[derive(Spanned)]
struct S6<T, U>
where
  T: TrySpan,
  U: Spanned,
{
  #[try_span]
  first: T,
  x: U,
  y: U,
  #[try_span]
  last: T,
}
#[derive(Spanned)]
struct S7(S, #[try_span] Option<S>, S);
#[derive(Spanned)]
struct S8(#[try_span] Option<S>, S, #[try_span] Option<S>, S);
/// Fields named like the generated bindings.
#[derive(Spanned)]
struct S9 {
  #[try_span]
  span: Option<S>,
  #[try_span]
  f0: Option<S>,
  laps: S,
  #[try_span]
  std: Option<S>,
  #[try_span]
  r#type: Option<S>,
}
/// Many fields.
#[derive(Spanned)]
struct S10(#[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, S, S, S, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>, #[try_span] Option<S>);
#[derive(Spanned)]
enum E1 {
  A(S, S),
  B {
    #[try_span]
    r#match: Option<S>,
    y: S,
  },
  C(#[try_span] Option<S>, #[try_span] Option<S>, S, #[try_span] Option<S>),
  D(Box<E1>, S),
  E(#[try_span] Vec<S>, Box<S2>),
}

macro_rules! parts_struct {
  ($($t:ident { $($f:tt)* })*) => {$(
    impl Parts for $t {
      fn parts(&self, v: &mut Vec<Span>) {
        parts_struct!(@ self v $($f)*);
      }
    }
  )*};
  (@ $s:ident $v:ident $($f:tt)*) => { $($s.$f.parts($v);)* };
}
parts_struct! {
  S1 { a } S2 { 0 1 } S3 { a b } S4 { a b c } S5 { 0 1 2 3 4 } S7 { 0 1 2 } S8 { 0 1 2 3 } S9 { span f0 laps std r#type }
  S10 { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 }
}
impl<T: TrySpan + Parts, U: Spanned + Parts> Parts for S6<T, U> {
  fn parts(&self, v: &mut Vec<Span>) {
    self.first.parts(v);
    self.x.parts(v);
    self.y.parts(v);
    self.last.parts(v);
  }
}
impl Parts for E1 {
  fn parts(&self, v: &mut Vec<Span>) {
    match self {
      E1::A(a, b) => {
        a.parts(v);
        b.parts(v)
      }
      E1::B { r#match, y } => {
        r#match.parts(v);
        y.parts(v)
      }
      E1::C(a, b, c, d) => {
        a.parts(v);
        b.parts(v);
        c.parts(v);
        d.parts(v)
      }
      E1::D(e, s) => {
        e.parts(v);
        s.parts(v)
      }
      E1::E(a, b) => {
        a.parts(v);
        b.parts(v)
      }
    }
  }
}

pub fn c26(rep: &mut Rep) {
  rep.bound("ten structures and one enumeration with up to 17 fields, every combination of present and absent fields, fields from several sources, in and out of order");
  let mut rng = rep.rng(26);
  let mut k = 0;
  while rep.time_left(0.85) && k < 100_000 {
    k += 1;
    let mut mask = if k < 64 { k } else { rng.next() };
    let base = rng.below(30) as u32;
    let mut n = 0;
    let mut desc = String::new();
    let mut s = |rng: &mut Rng| -> S {
      n += 1;
      L(leaf_span(base + if rng.chance(1, 5) { rng.below(20) as u32 + 1 } else { n }))
    };
    let mut o = |s: &mut dyn FnMut(&mut Rng) -> S, rng: &mut Rng| -> Option<S> {
      mask = mask.rotate_right(1);
      let p = mask >> 63 == 1;
      desc.push(if p { '1' } else { '0' });
      p.then(|| s(rng))
    };
    macro_rules! one {
      ($name:expr, $v:expr) => {{
        let v = $v;
        let mut parts = vec![];
        v.parts(&mut parts);
        let ctx = || format!("span of {} with parts {parts:?}", $name);
        rep.case(&ctx(), parts.len() >= 2);
        rep.sample(ctx);
        match guard_d(ctx, || v.span()) {
          Ok(g) => {
            if !check_span(rep, &ctx, Some(g), &parts) {
              return;
            }
          }
          Err(p) => {
            rep.fail(format!("{}: {p}", ctx()));
            return;
          }
        }
      }};
    }
    let r = &mut rng;
    one!("S1", S1 { a: s(r) });
    one!("S2", S2(s(r), s(r)));
    one!("S3", S3 { a: s(r), b: o(&mut s, r) });
    one!("S4", S4 { a: o(&mut s, r), b: s(r), c: o(&mut s, r) });
    one!("S5", S5(vec![o(&mut s, r), o(&mut s, r)], o(&mut s, r), s(r), o(&mut s, r), vec![o(&mut s, r), o(&mut s, r)]));
    one!("S6", S6 { first: o(&mut s, r), x: s(r), y: s(r), last: o(&mut s, r) });
    one!("S6 of structures", S6 { first: vec![S2(s(r), s(r))], x: S1 { a: s(r) }, y: S1 { a: s(r) }, last: vec![] });
    one!("S7", S7(s(r), o(&mut s, r), s(r)));
    one!("S8", S8(o(&mut s, r), s(r), o(&mut s, r), s(r)));
    one!("S9", S9 { span: o(&mut s, r), f0: o(&mut s, r), laps: s(r), std: o(&mut s, r), r#type: o(&mut s, r) });
    one!("E1::A", E1::A(s(r), s(r)));
    one!("S10", S10(o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), s(r), s(r), s(r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r), o(&mut s, r)));
    one!("E1::B", E1::B { r#match: o(&mut s, r), y: s(r) });
    one!("E1::C", E1::C(o(&mut s, r), o(&mut s, r), s(r), o(&mut s, r)));
    one!("E1::D", E1::D(Box::new(E1::B { r#match: o(&mut s, r), y: s(r) }), s(r)));
    one!("E1::E", E1::E(o(&mut s, r).into_iter().collect(), Box::new(S2(s(r), s(r)))));
  }
}
