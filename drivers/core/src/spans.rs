//! C25, C27-C29: spans of composite values, span operations, reports.
use crate::cap::{Capture, Scratch};
use crate::tokens::{Bare, Is, Item, Tok};
use laps::ast::*;
use laps::parse::Parse;
use laps::span::{Error, FileType, Location, Result, Span, Spanned, TrySpan};
use laps::token::TokenStream;
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};
use std::cell::RefCell;
use vcommon::{guard_d, Rep, Rng};

// ---------------------------------------------------------------- parts

thread_local! {
  static SOURCES: RefCell<Vec<Span>> = RefCell::new((0..3).map(|_| Span::new(FileType::Buffer)).collect());
}

/// A span of its own for the n-th token: several lines, several sources.
pub fn leaf_span(n: u32) -> Span {
  SOURCES.with(|s| {
    let mut sp = s.borrow()[n as usize % 3].clone();
    let mut end = sp.clone();
    end.update_loc(Location { line: n + n % 2, col: 100 + n });
    sp.update_loc(Location { line: n, col: n * 3 + 1 });
    sp.update_end(end);
    sp
  })
}

/// A leaf made of one token whose kind is in the mask, with its own span.
#[derive(Clone, Debug, PartialEq)]
pub struct L<const M: u32>(pub Span);
impl<const M: u32, TS: TokenStream<Token = Tok>> Parse<TS> for L<M> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    let t = Is::<M>::parse(tokens)?.0;
    Ok(L(leaf_span(t.span.start().line)))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Is::<M>::maybe(tokens)
  }
}
impl<const M: u32> Spanned for L<M> {
  fn span(&self) -> Span {
    self.0.clone()
  }
}

/// The spans of the leaves of a value, in order.
pub trait Parts {
  fn parts(&self, v: &mut Vec<Span>);
}
impl<const M: u32> Parts for L<M> {
  fn parts(&self, v: &mut Vec<Span>) {
    v.push(self.0.clone())
  }
}
impl<T: Parts> Parts for Box<T> {
  fn parts(&self, v: &mut Vec<Span>) {
    (**self).parts(v)
  }
}
impl<T: Parts> Parts for Option<T> {
  fn parts(&self, v: &mut Vec<Span>) {
    if let Some(t) = self {
      t.parts(v)
    }
  }
}
impl<T: Parts> Parts for Vec<T> {
  fn parts(&self, v: &mut Vec<Span>) {
    self.iter().for_each(|t| t.parts(v))
  }
}
macro_rules! parts_of_seq {
  ($($t:ident<$($g:ident),*>;)*) => {$(
    impl<T: Parts $(, $g)*> Parts for $t<T $(, $g)*> {
      fn parts(&self, v: &mut Vec<Span>) {
        self.0.parts(v)
      }
    }
  )*};
}
parts_of_seq! { NonEmptySeq<>; SepSeq<S>; NonEmptySepSeq<S>; OptSepSeq<S>; NonEmptyOptSepSeq<S>; }
impl<T: Parts, S: Parts> Parts for NonEmptySepList<T, S> {
  fn parts(&self, v: &mut Vec<Span>) {
    match self {
      Self::One(t) => t.parts(v),
      Self::More(t, s, l) => {
        t.parts(v);
        s.parts(v);
        l.parts(v)
      }
    }
  }
}
impl<T: Parts, S: Parts> Parts for NonEmptyOptSepList<T, S> {
  fn parts(&self, v: &mut Vec<Span>) {
    match self {
      Self::One(t) => t.parts(v),
      Self::OneWithSep(t, s) => {
        t.parts(v);
        s.parts(v)
      }
      Self::More(t, s, l) => {
        t.parts(v);
        s.parts(v);
        l.parts(v)
      }
    }
  }
}
impl<A: Parts, B: Parts, C: Parts> Parts for Quoted<A, B, C> {
  fn parts(&self, v: &mut Vec<Span>) {
    self.0.parts(v);
    self.1.parts(v);
    self.2.parts(v)
  }
}
macro_rules! parts_prefix {
  ($($t:ident)*) => {$(
    impl<P: Parts, T: Parts> Parts for $t<P, T> {
      fn parts(&self, v: &mut Vec<Span>) {
        self.0.parts(v);
        self.1.parts(v)
      }
    }
  )*};
}
parts_prefix!(OptPrefix OptTokenPrefix TokenPrefix);
macro_rules! parts_tuple {
  ($($t:ident)*) => {
    impl<$($t: Parts),*> Parts for ($($t,)*) {
      #[allow(non_snake_case)]
      fn parts(&self, v: &mut Vec<Span>) {
        let ($($t,)*) = self;
        $($t.parts(v);)*
      }
    }
  };
}
macro_rules! parts_tuples {
  ($a:ident) => { parts_tuple!($a); };
  ($a:ident $($t:ident)+) => { parts_tuple!($a $($t)+); parts_tuples!($($t)+); };
}
parts_tuples!(A B C D E F G H I J K M N O P Q R S T U V W X Y Z A1);

pub fn same_source(a: &Span, b: &Span) -> bool {
  let (mut a, mut b) = (a.clone(), b.clone());
  let l = Location { line: 1, col: 1 };
  a.update_loc(l);
  b.update_loc(l);
  a == b
}

/// Compares a span with the one from the first to the last of `parts`.
pub fn check_span(rep: &mut Rep, ctx: &dyn Fn() -> String, got: Option<Span>, parts: &[Span]) -> bool {
  match (parts.first(), parts.last(), got) {
    (Some(f), Some(l), Some(g)) => rep.ensure(g.start() == f.start() && g.end() == l.end() && same_source(&g, f), || {
      format!(
        "{}\n  expected: {}-{} with the source of the first part\n  observed: {g}, {} source",
        ctx(),
        f.start(),
        l.end(),
        if same_source(&g, f) { "the same" } else { "a different" }
      )
    }),
    (None, None, None) => true,
    (f, _, g) => {
      let (f, g) = (f.cloned(), g);
      rep.ensure(false, || format!("{}: parts start with {f:?}, observed span {g:?}", ctx()))
    }
  }
}

struct SEntry {
  name: &'static str,
  run: fn(&mut Rep, &str, &[Item]) -> bool,
}

fn run_value<T: Parse<Bare> + Parts>(rep: &mut Rep, name: &str, items: &[Item], span: impl Fn(&T) -> Option<Span>) -> bool {
  let ctx = || format!("span of {name} parsed from {items:?}");
  let r = guard_d(&ctx, || {
    let v = T::parse(&mut Bare::new(items)).ok()?;
    let mut parts = vec![];
    v.parts(&mut parts);
    Some((span(&v), parts))
  });
  match r {
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
    Ok(None) => true,
    Ok(Some((got, parts))) => {
      rep.case(&(name, items), parts.len() >= 2);
      rep.sample(|| format!("{name} from {items:?} has {} parts and span {got:?}", parts.len()));
      check_span(rep, &ctx, got, &parts)
    }
  }
}

macro_rules! spanned_entries {
  ($($t:ty;)*) => { vec![$(SEntry { name: stringify!($t), run: |r, n, i| run_value::<$t>(r, n, i, |v| Some(v.span())) && run_value::<$t>(r, n, i, |v| v.try_span()) },)*] };
}
macro_rules! try_entries {
  ($($t:ty;)*) => { vec![$(SEntry { name: stringify!($t), run: |r, n, i| run_value::<$t>(r, n, i, |v| v.try_span()) },)*] };
}

type A = L<1>;
type B = L<2>;
type C = L<4>;
type AB = L<3>;

fn leaves<const N: usize>(seed: u32) -> [L<7>; N] {
  std::array::from_fn(|i| L(leaf_span(seed + i as u32 + 1)))
}

macro_rules! tuple_spans {
  ($rep:ident; $($n:literal: $($x:ident)*;)*) => {$(
    for seed in [0u32, 1, 2, 7, 100] {
      let [$($x),*] = leaves::<$n>(seed);
      let t = ($($x,)*);
      let mut parts = vec![];
      t.parts(&mut parts);
      let ctx = || format!("span of the tuple of {} parts", $n);
      $rep.case(&("tuple", $n, seed), $n > 1);
      match guard_d(&ctx, || (t.span(), t.try_span(), Box::new(t.clone()).span(), Some(t.clone()).try_span())) {
        Ok((s, ts, b, o)) => for g in [Some(s), ts, Some(b), o] {
          if !check_span($rep, &ctx, g, &parts) { return; }
        },
        Err(p) => { $rep.ensure(false, || format!("{}: {p}", ctx())); return; }
      }
    }
  )*};
}

pub fn c25(rep: &mut Rep) {
  tuple_spans! { rep;
    1: a; 2: a b; 3: a b c; 4: a b c d; 5: a b c d e; 6: a b c d e f;
    7: a b c d e f g; 8: a b c d e f g h; 9: a b c d e f g h i; 10: a b c d e f g h i j;
    11: a b c d e f g h i j k; 12: a b c d e f g h i j k l;
  }
  macro_rules! big {
    ($($n:tt)*) => {$( big_tuple!(rep; $n); )*};
  }
  macro_rules! big_tuple {
    ($r:ident; 13) => { big_tuple!(@ 13; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 14) => { big_tuple!(@ 14; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 15) => { big_tuple!(@ 15; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 16) => { big_tuple!(@ 16; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 17) => { big_tuple!(@ 17; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 18) => { big_tuple!(@ 18; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 19) => { big_tuple!(@ 19; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 20) => { big_tuple!(@ 20; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 21) => { big_tuple!(@ 21; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 22) => { big_tuple!(@ 22; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 23) => { big_tuple!(@ 23; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 24) => { big_tuple!(@ 24; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 25) => { big_tuple!(@ 25; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    ($r:ident; 26) => { big_tuple!(@ 26; L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7 L7) };
    (@ $n:literal; $($t:ident)*) => {
      for shift in 0..4 {
        let items: Vec<Item> = (0..$n + 2).map(|i| Item::T((i + shift) % 3)).collect();
        if !run_value::<($($t,)*)>(rep, concat!("the tuple of ", stringify!($n), " parts"), &items, |v| Some(v.span())) {
          return;
        }
      }
    };
  }
  type L7 = L<7>;
  big!(13 14 15 16 17 18 19 20 21 22 23 24 25 26);

  let mut es: Vec<SEntry> = spanned_entries! {
    A; Box<A>; Box<Box<A>>; NonEmptySeq<A>; NonEmptySeq<AB>; NonEmptySeq<(A, B)>;
    NonEmptySepSeq<A, B>; NonEmptySepSeq<(A, C), B>; NonEmptyOptSepSeq<A, B>; NonEmptyOptSepSeq<(A, C), B>; NonEmptySepSeq<AB, C>;
    NonEmptySepList<A, B>; NonEmptySepList<(A, C), B>; NonEmptyOptSepList<A, B>; NonEmptyOptSepList<(A, C), B>; NonEmptyOptSepList<AB, C>;
    Quoted<A, B, C>; Quoted<A, Option<B>, C>; Quoted<A, SepSeq<A, B>, C>; Quoted<A, OptSepSeq<A, B>, AB>;
    OptPrefix<A, B>; OptPrefix<A, AB>; OptTokenPrefix<A, B>; OptTokenPrefix<A, (AB, C)>; TokenPrefix<A, B>; TokenPrefix<A, TokenPrefix<B, C>>;
    (A, Vec<B>, A); (A, Option<B>, C); (A, SepSeq<A, B>, C); ((A, B), C); (A, (B, C)); NonEmptySeq<OptPrefix<A, B>>; Box<NonEmptySeq<A>>;
  };
  es.extend::<Vec<SEntry>>(try_entries! {
    Option<A>; Vec<A>; Option<Option<A>>; Vec<(A, B)>; Option<Vec<A>>; SepSeq<A, B>; OptSepSeq<A, B>; SepSeq<(A, C), B>; OptSepSeq<(A, C), B>;
    SepSeq<Option<A>, B>; SepSeq<Vec<A>, B>; SepList<A, B>; OptSepList<A, B>; Option<SepSeq<A, B>>; SepSeq<SepSeq<A, B>, C>; SepSeq<OptSepSeq<A, B>, C>; SepSeq<Option<Option<A>>, B>;
  });
  let max = if rep.thorough { 8 } else { 7 };
  rep.bound(&format!("{} composite types parsed from every stream of length <= {max} over three kinds, tuples of 1 to 26 parts, random nested optional values", es.len()));
  for len in 0..=max {
    for code in 0..3usize.pow(len) {
      let mut c = code;
      let items: Vec<Item> = (0..len)
        .map(|_| {
          let x = c % 3;
          c /= 3;
          Item::T(x as u32)
        })
        .collect();
      for e in &es {
        if !(e.run)(rep, e.name, &items) {
          return;
        }
      }
    }
    if !rep.time_left(0.6) {
      break;
    }
  }
  // nested optional values built directly
  let mut rng = rep.rng(25);
  let mut k = 0u64;
  while rep.time_left(0.85) && k < 200_000 {
    k += 1;
    let mut n = rng.below(50) as u32;
    let mut gen = |rng: &mut Rng| {
      n += 1;
      rng.chance(1, 2).then(|| L::<7>(leaf_span(n)))
    };
    let v: Vec<Option<L<7>>> = (0..rng.below(6)).map(|_| gen(&mut rng)).collect();
    let vv: Vec<Vec<Option<L<7>>>> = (0..rng.below(4)).map(|_| (0..rng.below(3)).map(|_| gen(&mut rng)).collect()).collect();
    let vb: Vec<Option<Vec<Option<L<7>>>>> = (0..rng.below(4)).map(|_| rng.chance(1, 2).then(|| (0..rng.below(3)).map(|_| gen(&mut rng)).collect())).collect();
    macro_rules! one {
      ($v:expr) => {{
        let mut parts = vec![];
        $v.parts(&mut parts);
        let ctx = || format!("span of {:?}", $v);
        rep.case(&ctx(), parts.len() >= 2);
        match guard_d(&ctx, || $v.try_span()) {
          Ok(g) => {
            if !check_span(rep, &ctx, g, &parts) {
              return;
            }
          }
          Err(p) => {
            rep.ensure(false, || format!("{}: {p}", ctx()));
            return;
          }
        }
      }};
    }
    one!(v);
    one!(vv);
    one!(vb);
  }
}

// ---------------------------------------------------------------- operations

pub fn c27(rep: &mut Rep) {
  let mut rng = rep.rng(27);
  rep.bound("random histories of up to 12 span operations over three sources, characters and bytes of every class, locations up to the limits of the line and column types");
  let chars = ['a', '\n', ' ', '\r', '\t', '\u{0}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{10ffff}', '字', '\u{1}', '\u{10a}', '\u{a0a}', '\u{d}'];
  let mut k = 0u64;
  while rep.time_left(0.85) && k < 400_000 {
    k += 1;
    let seed_case = k;
    let n = rng.range(1, 12);
    let mut log: Vec<String> = vec![];
    type M = (usize, (u32, u32), (u32, u32));
    let sources: Vec<Span> = (0..3).map(|i| Span::new(if i == 0 { FileType::Stdin } else { FileType::Buffer })).collect();
    let mut pool: Vec<(Span, M)> = sources.iter().enumerate().map(|(i, s)| (s.clone(), (i, (1, 0), (1, 0)))).collect();
    let loc = |rng: &mut Rng| Location {
      line: *rng.pick(&[0, 1, 1, 2, 3, 7, 100, u32::MAX - 40, u32::MAX - 1, u32::MAX]),
      col: *rng.pick(&[0, 0, 1, 2, 5, 80, u32::MAX - 40, u32::MAX - 1, u32::MAX]),
    };
    let res = guard_d(
      || format!("history {seed_case} of span operations"),
      || -> std::result::Result<(), String> {
        let near = |l: (u32, u32)| l.0 > u32::MAX - 20 || l.1 > u32::MAX - 20;
        let upd = |l: (u32, u32), nl: bool| if nl { (l.0 + 1, 0) } else { (l.0, l.1 + 1) };
        for _ in 0..n {
          let i = rng.below(pool.len());
          let j = rng.below(pool.len());
          let (s, m) = pool[i].clone();
          let (t, mt) = pool[j].clone();
          match rng.below(8) {
            0 | 1 if !near(m.1) => {
              let c = *rng.pick(&chars);
              log.push(format!("#{}=#{i}.update({c:?})", pool.len()));
              let mut s = s;
              s.update(&c);
              let l = upd(m.1, c == '\n');
              pool.push((s, (m.0, l, l)));
            }
            2 if !near(m.1) => {
              let b = *rng.pick(&[b'a', b'\n', 0, 13, 0x8a, 255, 10, 11]);
              log.push(format!("#{}=#{i}.update({b}u8)", pool.len()));
              let mut s = s;
              s.update(&b);
              let l = upd(m.1, b == 10);
              pool.push((s, (m.0, l, l)));
            }
            3 if !near(m.1) => {
              let c = *rng.pick(&chars);
              log.push(format!("#{}=#{i}.into_updated({c:?})", pool.len()));
              let l = upd(m.1, c == '\n');
              pool.push((s.into_updated(&c), (m.0, l, l)));
            }
            4 => {
              let l = loc(&mut rng);
              log.push(format!("#{}=#{i}.update_loc({l})", pool.len()));
              let mut s = s;
              s.update_loc(l);
              pool.push((s, (m.0, (l.line, l.col), (l.line, l.col))));
            }
            5 => {
              log.push(format!("#{}=#{i}.update_end(#{j})", pool.len()));
              let mut s = s;
              if rng.chance(1, 2) {
                s.update_end(&t);
              } else {
                s.update_end(t);
              }
              pool.push((s, (m.0, m.1, mt.2)));
            }
            6 => {
              log.push(format!("#{}=#{i}.into_end_updated(#{j})", pool.len()));
              let s = if rng.chance(1, 2) { s.into_end_updated(&t) } else { s.into_end_updated(t) };
              pool.push((s, (m.0, m.1, mt.2)));
            }
            _ => {
              log.push(format!("#{}=#{i}.clone()", pool.len()));
              pool.push((s, m));
            }
          }
        }
        let m2 = |s: &Span| ((s.start().line, s.start().col), (s.end().line, s.end().col));
        for (i, (s, m)) in pool.iter().enumerate() {
          if m2(s) != (m.1, m.2) {
            return Err(format!("span #{i} is {s}, expected {}:{}-{}:{}", m.1 .0, m.1 .1, m.2 .0, m.2 .1));
          }
          let want = format!("{}:{}-{}:{}", m.1 .0, m.1 .1, m.2 .0, m.2 .1);
          if s.to_string() != want {
            return Err(format!("span #{i} prints as {s}, expected {want}"));
          }
          if matches!(s.file_type(), FileType::Stdin) != (m.0 == 0) {
            return Err(format!("span #{i} has another source"));
          }
          for (j, (t, mt)) in pool.iter().enumerate() {
            if (s == t) != (m == mt) {
              return Err(format!("#{i} == #{j} is {}, expected {}", s == t, m == mt));
            }
            let line = m.2 .0 == mt.1 .0;
            if s.is_in_same_line_as(t) != line || s.is_in_same_line_as(t.clone()) != line {
              return Err(format!("#{i}.is_in_same_line_as(#{j}) is {}, expected {line} ({s}, {t})", !line));
            }
          }
        }
        Ok(())
      },
    );
    rep.case(&log, true);
    rep.sample(|| log.join(" "));
    match res {
      Ok(Ok(())) => {}
      Ok(Err(e)) | Err(e) => {
        rep.fail(format!("three new spans, then {}: {e}", log.join(", ")));
        return;
      }
    }
  }
}

// ---------------------------------------------------------------- counters

fn ret_err(s: &Span) -> Result<u32> {
  return_error!(s, "returned {}", 1)
}

/// One report of kind `k`; `Some(fatal)` when it returns an error.
fn report(s: &Span, k: usize) -> (Option<bool>, &'static str) {
  let f = |e: Error| Some(e.is_fatal());
  match k {
    0 => (f(s.log_raw_error(format_args!("m {}", 1))), "log_raw_error"),
    1 => (f(s.log_raw_fatal_error(format_args!("m"))), "log_raw_fatal_error"),
    2 => {
      s.log_raw_warning(format_args!("m"));
      (None, "log_raw_warning")
    }
    3 => (f(s.log_error(format_args!("m"))), "log_error"),
    4 => (f(s.log_fatal_error(format_args!("m"))), "log_fatal_error"),
    5 => {
      s.log_warning(format_args!("m"));
      (None, "log_warning")
    }
    6 => (f(log_raw_error!(s, "m {}", 1)), "log_raw_error!"),
    7 => (f(log_raw_fatal_error!(s, "m")), "log_raw_fatal_error!"),
    8 => {
      log_raw_warning!(s, "m");
      (None, "log_raw_warning!")
    }
    9 => (f(log_error!(s, "m {}", 2)), "log_error!"),
    10 => (f(log_fatal_error!(s, "m")), "log_fatal_error!"),
    11 => {
      log_warning!(s, "m");
      (None, "log_warning!")
    }
    12 => (ret_err(s).err().map(|e| e.is_fatal()), "return_error!"),
    _ => {
      s.log_summary();
      (None, "log_summary")
    }
  }
}

pub fn c28(rep: &mut Rep) {
  const WANT: [(usize, usize, Option<bool>); 14] = [
    (1, 0, Some(false)),
    (1, 0, Some(true)),
    (0, 1, None),
    (1, 0, Some(false)),
    (1, 0, Some(true)),
    (0, 1, None),
    (1, 0, Some(false)),
    (1, 0, Some(true)),
    (0, 1, None),
    (1, 0, Some(false)),
    (1, 0, Some(true)),
    (0, 1, None),
    (1, 0, Some(false)),
    (0, 0, None),
  ];
  rep.bound("random histories of up to 30 reports of all 14 kinds on clones and updates of spans of three sources, single-threaded, and from up to 8 threads on shared sources");
  let dir = Scratch::new("c28");
  let mut cap = Capture::new(&dir);
  let file = dir.0.join("src.txt");
  std::fs::write(&file, "one\ntwo\nthree\n").unwrap();
  let mut rng = rep.rng(28);
  let types = || [FileType::Buffer, FileType::Stdin, FileType::File(file.clone().into_boxed_path())];
  let mut k = 0;
  while rep.time_left(0.55) && k < 60_000 {
    k += 1;
    let mut pool: Vec<(Span, usize)> = types().into_iter().enumerate().map(|(i, t)| (Span::new(t), i)).collect();
    let mut counts = [(0usize, 0usize); 3];
    let mut log = vec![];
    for _ in 0..rng.range(1, 30) {
      let i = rng.below(pool.len());
      let (s, src) = pool[i].clone();
      match rng.below(5) {
        0 => {
          let mut s = s;
          s.update(&'a');
          pool.push((s, src));
        }
        1 => {
          let (t, _) = &pool[rng.below(pool.len())];
          pool.push((s.into_end_updated(t), src));
        }
        _ => {
          let kind = rng.below(14);
          let r = guard_d(|| format!("report {kind}"), || report(&s, kind));
          let (err, name) = match r {
            Ok(x) => x,
            Err(p) => {
              rep.fail(format!("{} then report {kind} on source {src}: {p}", log.join(", ")));
              return;
            }
          };
          log.push(format!("{name} on source {src}"));
          counts[src].0 += WANT[kind].0;
          counts[src].1 += WANT[kind].1;
          if err != WANT[kind].2 {
            rep.fail(format!("{name} returned fatal={err:?}, expected {:?}", WANT[kind].2));
            return;
          }
        }
      }
      for (s, src) in &pool {
        let got = (s.error_num(), s.warning_num());
        if got != counts[*src] {
          rep.fail(format!("after {}: source {src} counts {got:?} errors and warnings, expected {:?}", log.join(", "), counts[*src]));
          return;
        }
      }
    }
    rep.case(&log, log.len() >= 2);
    rep.sample(|| log.join(", "));
    if k % 8 == 0 {
      for (i, (s, _)) in pool.iter().take(3).enumerate() {
        let (_, out) = cap.run(|| s.log_summary());
        let words: Vec<&str> = out.split(|c: char| !c.is_ascii_alphanumeric()).collect();
        let number = |what: &str| words.windows(2).find(|w| w[1].starts_with(what)).map(|w| w[0].parse::<usize>().ok());
        for (n, what) in [(counts[i].0, "error"), (counts[i].1, "warning")] {
          let noun = if n == 1 { what.to_string() } else { format!("{what}s") };
          if number(what) != (n != 0).then_some(Some(n)) || n != 0 && !words.contains(&noun.as_str()) {
            rep.fail(format!("after {}: the summary of source {i} is {out:?}, expected {} errors and {} warnings", log.join(", "), counts[i].0, counts[i].1));
            return;
          }
        }
      }
    }
  }
  // several threads
  let mut round = 0;
  while rep.time_left(0.85) && round < 400 {
    round += 1;
    let shared: Vec<Span> = types().into_iter().take(2).map(Span::new).collect();
    let threads = rng.range(2, 8);
    let per = rng.range(10, 200);
    let mut want = [(0, 0); 2];
    let plans: Vec<Vec<(usize, usize)>> = (0..threads).map(|_| (0..per).map(|_| (rng.below(2), rng.below(14))).collect()).collect();
    for p in plans.iter().flatten() {
      want[p.0].0 += WANT[p.1].0;
      want[p.0].1 += WANT[p.1].1;
    }
    std::thread::scope(|sc| {
      for p in &plans {
        let spans = shared.clone();
        sc.spawn(move || {
          for (s, k) in p {
            report(&spans[*s], *k);
          }
        });
      }
    });
    rep.case(&("threads", round, threads, per), true);
    for i in 0..2 {
      let got = (shared[i].error_num(), shared[i].warning_num());
      if got != want[i] {
        rep.fail(format!("{threads} threads with {per} reports each: source {i} counts {got:?} errors and warnings, expected {:?}", want[i]));
        return;
      }
    }
  }
}

// ---------------------------------------------------------------- excerpts

/// What a terminal-width-1 line looks like in the excerpt.
fn plain(line: &str) -> bool {
  line.chars().all(|c| (' '..='~').contains(&c))
}

fn excerpt_ok(out: &str, lines: &[&str], s: (u32, u32), e: (u32, u32)) -> std::result::Result<(), String> {
  let rows: Vec<&str> = out.lines().collect();
  // every numbered row shows the line of that number, in increasing order
  let lead = |t: &str| t.trim_start_matches([' ', '|']).to_string();
  let mut shown: Vec<(u32, usize)> = vec![];
  for (i, r) in rows.iter().enumerate() {
    let r = r.trim_start();
    let digits = r.len() - r.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let Some(rest) = r[digits..].trim_start_matches(' ').strip_prefix('|') else { continue };
    let Ok(n) = r[..digits].parse::<u32>() else { continue };
    let text = (n as usize).checked_sub(1).and_then(|n| lines.get(n)).map(|t| t.replace('\t', "  "));
    if text.as_ref().map(|t| lead(t)) != Some(lead(rest)) {
      return Err(format!("the row {r:?} shows the number {n}, but that line is {text:?}"));
    }
    if shown.last().is_some_and(|(m, _)| *m >= n) {
      return Err(format!("the row {r:?} is out of order"));
    }
    shown.push((n, i));
  }
  let row_of = |n: u32| shown.iter().find(|x| x.0 == n).map(|x| x.1).ok_or_else(|| format!("line {n} ({:?}) is not shown with its number", lines[n as usize - 1]));
  let first = row_of(s.0)?;
  let last = row_of(e.0)?;
  if shown[0].1 != first || shown[shown.len() - 1].1 != last {
    return Err("lines outside the span are shown".into());
  }
  if first > last {
    return Err("the lines are shown in the wrong order".into());
  }
  // a row between them that starts with a number is a whole row
  for (i, r) in rows.iter().enumerate().take(last).skip(first) {
    if r.trim_start().starts_with(|c: char| c.is_ascii_digit()) && !shown.iter().any(|x| x.1 == i) {
      return Err(format!("the row {r:?} has a number, but shows no line"));
    }
  }
  let line = lines[s.0 as usize - 1];
  if s.0 == e.0 && s.1 <= e.1 && plain(line) && e.1 as usize <= line.chars().count() {
    let row = rows[first];
    let off = row.len() - line.len();
    let marks = rows.get(first + 1).copied().unwrap_or("");
    let cols: Vec<usize> = marks.char_indices().filter(|(_, c)| *c == '^').map(|(i, _)| i).collect();
    let want: Vec<usize> = (s.1 as usize..=e.1 as usize).map(|c| off + c - 1).collect();
    if cols != want {
      return Err(format!("the marks are {marks:?} under {row:?}, expected columns {} to {} to be marked", s.1, e.1));
    }
  }
  if s.0 < e.0 {
    for (at, (l, c)) in [(first, s), (last, e)] {
      let line = lines[l as usize - 1];
      if plain(line) && c as usize <= line.len() {
        let off = rows[at].len() - line.len();
        let marks = rows.get(at + 1).copied().unwrap_or("");
        let cols: Vec<usize> = marks.char_indices().filter(|(_, c)| *c == '^').map(|(i, _)| i).collect();
        if cols != [off + c as usize - 1] {
          return Err(format!("the marks are {marks:?} under {:?}, expected column {c} to be marked", rows[at]));
        }
      }
    }
  }
  Ok(())
}

pub fn c29(rep: &mut Rep) {
  rep.bound("all spans over lines 0-4 and columns 0-4, and random ones up to the numeric limits, over fixed and random files (missing, empty, short, tabs, wide, zero-width, control and invalid characters, CR line ends, up to 130 lines, and one of ten million)");
  let dir = Scratch::new("c29");
  let mut cap = Capture::new(&dir);
  let mut rng = rep.rng(29);
  let mut run = |rep: &mut Rep, name: &str, ty: FileType, content: Option<&[u8]>, s: (u32, u32), e: (u32, u32), kind: usize| -> bool {
    let ctx = || {
      let c = content.map(|c| String::from_utf8_lossy(&c[..c.len().min(300)]).into_owned());
      format!("report {kind} at {}:{}-{}:{} of {name} with content {c:?}", s.0, s.1, e.0, e.1)
    };
    let place = match &ty {
      FileType::File(p) => format!("{}:{}:{}", p.display(), s.0, s.1),
      _ => format!("{}:{}", s.0, s.1),
    };
    let mut sp = Span::new(ty);
    let mut end = sp.clone();
    end.update_loc(Location { line: e.0, col: e.1 });
    sp.update_loc(Location { line: s.0, col: s.1 });
    sp.update_end(end);
    let text = content.and_then(|c| std::str::from_utf8(c).ok());
    let lines: Option<Vec<&str>> = text.map(|t| t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect());
    let due = lines.as_ref().is_some_and(|l| {
      let n = if text.unwrap().ends_with('\n') || text.unwrap().is_empty() { l.len() - 1 } else { l.len() };
      s.1 > 0 && e.1 > 0 && s.0 > 0 && s.0 <= e.0 && e.0 as usize <= n
    });
    rep.case(&(name, s, e, kind), due);
    rep.sample(ctx);
    let (r, out) = cap.run(|| guard_d(ctx, || report(&sp, kind)));
    if let Err(p) = r {
      return rep.ensure(false, || format!("{}: {p}", ctx()));
    }
    if due && matches!(kind, 3 | 4 | 5 | 9 | 10 | 11 | 12) {
      if let Err(m) = excerpt_ok(&out, lines.as_ref().unwrap(), s, e) {
        return rep.ensure(false, || format!("{}: {m}\n  output: {out:?}", ctx()));
      }
    }
    if matches!(kind, 3 | 4 | 5 | 9 | 10 | 11 | 12) && !out.contains(&place) {
      return rep.ensure(false, || format!("{}: the message does not say where: {out:?}", ctx()));
    }
    if !out.contains("m") && kind != 12 && kind != 13 {
      return rep.ensure(false, || format!("{}: the message is not shown: {out:?}", ctx()));
    }
    true
  };
  let long: String = (0..130).map(|i| format!("line {i} {}\n", "x".repeat(i % 17))).collect();
  let fixed: Vec<(&str, Option<Vec<u8>>)> = vec![
    ("a missing file", None),
    ("an empty file", Some(b"".to_vec())),
    ("a one-line file", Some(b"abcdef".to_vec())),
    ("a short file", Some(b"ab\ncdefg\n\nhi\n".to_vec())),
    ("a file with tabs", Some(b"\tab\tc\n\t\t\nx\ty\n\t".to_vec())),
    ("a file with wide characters", Some("字符abc\na字b\n😂😂\nxyz".as_bytes().to_vec())),
    ("a file with zero-width characters", Some("e\u{301}a\u{200b}\n\u{7}b\u{0}c\n\u{feff}x\nlast".as_bytes().to_vec())),
    ("a file with invalid UTF-8", Some(b"ab\xffcd\nok\n\xc3\nlast\n".to_vec())),
    ("a file with CR line ends", Some(b"ab\r\ncd\r\ne\rf\ngh".to_vec())),
    ("a long file", Some(long.into_bytes())),
  ];
  let kinds = [3usize, 4, 5];
  let mut files = vec![];
  for (i, (name, c)) in fixed.iter().enumerate() {
    let p = dir.0.join(format!("f{i}"));
    if let Some(c) = c {
      std::fs::write(&p, c).unwrap();
    }
    files.push((*name, FileType::File(p.into_boxed_path()), c.clone()));
  }
  files.push(("a directory", FileType::File(dir.0.clone().into_boxed_path()), None));
  files.push(("a path of no characters", FileType::File(std::path::PathBuf::new().into_boxed_path()), None));
  files.push(("a buffer", FileType::Buffer, None));
  files.push(("the standard input", FileType::Stdin, None));
  for (name, ty, c) in &files {
    for l1 in 0..5u32 {
      for c1 in 0..5u32 {
        for l2 in 0..5u32 {
          for c2 in 0..5u32 {
            let kind = kinds[(l1 + c1 + l2 + c2) as usize % 3];
            if !run(rep, name, ty.clone(), c.as_deref(), (l1, c1), (l2, c2), kind) {
              return;
            }
          }
        }
      }
    }
  }
  // numbers of eight digits
  let p = dir.0.join("large");
  let mut large = vec![b'\n'; 9_999_998];
  large.extend_from_slice(b"before\nabcdef\nghijkl\n");
  std::fs::write(&p, &large).unwrap();
  for (s, e) in [((10_000_000, 2), (10_000_000, 4)), ((9_999_999, 3), (10_000_000, 5)), ((10_000_000, 1), (10_000_001, 6))] {
    if !run(rep, "a file of ten million lines", FileType::File(p.clone().into_boxed_path()), Some(&large), s, e, 3) {
      return;
    }
  }
  drop(large);
  let lims = [0, 1, 2, 9, 10, 99, 100, 101, 999, 1000, u32::MAX - 1, u32::MAX, 1 << 31, 1 << 24];
  for (name, ty, c) in &files {
    for _ in 0..400 {
      // reading a directory fails for every line: keep to small line numbers
      let lines = if *name == "a directory" { &lims[..10] } else { &lims[..] };
      let mut p = || (*rng.pick(lines), *rng.pick(&lims));
      let (s, e) = (p(), p());
      if !run(rep, name, ty.clone(), c.as_deref(), s, e, kinds[rng.below(3)]) {
        return;
      }
    }
  }
  let mut k = 0;
  let path = dir.0.join("random");
  while rep.time_left(0.85) && k < 20_000 {
    k += 1;
    let alphabet: &[char] = *rng.pick(&[&['a', 'b', ' ', 'Z'][..], &['a', '\t', ' '], &['a', '字', '\t', '\u{301}'], &['~', '!', '#'], &['a', '\u{7}', '\t', '\u{0}', 'b']]);
    let n = rng.below(if k % 10 == 0 { 120 } else { 12 });
    let mut t = String::new();
    for _ in 0..n {
      for _ in 0..rng.below(14) {
        t.push(*rng.pick(alphabet));
      }
      t.push('\n');
    }
    if rng.chance(1, 3) {
      t.pop();
    }
    std::fs::write(&path, &t).unwrap();
    for _ in 0..8 {
      let l1 = rng.range(0, n + 1) as u32;
      let l2 = if rng.chance(1, 2) { l1 } else { rng.range(0, n + 2) as u32 };
      let s = (l1, rng.below(16) as u32);
      let e = (l2, rng.below(16) as u32);
      let kind = *rng.pick(&[0usize, 1, 2, 3, 4, 5, 9, 10, 11, 13]);
      if !run(rep, "a random file", FileType::File(path.clone().into_boxed_path()), Some(t.as_bytes()), s, e, kind) {
        return;
      }
    }
  }
}
