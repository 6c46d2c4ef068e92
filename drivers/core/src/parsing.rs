//! C19-C21: parsable types against reference grammars.
use crate::tokens::{in_mask, res, tk, Bare, Is, Item, Model, Script, Tok, R};
use laps::ast::*;
use laps::parse::Parse;
use laps::span::Result;
use laps::token::{TokenBuffer, TokenStream};
use vcommon::{guard_d, Rep};

/// Reference view of a stream: what is delivered from position `pos`.
#[derive(Clone)]
pub struct Cur<'a> {
  items: &'a [Item],
  pub pos: usize,
}

impl Cur<'_> {
  pub fn at(&self, i: usize) -> R<u32> {
    match self.items.get(self.pos + i) {
      Some(Item::T(k)) => Ok(*k),
      Some(Item::E(f)) => Err(*f),
      None => Ok(99),
    }
  }
  pub fn skip(&self, n: usize) -> Self {
    Cur { items: self.items, pos: self.pos + n }
  }
}

/// The documented grammar of a parsable type.
pub trait Spec: Sized {
  fn rparse(c: &mut Cur) -> R<String>;
  fn rmaybe(c: &Cur) -> R<bool>;
  fn show(&self) -> String;
}

pub fn show_tok(t: &Tok) -> String {
  let (k, n) = tk(t);
  format!("{k}@{n}")
}

pub fn rtoken(c: &mut Cur, ok: impl Fn(u32) -> bool) -> R<String> {
  let k = c.at(0)?;
  if ok(k) {
    c.pos += 1;
    Ok(format!("{k}@{}", c.pos))
  } else {
    Err(false)
  }
}

impl<const M: u32> Spec for Is<M> {
  fn rparse(c: &mut Cur) -> R<String> {
    rtoken(c, |k| in_mask(M, k))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(in_mask(M, c.at(0)?))
  }
  fn show(&self) -> String {
    show_tok(&self.0)
  }
}

/// Two tokens, checked by the first one only, so that parsing can fail half way.
pub struct Two<const M: u32, const N: u32>(Tok, Tok);
impl<const M: u32, const N: u32, TS: TokenStream<Token = Tok>> Parse<TS> for Two<M, N> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    Ok(Two(Is::<M>::parse(tokens)?.0, Is::<N>::parse(tokens)?.0))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Is::<M>::maybe(tokens)
  }
}
impl<const M: u32, const N: u32> Spec for Two<M, N> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(format!("<{} {}>", Is::<M>::rparse(c)?, Is::<N>::rparse(c)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Is::<M>::rmaybe(c)
  }
  fn show(&self) -> String {
    format!("<{} {}>", show_tok(&self.0), show_tok(&self.1))
  }
}

fn join(v: &[String]) -> String {
  format!("[{}]", v.join(" "))
}
fn shows<T: Spec>(v: &[T]) -> String {
  join(&v.iter().map(|t| t.show()).collect::<Vec<_>>())
}

impl<T: Spec> Spec for NonEmptySeq<T> {
  // T T*
  fn rparse(c: &mut Cur) -> R<String> {
    let mut v = vec![T::rparse(c)?];
    while T::rmaybe(c)? {
      v.push(T::rparse(c)?);
    }
    Ok(join(&v))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    T::rmaybe(c)
  }
  fn show(&self) -> String {
    shows(&self.0)
  }
}

/// T (S T)*, with an optional trailing S where `trail`.
fn separated<T: Spec, S: Spec>(c: &mut Cur, trail: bool) -> R<Vec<(String, Option<String>)>> {
  let mut v = vec![];
  loop {
    let t = T::rparse(c)?;
    if !S::rmaybe(c)? {
      v.push((t, None));
      break;
    }
    let s = S::rparse(c)?;
    v.push((t, Some(s)));
    if trail && !T::rmaybe(c)? {
      break;
    }
  }
  Ok(v)
}
fn elems(v: Vec<(String, Option<String>)>) -> String {
  join(&v.into_iter().map(|x| x.0).collect::<Vec<_>>())
}
fn all(v: Vec<(String, Option<String>)>) -> String {
  join(&v.into_iter().flat_map(|x| [Some(x.0), x.1.map(|s| format!("/{s}"))]).flatten().collect::<Vec<_>>())
}

macro_rules! sep_spec {
  ($t:ident, $trail:expr, $empty:expr) => {
    impl<T: Spec, S: Spec> Spec for $t<T, S> {
      fn rparse(c: &mut Cur) -> R<String> {
        if $empty && !T::rmaybe(c)? {
          return Ok("[]".into());
        }
        Ok(elems(separated::<T, S>(c, $trail)?))
      }
      fn rmaybe(c: &Cur) -> R<bool> {
        if $empty { Ok(true) } else { T::rmaybe(c) }
      }
      fn show(&self) -> String {
        shows(&self.0)
      }
    }
  };
}
sep_spec!(SepSeq, false, true);
sep_spec!(NonEmptySepSeq, false, false);
sep_spec!(OptSepSeq, true, true);
sep_spec!(NonEmptyOptSepSeq, true, false);

impl<T: Spec, S: Spec> Spec for NonEmptySepList<T, S> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(all(separated::<T, S>(c, false)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    T::rmaybe(c)
  }
  fn show(&self) -> String {
    let mut v = vec![];
    let mut cur = self;
    loop {
      match cur {
        Self::One(t) => {
          v.push((t.show(), None));
          break;
        }
        Self::More(t, s, l) => {
          v.push((t.show(), Some(s.show())));
          cur = l;
        }
      }
    }
    all(v)
  }
}

impl<T: Spec, S: Spec> Spec for NonEmptyOptSepList<T, S> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(all(separated::<T, S>(c, true)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    T::rmaybe(c)
  }
  fn show(&self) -> String {
    let mut v = vec![];
    let mut cur = self;
    loop {
      match cur {
        Self::One(t) => {
          v.push((t.show(), None));
          break;
        }
        Self::OneWithSep(t, s) => {
          v.push((t.show(), Some(s.show())));
          break;
        }
        Self::More(t, s, l) => {
          v.push((t.show(), Some(s.show())));
          cur = l;
        }
      }
    }
    all(v)
  }
}

impl<T: Spec> Spec for Box<T> {
  fn rparse(c: &mut Cur) -> R<String> {
    T::rparse(c)
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    T::rmaybe(c)
  }
  fn show(&self) -> String {
    (**self).show()
  }
}

impl<T: Spec> Spec for Option<T> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(if T::rmaybe(c)? { format!("some {}", T::rparse(c)?) } else { "none".into() })
  }
  fn rmaybe(_: &Cur) -> R<bool> {
    Ok(true)
  }
  fn show(&self) -> String {
    self.as_ref().map_or("none".into(), |t| format!("some {}", t.show()))
  }
}

impl<T: Spec> Spec for Vec<T> {
  fn rparse(c: &mut Cur) -> R<String> {
    let mut v = vec![];
    while T::rmaybe(c)? {
      v.push(T::rparse(c)?);
    }
    Ok(join(&v))
  }
  fn rmaybe(_: &Cur) -> R<bool> {
    Ok(true)
  }
  fn show(&self) -> String {
    shows(self)
  }
}

impl<L: Spec, T: Spec, Q: Spec> Spec for Quoted<L, T, Q> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(format!("({} {} {})", L::rparse(c)?, T::rparse(c)?, Q::rparse(c)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    L::rmaybe(c)
  }
  fn show(&self) -> String {
    format!("({} {} {})", self.0.show(), self.1.show(), self.2.show())
  }
}

impl<P: Spec, T: Spec> Spec for OptPrefix<P, T> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(format!("({} {})", Option::<P>::rparse(c)?, T::rparse(c)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    Ok(P::rmaybe(c)? || T::rmaybe(c)?)
  }
  fn show(&self) -> String {
    format!("({} {})", self.0.show(), self.1.show())
  }
}

impl<P: Spec, T: Spec> Spec for OptTokenPrefix<P, T> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(format!("({} {})", Option::<P>::rparse(c)?, T::rparse(c)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    if P::rmaybe(c)? {
      c.at(0)?;
      T::rmaybe(&c.skip(1))
    } else {
      T::rmaybe(c)
    }
  }
  fn show(&self) -> String {
    format!("({} {})", self.0.show(), self.1.show())
  }
}

impl<P: Spec, T: Spec> Spec for TokenPrefix<P, T> {
  fn rparse(c: &mut Cur) -> R<String> {
    Ok(format!("({} {})", P::rparse(c)?, T::rparse(c)?))
  }
  fn rmaybe(c: &Cur) -> R<bool> {
    if P::rmaybe(c)? {
      c.at(0)?;
      T::rmaybe(&c.skip(1))
    } else {
      Ok(false)
    }
  }
  fn show(&self) -> String {
    format!("({} {})", self.0.show(), self.1.show())
  }
}

macro_rules! tuple_spec {
  ($a:ident $($t:ident)*) => {
    impl<$a: Spec, $($t: Spec),*> Spec for ($a, $($t,)*) {
      fn rparse(c: &mut Cur) -> R<String> {
        let mut v = vec![$a::rparse(c)?];
        $(v.push($t::rparse(c)?);)*
        Ok(join(&v))
      }
      fn rmaybe(c: &Cur) -> R<bool> {
        $a::rmaybe(c)
      }
      #[allow(non_snake_case, unused_mut)]
      fn show(&self) -> String {
        let ($a, $($t,)*) = self;
        let mut v = vec![$a.show()];
        $(v.push($t.show());)*
        join(&v)
      }
    }
  };
}
macro_rules! tuples_spec {
  ($a:ident) => { tuple_spec!($a); };
  ($a:ident $($t:ident)+) => { tuple_spec!($a $($t)+); tuples_spec!($($t)+); };
}
tuples_spec!(A B C D E F G H I J K L M N O P Q U V W X Y Z A1 B1 C1);

type Buf = TokenBuffer<Script, Tok>;

pub trait Subject: Spec + Parse<Bare> + Parse<Buf> {}
impl<T: Spec + Parse<Bare> + Parse<Buf>> Subject for T {}

fn rest<TS: TokenStream<Token = Tok>>(ts: &mut TS, n: usize) -> Vec<R<(u32, u32)>> {
  (0..n).map(|_| res(ts.next_token(), |t| tk(&t))).collect()
}

fn parse_on<T: Spec + Parse<TS>, TS: TokenStream<Token = Tok>>(rep: &mut Rep, name: &str, mut ts: TS, items: &[Item]) -> bool {
  let ctx = || format!("parsing {name} from {items:?} (kind 99 afterwards)");
  let mut c = Cur { items, pos: 0 };
  let want = T::rparse(&mut c);
  rep.case(&(name, items), c.pos > 0);
  rep.sample(|| format!("{name} from {items:?} gives {want:?}"));
  let got = guard_d(&ctx, || {
    let r = res(T::parse(&mut ts), |t| t.show());
    let left = rest(&mut ts, items.len() + 3);
    (r, left)
  });
  match got {
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
    Ok((r, left)) => {
      if !rep.eq(&r, &want, ctx) {
        return false;
      }
      if want.is_ok() {
        let mut m = Model::new(items);
        for _ in 0..c.pos {
          let _ = m.next();
        }
        let w: Vec<_> = (0..items.len() + 3).map(|_| m.next()).collect();
        return rep.eq(&left, &w, || format!("{}: tokens left afterwards", ctx()));
      }
      true
    }
  }
}

fn maybe_on<T: Spec + Parse<TS>, TS: TokenStream<Token = Tok>>(rep: &mut Rep, name: &str, mut ts: TS, items: &[Item]) -> bool {
  let ctx = || format!("checking {name} on {items:?} (kind 99 afterwards)");
  let want = T::rmaybe(&Cur { items, pos: 0 });
  rep.case(&(name, items), want != Ok(false));
  rep.sample(|| format!("{name} on {items:?} answers {want:?}"));
  let got = guard_d(&ctx, || {
    let r = res(T::maybe(&mut ts), |b| b);
    let left = rest(&mut ts, items.len() + 3);
    (r, left)
  });
  match got {
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
    Ok((r, mut left)) => {
      if !rep.eq(&r, &want, ctx) {
        return false;
      }
      let mut m = Model::new(items);
      let mut w: Vec<_> = (0..items.len() + 3).map(|_| m.next()).collect();
      if want.is_err() {
        // the failure itself was taken, every token must still be there
        w.retain(|x| x.is_ok());
        left.retain(|x| x.is_ok());
        let n = w.len().min(left.len());
        w.truncate(n);
        left.truncate(n);
      }
      rep.eq(&left, &w, || format!("{}: tokens left afterwards", ctx()))
    }
  }
}

#[derive(Clone, Copy)]
pub struct Entry {
  pub name: &'static str,
  pub parse: fn(&mut Rep, &str, &[Item]) -> bool,
  pub maybe: fn(&mut Rep, &str, &[Item]) -> bool,
}

pub fn entry<T: Subject>(name: &'static str) -> Entry {
  Entry {
    name,
    parse: |r, n, i| parse_on::<T, _>(r, n, Bare::new(i), i) && parse_on::<T, _>(r, n, TokenBuffer::new(Script::new(i)), i),
    maybe: |r, n, i| maybe_on::<T, _>(r, n, Bare::new(i), i) && maybe_on::<T, _>(r, n, TokenBuffer::new(Script::new(i)), i),
  }
}

macro_rules! entries {
  ($($t:ty;)*) => { vec![$(entry::<$t>(stringify!($t)),)*] };
}

type A = Is<1>;
type B = Is<2>;
type AB = Is<3>;
type AC = Two<1, 4>;
type BC = Two<2, 4>;

fn seqs() -> Vec<Entry> {
  entries! {
    NonEmptySeq<A>; NonEmptySeq<AC>; NonEmptySeq<AB>; NonEmptySeq<(A, Option<B>)>;
    SepSeq<A, B>; SepSeq<AC, B>; SepSeq<A, BC>; SepSeq<AB, B>; SepSeq<A, A>; SepSeq<AC, BC>; SepSeq<A, NonEmptySeq<B>>;
    NonEmptySepSeq<A, B>; NonEmptySepSeq<AC, B>; NonEmptySepSeq<A, BC>; NonEmptySepSeq<AB, B>; NonEmptySepSeq<A, A>;
    OptSepSeq<A, B>; OptSepSeq<AC, B>; OptSepSeq<A, BC>; OptSepSeq<AB, B>; OptSepSeq<A, A>;
    NonEmptyOptSepSeq<A, B>; NonEmptyOptSepSeq<AC, B>; NonEmptyOptSepSeq<A, BC>; NonEmptyOptSepSeq<AB, B>; NonEmptyOptSepSeq<A, A>;
    SepSeq<NonEmptySepSeq<A, B>, Is<4>>; OptSepSeq<NonEmptyOptSepSeq<A, B>, Is<4>>;
  }
}

fn misc() -> Vec<Entry> {
  entries! {
    NonEmptySepList<A, B>; NonEmptySepList<AC, B>; NonEmptySepList<A, BC>; NonEmptySepList<AB, B>;
    NonEmptyOptSepList<A, B>; NonEmptyOptSepList<AC, B>; NonEmptyOptSepList<A, BC>; NonEmptyOptSepList<AB, B>;
    SepList<A, B>; OptSepList<A, B>; OptSepList<AC, B>;
    Box<A>; Box<AC>; Option<A>; Option<AC>; Option<Box<AC>>; Vec<A>; Vec<AC>; Vec<(A, Option<B>)>; Box<Vec<A>>; Option<Vec<A>>; Vec<Vec1>;
    Quoted<A, B, Is<4>>; Quoted<A, Option<B>, Is<4>>; Quoted<A, SepSeq<AB, Is<4>>, B>; Quoted<AC, AC, A>;
    OptPrefix<A, B>; OptPrefix<AC, B>; OptPrefix<A, AC>; OptPrefix<AB, B>; OptPrefix<A, Vec<B>>;
    OptTokenPrefix<A, B>; OptTokenPrefix<A, AC>; OptTokenPrefix<AB, B>; OptTokenPrefix<A, BC>;
    TokenPrefix<A, B>; TokenPrefix<A, AC>; TokenPrefix<AB, B>; TokenPrefix<A, BC>; TokenPrefix<A, TokenPrefix<B, A>>; OptTokenPrefix<A, TokenPrefix<B, A>>;
    (A,); (AC,); (A, B); (A, B, Is<4>); (Option<A>, B); (A, Option<B>, A); (Vec<A>, B, Vec<A>); (AC, BC, A); (Box<A>, (A, B)); ((A, B), (A, B));
  }
}
type Vec1 = NonEmptySeq<(A, B)>;

macro_rules! tuples {
  ($v:ident; $($done:ty,)*; $n:literal $($rest:literal)*) => {
    $v.push(($n as usize, entry::<($($done,)* Is<7>,)>(concat!("the tuple of ", stringify!($n), " parts"))));
    tuples!($v; $($done,)* Is<7>,; $($rest)*);
  };
  ($v:ident; $($done:ty,)*; ) => {};
}

fn tuples() -> Vec<(usize, Entry)> {
  let mut v = vec![];
  tuples!(v; ; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26);
  v
}

pub fn explore(rep: &mut Rep, es: &[Entry], maybe: bool, salt: u64, frac: f64) -> bool {
  let sym = [Item::T(0), Item::T(1), Item::T(2), Item::E(false), Item::E(true)];
  let max = if rep.thorough { 6 } else { 5 };
  rep.bound(&format!("{} types on all streams of length <= {max} over three kinds and two failures (failures followed by at most two tokens), and random streams up to 1200 tokens", es.len()));
  let go = |rep: &mut Rep, e: &Entry, items: &[Item]| if maybe { (e.maybe)(rep, e.name, items) } else { (e.parse)(rep, e.name, items) };
  for len in 0..=max {
    for code in 0..sym.len().pow(len) {
      let mut c = code;
      let items: Vec<Item> = (0..len)
        .map(|_| {
          let x = sym[c % sym.len()];
          c /= sym.len();
          x
        })
        .collect();
      if let Some(f) = items.iter().position(|i| matches!(i, Item::E(_))) {
        if items.len() - f > 3 {
          continue;
        }
      }
      for e in es {
        if !go(rep, e, &items) {
          return false;
        }
      }
    }
    if !rep.time_left(frac * 0.7) && len >= 4 {
      break;
    }
  }
  let mut rng = rep.rng(salt);
  while rep.time_left(frac) {
    let long = rng.chance(1, 60);
    let n = if long { rng.range(200, 1200) } else { rng.below(60) };
    let style = rng.below(3);
    let items: Vec<Item> = (0..n)
      .map(|i| {
        if rng.chance(1, if long { 4000 } else { 40 }) {
          Item::E(rng.chance(1, 2))
        } else if style < 2 && (long && i + 9 < n || !rng.chance(1, 15)) {
          Item::T(if style == 0 { i as u32 % 2 } else { i as u32 % 3 })
        } else {
          Item::T(rng.below(4) as u32)
        }
      })
      .collect();
    for e in es {
      if !go(rep, e, &items) {
        return false;
      }
    }
  }
  true
}

pub fn sequences(rep: &mut Rep) {
  explore(rep, &seqs(), false, 19, 0.85);
}

pub fn others(rep: &mut Rep) {
  for (n, e) in tuples() {
    let full: Vec<Item> = (0..n + 2).map(|i| Item::T(i as u32 % 3)).collect();
    if !(e.parse)(rep, e.name, &full) || !(e.maybe)(rep, e.name, &full) {
      return;
    }
    for i in 0..n {
      for bad in [Item::T(9), Item::E(true), Item::E(false)] {
        let mut items = full.clone();
        items[i] = bad;
        if !(e.parse)(rep, e.name, &items) {
          return;
        }
      }
    }
  }
  explore(rep, &misc(), false, 20, 0.85);
}

pub fn maybes(rep: &mut Rep, derived: Vec<Entry>) {
  let mut es = seqs();
  es.extend(misc());
  es.extend(derived);
  es.extend(tuples().into_iter().map(|(_, e)| e));
  explore(rep, &es, true, 21, 0.85);
}
