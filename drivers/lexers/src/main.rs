//! C07, C08: derived lexers over a catalogue of declarations.
mod many;
mod re;

use laps::input::InputStream;
use laps::lexer::{int_literal, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::Span;
use laps::token::{Token, Tokenizer};
use laps_regex::re::RegexBuilder;
use laps_regex::table::StateTransTable;
use re::{accepted, nullable, parse, start, step, word, R};
use vcommon::{guard_d, Rep, Rng};

/// What one call of the lexer yields.
#[derive(Clone, Debug, PartialEq)]
enum Out {
  /// Definition, text, start, end.
  Tok(usize, String, (u32, u32), (u32, u32)),
  Eof,
  /// Error and the number of symbols consumed.
  Err(usize),
}

type Call = (Result<(Option<(usize, String)>, Span), ()>, usize);

struct Lx {
  name: &'static str,
  bytes: bool,
  /// Pattern, whether it is skipped, whether the conversion accepts a text.
  defs: Vec<(&'static str, bool, fn(&str) -> bool)>,
  eof: bool,
  /// How many of the first definitions have variants without a value.
  units: usize,
  /// Feeds the text and calls the lexer `n` times; the number of symbols left after each call.
  run: fn(&[u32], usize) -> Vec<Call>,
}

fn text(w: &[u32], bytes: bool) -> String {
  if bytes { w.iter().map(|c| char::from(*c as u8)).collect() } else { w.iter().map(|c| char::from_u32(*c).unwrap()).collect() }
}

/// Calls a lexer over characters, counting what is left with a copy of the input.
fn run_chars<K: Tokenize<CharType = char>>(w: &[u32], n: usize, f: fn(K) -> Option<(usize, String)>) -> Vec<Call> {
  let s = text(w, false);
  let mut lexer = K::lexer(Counted { inner: Reader::from(s.as_str()), taken: 0 });
  let mut v = vec![];
  for _ in 0..n {
    let r: Result<Token<K>, _> = lexer.next_token();
    let r = r.map(|t| (f(t.kind), t.span)).map_err(|_| ());
    v.push((r, w.len() - lexer.input().taken));
  }
  v
}
fn run_bytes<K: Tokenize<CharType = u8>>(w: &[u32], n: usize, f: fn(K) -> Option<(usize, String)>) -> Vec<Call> {
  let s: Vec<u8> = w.iter().map(|c| *c as u8).collect();
  let mut lexer = K::lexer(Counted { inner: ByteReader::from(&s[..]), taken: 0 });
  let mut v = vec![];
  for _ in 0..n {
    let r: Result<Token<K>, _> = lexer.next_token();
    let r = r.map(|t| (f(t.kind), t.span)).map_err(|_| ());
    v.push((r, w.len() - lexer.input().taken));
  }
  v
}

/// Counts the symbols taken out of a stream and not put back.
struct Counted<I> {
  inner: I,
  taken: usize,
}
impl<I: InputStream> InputStream for Counted<I> {
  type CharType = I::CharType;
  fn next_char_loc(&mut self) -> laps::span::Result<(Option<I::CharType>, laps::span::Location)> {
    let r = self.inner.next_char_loc()?;
    self.taken += r.0.is_some() as usize;
    Ok(r)
  }
  fn unread(&mut self, last: (Option<I::CharType>, laps::span::Location)) {
    self.taken -= last.0.is_some() as usize;
    self.inner.unread(last)
  }
  fn peek(&mut self) -> laps::span::Result<Option<I::CharType>>
  where
    I::CharType: Clone,
  {
    self.inner.peek()
  }
  fn span(&self) -> &Span {
    self.inner.span()
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.inner.set_line_col(line, col)
  }
}

fn yes(_: &str) -> bool {
  true
}
fn lossless(b: &[u8]) -> Option<String> {
  Some(b.iter().map(|b| char::from(*b)).collect())
}

/// Declares a lexer whose variants hold the matched text, and its description.
macro_rules! lexers {
  (@ok) => { yes as fn(&str) -> bool };
  (@ok $f:ident) => { $f as fn(&str) -> bool };
  ($($name:ident $(type $ct:ident)? $(par $p:literal)? { $(* $u:ident = $ure:tt;)* $(+ $v:ident = $re:tt $(if $ok:ident)?;)* $(- $s:ident = $sre:tt;)* $(! $e:ident;)? })*) => {
    $(
      #[derive(laps::lexer::Tokenize, Debug)]
      $(#[char_type($ct)])?
      $(#[enable_par($p)])?
      #[allow(dead_code)]
      enum $name {
        $(#[regex($ure)] #[allow(dead_code)] #[doc = " Afterwards."] $u,)*
        $(#[regex($re $(, |s: &str| $ok(s).then(|| s.to_string()))?)] $v(String),)*
        $(#[skip($sre)] #[allow(dead_code)] $s,)*
        $(#[eof] #[doc(hidden)] $e,)?
      }
    )*
    fn char_lexers() -> Vec<Lx> {
      vec![$(Lx {
        name: stringify!($name),
        bytes: false,
        defs: vec![$(($ure, false, lexers!(@ok)),)* $(($re, false, lexers!(@ok $($ok)?)),)* $(($sre, true, lexers!(@ok)),)*],
        units: { let u: &[&str] = &[$(stringify!($u)),*]; u.len() },
        #[allow(unused_mut, unused_assignments)]
        eof: { let mut e = false; $(let _ = stringify!($e); e = true;)? e },
        run: |w, n| run_chars::<$name>(w, n, |k| {
          let mut i = 0usize;
          let _ = &mut i;
          $(if let $name::$u = &k { return Some((i, "*".into())); } i += 1;)*
          $(if let $name::$v(s) = &k { return Some((i, s.clone())); } i += 1;)*
          let _ = i;
          None
        }),
      },)*]
    }
  };
}
macro_rules! byte_lexers {
  ($($name:ident { $(* $u:ident = $ure:tt;)* $(+ $v:ident = $re:tt $(if $ok:ident)?;)* $(- $s:ident = $sre:tt;)* $(! $e:ident;)? })*) => {
    $(
      #[derive(laps::lexer::Tokenize, Debug)]
      #[char_type(u8)]
      #[allow(dead_code)]
      enum $name {
        $(#[regex($ure)] #[allow(dead_code)] #[doc = " Afterwards."] $u,)*
        $(#[regex($re, |s: &[u8]| lossless(s) $(.filter(|s| $ok(s)))?)] $v(String),)*
        $(#[skip($sre)] #[allow(dead_code)] $s,)*
        $(#[eof] #[doc(hidden)] $e,)?
      }
    )*
    fn byte_lexers() -> Vec<Lx> {
      vec![$(Lx {
        name: stringify!($name),
        bytes: true,
        defs: vec![$(($ure, false, lexers!(@ok)),)* $(($re, false, lexers!(@ok $($ok)?)),)* $(($sre, true, lexers!(@ok)),)*],
        units: { let u: &[&str] = &[$(stringify!($u)),*]; u.len() },
        #[allow(unused_mut, unused_assignments)]
        eof: { let mut e = false; $(let _ = stringify!($e); e = true;)? e },
        run: |w, n| run_bytes::<$name>(w, n, |k| {
          let mut i = 0usize;
          let _ = &mut i;
          $(if let $name::$u = &k { return Some((i, "*".into())); } i += 1;)*
          $(if let $name::$v(s) = &k { return Some((i, s.clone())); } i += 1;)*
          let _ = i;
          None
        }),
      },)*]
    }
  };
}

/// Text that is taken over by `FromStr`, unless its length is a multiple of three.
#[derive(Debug)]
struct Not3(String);
impl std::str::FromStr for Not3 {
  type Err = ();
  fn from_str(s: &str) -> Result<Self, ()> {
    if not3(s) { Ok(Not3(s.into())) } else { Err(()) }
  }
}
/// With parameters, raw names, variants with empty parentheses, `FromStr` conversions.
#[derive(laps::lexer::Tokenize, Debug)]
enum Generic<'a, T, const N: usize>
where
  T: std::str::FromStr,
{
  #[regex("x+|if")]
  r#If(),
  #[regex("else")]
  r#Else,
  /// Number.
  #[regex("[0-9]+")]
  Num(T),
  /// Word {of} letters.
  #[regex("[a-z]+", |s: &str| (s.len() % N != 0).then(|| std::borrow::Cow::from(s.to_string())))]
  r#Word(std::borrow::Cow<'a, str>),
  #[skip(" +")]
  Ws(),
  #[eof]
  End(),
}
fn generic_lexer() -> Lx {
  Lx {
    name: "Generic<'static, Not3, 3>",
    bytes: false,
    defs: vec![("x+|if", false, yes as fn(&str) -> bool), ("else", false, yes), ("[0-9]+", false, not3), ("[a-z]+", false, not3), (" +", true, yes)],
    units: 2,
    eof: true,
    run: |w, n| {
      run_chars::<Generic<'static, Not3, 3>>(w, n, |k| match k {
        Generic::If() => Some((0, "*".into())),
        Generic::Else => Some((1, "*".into())),
        Generic::Num(Not3(s)) => Some((2, s)),
        Generic::Word(s) => Some((3, s.into_owned())),
        Generic::Ws() | Generic::End() => None,
      })
    },
  }
}

/// The end of input first, then what is skipped, a variant without an attribute in between.
#[derive(laps::lexer::Tokenize, Debug)]
enum Ordered {
  #[eof]
  End,
  #[skip(" +")]
  Ws,
  #[regex("[a-z]+")]
  Word(String),
  #[allow(dead_code)]
  Never(Vec<u8>),
  #[skip("#[a-z]*")]
  Comment,
  #[regex("[0-9]+")]
  Num(String),
  #[allow(dead_code)]
  NeverUnit,
  #[regex("abc|-+|#")]
  Last(String),
}
fn ordered_lexer() -> Lx {
  Lx {
    name: "Ordered",
    bytes: false,
    defs: vec![(" +", true, yes as fn(&str) -> bool), ("[a-z]+", false, yes), ("#[a-z]*", true, yes), ("[0-9]+", false, yes), ("abc|-+|#", false, yes)],
    units: 0,
    eof: true,
    run: |w, n| {
      run_chars::<Ordered>(w, n, |k| match k {
        Ordered::Word(s) => Some((1, s)),
        Ordered::Num(s) => Some((3, s)),
        Ordered::Last(s) => Some((4, s)),
        Ordered::Never(_) | Ordered::NeverUnit => Some((99, "never".into())),
        Ordered::Comment | Ordered::Ws | Ordered::End => None,
      })
    },
  }
}
/// The same over bytes, with what has no attribute first and the end of input in the middle.
#[derive(laps::lexer::Tokenize, Debug)]
#[char_type(u8)]
enum BOrdered {
  #[allow(dead_code)]
  Never(Vec<u8>),
  #[regex("(?-u:[a-z]+)", lossless)]
  Word(String),
  #[eof]
  End,
  #[regex("abc|-+", lossless)]
  Mid(String),
  #[skip(r"(?-u:[\n ])")]
  Ws,
  #[regex("(?-u:[0-9]+)", lossless)]
  Num(String),
}
fn bordered_lexer() -> Lx {
  Lx {
    name: "BOrdered",
    bytes: true,
    defs: vec![("(?-u:[a-z]+)", false, yes as fn(&str) -> bool), ("abc|-+", false, yes), (r"(?-u:[\n ])", true, yes), ("(?-u:[0-9]+)", false, yes)],
    units: 0,
    eof: true,
    run: |w, n| {
      run_bytes::<BOrdered>(w, n, |k| match k {
        BOrdered::Word(s) => Some((0, s)),
        BOrdered::Mid(s) => Some((1, s)),
        BOrdered::Num(s) => Some((3, s)),
        BOrdered::Never(_) => Some((99, "never".into())),
        BOrdered::Ws | BOrdered::End => None,
      })
    },
  }
}
fn many_lexer() -> Lx {
  Lx {
    name: "Many",
    bytes: false,
    defs: many::PATTERNS.iter().map(|p| (*p, false, yes as fn(&str) -> bool)).chain([(" ", true, yes as fn(&str) -> bool)]).collect(),
    units: 0,
    eof: true,
    run: |w, n| run_chars::<many::Many>(w, n, many::index),
  }
}

fn not3(s: &str) -> bool {
  s.chars().count() % 3 != 0
}
fn is_i32(s: &str) -> bool {
  int_literal::<i32>(s).is_some()
}

lexers! {
  Calc {
    + Num = r"0|[1-9][0-9]*" if is_i32; + Op = r"[-+*/%()]"; + Other = r"\S" ;
    - Ws = r"[ \t\r\n]+"; ! End;
  }
  Clike {
    + Kw = r"int|if|else|while|return|ret"; + Id = r"[_a-zA-Z][_a-zA-Z0-9]*"; + Num = r"[0-9]|[1-9][0-9]+" if is_i32;
    + Cmp = r"<=|>=|==|!=|<|>|=|!|&&|\|\||&|\||<<|>>"; + Str = r#""([^"\\\n]|\\[nrt"\\])*""# if not3; + Punct = r"[\(\)\{\};,]";
    + Cm = r"//[^\n]*\n"; + Blk = r"/\*([^*]|\*+[^*/])*\*+/";
    - Ws = r"[ \t\r\n]+"; ! End;
  }
  Json {
    + Str = r#""([^\x00-\x1f"\\]|\\(["\\/bfnrt]|u[0-9a-fA-F]{4}))*""#; + Num = r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?"; + Lit = r"true|false|null";
    + Other = r"[\[\]{}:,]";
    - Ws = r"[ \t\r\n]+"; ! End;
  }
  Prefixes {
    + Abc = r"abc"; + Ab = r"ab"; + A = r"a"; + Abcde = r"abcde"; + Xs = r"x+y|x"; + Xxx = r"xxx"; + Bs = r"(ab|ba)*ab";
    ! End;
  }
  Same {
    + First = r"[a-m]+"; + Second = r"[a-z]+"; + Third = r"abc|[0-9]+"; + Fourth = r"[a-z]+|[0-9a]+" if not3;
    ! End;
  }
  NoEof {
    + Word = r"[a-z]+"; + Star = r"\*|\*\*\*";
    - Ws = r" "; - Dash = r"--+";
  }
  OnlySkip {
    + A = r"a";
    - B = r"b+"; - C = r"[c-f]";
    ! End;
  }
  Unicode {
    + Greek = r"[α-ω]+"; + Han = r"[\x{4e00}-\x{9fff}]+"; + Emoji = r"[😀-😏]"; + High = r"[\x{ffff}-\x{10ffff}]{2}"; + Low = r"[\x{0}-\x{1f}]"; + Edge = r"[\x{d7ff}\x{e000}]+"; + Rest = r"e\x{301}?";
    - Nbsp = r"[\x{a0}\x{2003} ]+"; ! End;
  }
  Dots {
    + Line = r"#.*"; + Any = r"[^a#\n]"; + A3 = r"a{3}"; + A5 = r"a{5,7}"; + Nl = r"\n";
    ! End;
  }
  Counted10 {
    + D = r"[0-9]{1,10}"; + E = r"e[0-9]{2,}(f[0-9]{3}){0,2}"; + Z = r"(z{2}){3}|z{5}";
    - S = r" ?_"; ! End;
  }
  Par par true {
    + Id = r"[a-z]([a-z0-9]*[a-z])?"; + Hex = r"0x[0-9a-f]+";
    - Ws = r"[ \n]+"; ! End;
  }
  Ser par false {
    + Id = r"[a-z]([a-z0-9]*[a-z])?"; + Hex = r"0x[0-9a-f]+";
    - Ws = r"[ \n]+"; ! End;
  }
  Units type char {
    * If = r"if"; * Else = r"else"; * Arrow = r"->|=>"; * Raw = r#"r#""#;
    + Id = r"[a-z]+"; + Minus = r"-+"; - Ws = r" +"; ! End;
  }
  OnlyUnits { * A = r"a"; * B = r"ab|b"; * C = r"abc(d|e)*"; }
  One { + A = r"a"; ! End; }
  L253 { + A = r"a{252}"; + B = r"b"; ! End; }
  L254 { + A = r"a{253}"; + B = r"b"; ! End; }
  L255 { + A = r"a{254}"; + B = r"b"; ! End; }
  L256 { + A = r"a{255}"; ! End; }
  L257 { + A = r"a{256}"; + B = r"ab"; ! End; }
  L600 { + A = r"(ab|c){300}"; ! End; }
}

byte_lexers! {
  BCalc {
    + Num = r"(?-u:[0-9]+)" if is_i32; + Op = r"(?-u:[+*/()-])"; + Id = r"(?-u:[a-z_]+)";
    - Ws = r"(?-u:[ \t\r\n]+)"; ! End;
  }
  BAll {
    + Lo = r"(?-u:[\x00-\x0f]+)"; + Hi = r"(?-u:[\x70-\x7f]{2})"; + Mid = r"(?-u:[\x7b-\x7e])"; + Ff = r"(?-u:\x7f\x7f\x7f)"; + Ascii = r"(?-u:[a-y]+Z)";
    - Ws = r" +"; ! End;
  }
  BUtf8 {
    + Two = r"Ω"; + Three = r"中国|xyz"; + One = r"(?-u:[\x00-\x7f])"; + Word = r"Ωmega";
    ! End;
  }
  BNoEof {
    + Nl = r"\n|\r\n"; + W = r"(?-u:[a-z]+)" if not3; + Neg = r"(?-u:[\x00-\x09\x0b\x0c\x0e-\x60\x7b-\x7f])+";
  }
  BUnits {
    * Kw = r"fn"; * Semi = r";;?"; + Id = r"(?-u:[a-z]+)"; - Nl = r"\n"; ! End;
  }
  B255 { + A = r"a{254}"; + B = r"b"; ! End; }
  B256 { + A = r"a{255}"; ! End; }
}

/// The reference: calls of the lexer until the end, or until nothing is consumed any more.
fn want(l: &Lx, rs: &[R], w: &[u32], max: usize) -> Vec<(Out, usize)> {
  let mut v = vec![];
  let mut pos = 0;
  let mut loc = (1u32, 0u32);
  'calls: while v.len() < max {
    loop {
      let (mut s, from) = (start(rs), pos);
      let mut first = loc;
      while pos < w.len() {
        match step(&s, w[pos]) {
          Some(t) => {
            s = t;
            loc = if w[pos] == 10 { (loc.0 + 1, 0) } else { (loc.0, loc.1 + 1) };
            if pos == from {
              first = loc;
            }
            pos += 1;
          }
          None => break,
        }
      }
      let run = &w[from..pos];
      let left = w.len() - pos;
      let acc = if run.is_empty() { None } else { accepted(&s) };
      match acc {
        Some(d) if l.defs[d].1 => continue,
        Some(d) => {
          let t = text(run, l.bytes);
          if (l.defs[d].2)(&t) {
            v.push((Out::Tok(d, if d < l.units { "*".into() } else { t }, first, loc), left));
          } else {
            v.push((Out::Err(left), left));
          }
        }
        None if run.is_empty() && left == 0 => v.push((if l.eof { Out::Eof } else { Out::Err(0) }, 0)),
        None => v.push((Out::Err(left), left)),
      }
      continue 'calls;
    }
  }
  v
}

fn compare(rep: &mut Rep, l: &Lx, rs: &[R], w: &[u32], spans: bool) -> bool {
  let max = w.len() + 4;
  let max = max.min(40);
  let exp = want(l, rs, w, max);
  let ctx = || format!("lexer {} with definitions {:?} on {:?}", l.name, l.defs.iter().map(|d| d.0).collect::<Vec<_>>(), text(&w[..w.len().min(400)], l.bytes));
  rep.case(&(l.name, w), exp.iter().filter(|e| matches!(e.0, Out::Tok(..))).count() >= 2);
  rep.sample(ctx);
  let got = match guard_d(ctx, || (l.run)(w, max)) {
    Ok(g) => g,
    Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
  };
  let mut covered = 0usize;
  for (i, ((e, eleft), (g, left))) in exp.iter().zip(&got).enumerate() {
    let ok = match (e, g) {
      (Out::Tok(d, t, s, en), Ok((Some((gd, gt)), sp))) => {
        let span_ok = !spans || ((sp.start().line, sp.start().col), (sp.end().line, sp.end().col)) == (*s, *en);
        d == gd && t == gt && span_ok
      }
      (Out::Eof, Ok((None, _))) => true,
      (Out::Err(_), Err(())) => true,
      _ => false,
    };
    if !ok || eleft != left {
      return rep.ensure(false, || format!("{}: call {} yields {g:?} and leaves {left} symbols, expected {e:?} and {eleft} left", ctx(), i + 1));
    }
    covered += 1;
  }
  let _ = covered;
  true
}

fn catalogue() -> Vec<(Lx, Vec<R>)> {
  let mut ls = char_lexers();
  ls.push(generic_lexer());
  ls.push(ordered_lexer());
  ls.push(bordered_lexer());
  ls.push(many_lexer());
  ls.extend(byte_lexers());
  ls.into_iter()
    .map(|l| {
      let rs: Vec<R> = l
        .defs
        .iter()
        .map(|d| if d.0 == r"\S" { parse(r"[^\x{9}-\x{d}\x{20}\x{85}\x{a0}\x{1680}\x{2000}-\x{200a}\x{2028}\x{2029}\x{202f}\x{205f}\x{3000}]", l.bytes) } else { parse(d.0, l.bytes) })
        .collect();
      assert!(rs.iter().all(|r| !nullable(r)), "{}", l.name);
      (l, rs)
    })
    .collect()
}

fn gen_input(rng: &mut Rng, l: &Lx, rs: &[R], parts: usize) -> Vec<u32> {
  let mut w = vec![];
  for _ in 0..rng.below(parts) {
    let from = w.len();
    word(rng.pick(rs), rng, &mut w);
    match rng.below(10) {
      // cut the word short, or damage it
      0 | 1 => {
        let n = rng.range(from, w.len());
        w.truncate(n);
      }
      2 if w.len() > from => {
        let i = rng.range(from, w.len() - 1);
        w[i] = if rng.chance(1, 2) { w[i] + 1 } else { w[i].saturating_sub(1) };
      }
      3 => w.push(*rng.pick(&[32, 10, 0, 9, 97, 0x10ffff, 0x7f, 255, 256])),
      _ => {}
    }
  }
  for c in w.iter_mut() {
    if l.bytes {
      *c &= 255;
    } else if char::from_u32(*c).is_none() {
      *c = 0x41;
    }
  }
  w
}

fn big(l: &Lx) -> bool {
  let n = l.name.trim_start_matches(|c: char| !c.is_ascii_digit());
  n.parse::<u32>().is_ok_and(|n| n > 200)
}

fn random(rep: &mut Rep, cat: &[(Lx, Vec<R>)], spans: bool, salt: u64, frac: f64) {
  let mut rng = rep.rng(salt);
  // words of every definition
  for (l, rs) in cat {
    for r in rs {
      for _ in 0..2 {
        let mut w = vec![];
        word(r, &mut rng, &mut w);
        w.truncate(300);
        if l.bytes {
          w.iter_mut().for_each(|c| *c &= 255);
        }
        if !w.iter().all(|c| char::from_u32(*c).is_some()) {
          continue;
        }
        if !compare(rep, l, rs, &w, spans) {
          return;
        }
      }
    }
  }
  // words around the state limits of the long lexers
  for (l, rs) in cat.iter().filter(|(l, _)| big(l)) {
    for n in [0usize, 1, 100, 250, 251, 252, 253, 254, 255, 256, 257, 258, 260, 299, 300, 301, 508, 509, 510, 511, 512, 513] {
      for tail in [&[][..], &[98], &[97], &[98, 97], &[0x63]] {
        let mut w = vec![97; n];
        w.extend_from_slice(tail);
        if !compare(rep, l, rs, &w, spans) {
          return;
        }
      }
    }
  }
  let small: Vec<_> = cat.iter().filter(|(l, _)| !big(l)).collect();
  let mut k = 0usize;
  while rep.time_left(frac) {
    k += 1;
    let (l, rs) = small[k % small.len()];
    let long = rng.chance(1, 400);
    let parts = if long { 600 } else if k % 7 == 0 { 30 } else { 7 };
    let mut w = gen_input(&mut rng, l, rs, parts);
    if long && !w.is_empty() && rng.chance(1, 2) {
      // one symbol very often
      let i = rng.below(w.len());
      let c = w[i];
      w.truncate(60);
      w.splice(i.min(w.len())..i.min(w.len()), vec![c; rng.range(200, 3000)]);
    }
    if w.len() > if long { 4000 } else { 300 } {
      continue;
    }
    if !compare(rep, l, rs, &w, spans) {
      return;
    }
  }
}

fn c07(rep: &mut Rep) {
  let cat = catalogue();
  rep.bound(&format!("{} derived lexers over characters and bytes; all inputs of length <= 5 over four symbols for the small ones, random inputs up to 4000 symbols made from words of the definitions, cut, damaged and joined", cat.len()));
  let alpha: &[(&str, [u32; 4])] = &[
    ("Prefixes", [97, 98, 99, 120]),
    ("Same", [97, 98, 122, 48]),
    ("NoEof", [97, 42, 32, 45]),
    ("OnlySkip", [97, 98, 99, 122]),
    ("Dots", [97, 35, 10, 98]),
    ("Units", [105, 102, 45, 62]),
    ("OnlyUnits", [97, 98, 99, 100]),
    ("BUnits", [102, 110, 59, 10]),
    ("One", [97, 98, 10, 32]),
    ("Ordered", [97, 35, 48, 32]),
    ("BOrdered", [97, 45, 48, 10]),
    ("Counted10", [48, 101, 122, 95]),
    ("BCalc", [48, 43, 97, 32]),
    ("BNoEof", [10, 13, 97, 48]),
    ("BAll", [0, 127, 123, 90]),
  ];
  for (name, a) in alpha {
    let (l, rs) = cat.iter().find(|(l, _)| l.name == *name).unwrap();
    for len in 0..=5u32 {
      for code in 0..4usize.pow(len) {
        let mut c = code;
        let w: Vec<u32> = (0..len)
          .map(|_| {
            let x = a[c % 4];
            c /= 4;
            x
          })
          .collect();
        if !compare(rep, l, rs, &w, false) {
          return;
        }
      }
    }
  }
  random(rep, &cat, false, 7, 0.85);
}

/// The derived lexer agrees with the matcher built at run time from the same expressions.
fn against_matcher(rep: &mut Rep, l: &Lx, rs: &[R], rng: &mut Rng) -> bool {
  let b = l.defs.iter().enumerate().fold(RegexBuilder::new(), |b, (i, d)| b.add(d.0, i));
  macro_rules! go {
    ($t:ty, $m:ident, $conv:expr) => {{
      let $m = match guard_d(|| format!("building the matcher of {}", l.name), || b.build::<$t>()) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return rep.ensure(false, || format!("lexer {}: the matcher does not build: {e}", l.name)),
        Err(p) => return rep.ensure(false, || format!("lexer {}: building the matcher: {p}", l.name)),
      };
      let tt: StateTransTable<$t, usize> = $m.into();
      for _ in 0..if big(l) { 3 } else { 40 } {
        let w = gen_input(rng, l, rs, 4);
        // the matcher's own greedy first run
        let mut st = tt.init_id();
        let mut n = 0;
        for c in &w {
          match tt.next_state(st, &$conv(*c)) {
            Some(s) => {
              st = s;
              n += 1;
            }
            None => break,
          }
        }
        let tag = if n == 0 { None } else { tt.tags().get(&st).copied() };
        let ctx = || format!("lexer {} on {:?}", l.name, text(&w[..w.len().min(400)], l.bytes));
        rep.case(&("matcher", l.name, &w), tag.is_some());
        let got = match guard_d(ctx, || (l.run)(&w, 1)) {
          Ok(g) => g,
          Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
        };
        let (g, left) = &got[0];
        let ok = match (tag, g) {
          (Some(t), _) if l.defs[t].1 => true,
          (Some(t), Ok((Some((d, x)), _))) => t == *d && (if t < l.units { x == "*" } else { *x == text(&w[..n], l.bytes) }) && *left == w.len() - n,
          (Some(t), Err(())) => !(l.defs[t].2)(&text(&w[..n], l.bytes)) && *left == w.len() - n,
          (None, Err(())) => *left == w.len() - n,
          (None, Ok((None, _))) => w.is_empty(),
          _ => false,
        };
        if !ok {
          return rep.ensure(false, || format!("{}: the matcher takes {n} symbols and answers {tag:?}, the lexer yields {g:?} and leaves {left}", ctx()));
        }
      }
      true
    }};
  }
  if l.bytes {
    go!(u8, m, |c: u32| c as u8)
  } else {
    go!(char, m, |c: u32| char::from_u32(c).unwrap())
  }
}

fn c08(rep: &mut Rep) {
  let cat = catalogue();
  rep.bound(&format!("{} derived lexers (tables of 2 to 601 states, up to 320 definitions, among them 253 to 257) over characters and bytes: spans on random inputs, decisions against the matcher built at run time", cat.len()));
  let mut rng = rep.rng(8);
  for (l, rs) in &cat {
    if !against_matcher(rep, l, rs, &mut rng) {
      return;
    }
  }
  random(rep, &cat, true, 88, 0.85);
}

fn main() {
  vcommon::main_with(|p, rep| match p {
    "C07" => {
      c07(rep);
      Some("a case is one derived lexer on one input; non-trivial when at least two tokens are produced")
    }
    "C08" => {
      c08(rep);
      Some("a case is one derived lexer on one input; non-trivial when at least two tokens are produced, or when the matcher accepts the first run")
    }
    _ => None,
  })
}
