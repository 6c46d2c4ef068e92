//! C24: code generated by `token_kind`.
use laps::token::token_kind;
use std::convert::TryFrom;
use std::fmt;
use vcommon::{guard_d, Rep, Rng};

// ---------------------------------------------------------------- C24

/// A value that prints itself between angle brackets.
#[derive(Clone, Debug, PartialEq)]
struct Own(u8);
impl fmt::Display for Own {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "<{}>", self.0)
  }
}

#[token_kind]
#[derive(Debug)]
enum Big {
  /// String literal.
  Str(String),
  /// Integer LITERAL
  Int(i32),
  CharLit(char),
  FP(f64),
  /// A doc comment
  /// over two Lines.
  Two(u8),
  /// Ends with two..
  Flag(bool),
  /// End-of-file.
  Eof,
  PlainUnit,
  /// Pair of things.
  Pair(i64, u64),
  NamedThing {
    #[allow(dead_code)]
    x: u16,
  },
  /** Block style. */
  Block(Own),
  X,
  URLPath(Box<str>),
  ///
  EmptyDoc(i128),
  Nothing(),
  r#Raw(usize),
  /// Left brace `{` or {}.
  Brace,
  /// Value {v} in }{.
  Braced(i8),
}

/// Names and documentation of further shapes.
#[allow(non_camel_case_types, dead_code)]
#[token_kind]
#[derive(Debug)]
enum Names {
  A1B2,
  snake_case(u8),
  _Lead,
  lowerFirst(u16),
  /// Three
  /// LINES
  /// of it.
  Three(u32),
  /// Before
  #[allow(dead_code)]
  /// and after.
  Between,
  #[doc = "Explicit."]
  Explicit(u64),
  #[allow(dead_code)]
  Attr(i16),
  /// Quote "x" and \\ and 'y', i.e. v1.5.
  Quoted {},
  /// Percent %s and $x and #y
  Signs(i32, i32, i32),
  Élan,
  Z9(&'static str),
}

pub fn c24(rep: &mut Rep) {
  rep.bound("a token kind enumeration with 18 variants, another one with 12 (documented in several styles, undocumented, unit, pair, named, empty) and random values for those holding one");
  let mut rng = rep.rng(24);
  macro_rules! conv {
    ($t:ty, $v:expr, $var:ident, $txt:expr, $others:expr) => {{
      let v: $t = $v;
      let ctx = format!("Big::{} from {:?}", stringify!($var), v);
      rep.case(&ctx, true);
      rep.sample(|| ctx.clone());
      let r = guard_d(|| ctx.clone(), || -> std::result::Result<(), String> {
        let k = Big::from(v.clone());
        match &k {
          Big::$var(w) if *w == v => {}
          k => return Err(format!("converts into {k:?}")),
        }
        match <&$t>::try_from(&k) {
          Ok(w) if *w == v => {}
          w => return Err(format!("converts back by reference into {w:?}")),
        }
        match <$t>::try_from(k.clone()) {
          Ok(w) if w == v => {}
          w => return Err(format!("converts back into {w:?}")),
        }
        let want: String = format!("{} `{}`", $txt, v);
        if k.to_string() != want {
          return Err(format!("prints as {:?}, expected {want:?}", k.to_string()));
        }
        for o in $others {
          let o: Big = o;
          if matches!(o, Big::$var(_)) {
            continue;
          }
          if let Ok(w) = <$t>::try_from(o.clone()) {
            return Err(format!("{o:?} converts into {w:?}"));
          }
          if let Ok(w) = <&$t>::try_from(&o) {
            return Err(format!("{o:?} converts by reference into {w:?}"));
          }
        }
        Ok(())
      });
      match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) | Err(m) => {
          rep.fail(format!("{ctx}: {m}"));
          return;
        }
      }
    }};
  }
  for (k, want) in [
    (Big::Eof, "end-of-file"),
    (Big::PlainUnit, "plain unit"),
    (Big::Pair(1, 2), "pair of things"),
    (Big::NamedThing { x: 1 }, "named thing"),
    (Big::X, "x"),
    (Big::Nothing(), "nothing"),
    (Big::Brace, "left brace `{` or {}"),
  ] {
    rep.case(&want, true);
    let got = guard_d(|| want.to_string(), || k.to_string());
    if !rep.eq(&got, &Ok(want.to_string()), || format!("text of {k:?}")) {
      return;
    }
  }
  for (k, want) in [
    (Names::A1B2, "a1 b2"),
    (Names::snake_case(7), "snake_case `7`"),
    (Names::_Lead, "_ lead"),
    (Names::lowerFirst(8), "lower first `8`"),
    (Names::Three(9), "three lines of it `9`"),
    (Names::Between, "before and after"),
    (Names::Explicit(10), "explicit `10`"),
    (Names::Attr(-1), "attr `-1`"),
    (Names::Quoted {}, "quote \"x\" and \\\\ and 'y', i.e. v1.5"),
    (Names::Signs(1, 2, 3), "percent %s and $x and #y"),
    (Names::Z9("{}"), "z9 `{}`"),
  ] {
    rep.case(&want, true);
    let got = guard_d(|| want.to_string(), || k.to_string());
    if !rep.eq(&got, &Ok(want.to_string()), || format!("text of {k:?}")) {
      return;
    }
    let ctx = || format!("conversions of {k:?}");
    let ok = guard_d(ctx, || {
      (u8::try_from(k.clone()) == Ok(7)) == matches!(k, Names::snake_case(_))
        && (u16::try_from(k.clone()) == Ok(8)) == matches!(k, Names::lowerFirst(_))
        && (u32::try_from(k.clone()) == Ok(9)) == matches!(k, Names::Three(_))
        && (u64::try_from(k.clone()) == Ok(10)) == matches!(k, Names::Explicit(_))
        && (i16::try_from(k.clone()) == Ok(-1)) == matches!(k, Names::Attr(_))
        && (<&str>::try_from(k.clone()) == Ok("{}")) == matches!(k, Names::Z9(_))
        && (<&u8>::try_from(&k) == Ok(&7)) == matches!(k, Names::snake_case(_))
        && (<&u32>::try_from(&k) == Ok(&9)) == matches!(k, Names::Three(_))
        && Names::from(9u32) == Names::Three(9)
        && Names::from("x") == Names::Z9("x")
    });
    if !rep.ensure(ok == Ok(true), || format!("{}: {ok:?}", ctx())) {
      return;
    }
  }
  let all = |rng: &mut Rng| -> Vec<Big> {
    vec![
      Big::Str("s".into()),
      Big::Int(rng.next() as i32),
      Big::CharLit('c'),
      Big::FP(1.5),
      Big::Two(3),
      Big::Flag(true),
      Big::Eof,
      Big::PlainUnit,
      Big::Pair(1, 2),
      Big::NamedThing { x: 3 },
      Big::Block(Own(1)),
      Big::X,
      Big::URLPath("u".into()),
      Big::EmptyDoc(-1),
      Big::Nothing(),
      Big::Raw(0),
      Big::Brace,
      Big::Braced(1),
    ]
  };
  let max = if rep.thorough { 40_000 } else { 4_000 };
  let mut k = 0;
  while rep.time_left(0.85) && k < max {
    k += 1;
    let s: String = (0..rng.below(6)).map(|_| *rng.pick(&['a', '`', '{', '}', '字', ' ', '.'])).collect();
    let n = rng.next();
    conv!(String, s.clone(), Str, "string literal", all(&mut rng));
    conv!(i32, n as i32, Int, "integer literal", all(&mut rng));
    conv!(char, *rng.pick(&['x', '`', '\n', '😂']), CharLit, "char lit", all(&mut rng));
    conv!(f64, (n % 1000) as f64 / 8.0, FP, "f p", all(&mut rng));
    conv!(u8, n as u8, Two, "a doc comment over two lines", all(&mut rng));
    conv!(bool, n % 2 == 0, Flag, "ends with two.", all(&mut rng));
    conv!(Own, Own(n as u8), Block, "block style", all(&mut rng));
    conv!(Box<str>, s.clone().into(), URLPath, "u r l path", all(&mut rng));
    conv!(i128, -(n as i128), EmptyDoc, "empty doc", all(&mut rng));
    conv!(usize, n as usize, Raw, "raw", all(&mut rng));
    conv!(i8, n as i8, Braced, "value {v} in }{", all(&mut rng));
  }
}
