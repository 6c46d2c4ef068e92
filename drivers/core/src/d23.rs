//! C23: code generated by `token_ast!`.
use crate::cap::{Capture, Scratch};
use laps::parse::Parse;
use laps::span::{FileType, Location, Result, Span, Spanned};
use laps::token::{token_ast, token_kind, Token, TokenBuffer, TokenStream, Tokenizer};
use std::collections::VecDeque;
use vcommon::{guard_d, Rep, Rng};

// ---------------------------------------------------------------- C23

macro_rules! t_entries {
  ($m:ident $([$($t:tt)*] $exp:literal, $ok:expr;)*) => {
    vec![$(t_entry!($m [$($t)*] $exp, $ok)),*]
  };
}
macro_rules! t_entry {
  ($m:ident [$($t:tt)*] $exp:literal, $ok:expr) => {
    TEntry {
      name: concat!(stringify!($m), "![", stringify!($($t)*), "]"),
      expected: $exp,
      ok: $ok,
      maybe: |s| <$m![$($t)*]>::maybe(s),
      parse: |s| <$m![$($t)*]>::parse(s).map(|t| { let sp = t.span(); (t.0, sp) }),
      maybe_buf: |s| <$m![$($t)*]>::maybe(s),
      parse_buf: |s| s.parse::<$m![$($t)*]>().map(|t| { let sp = t.span(); (t.0, sp) }),
    }
  };
}

/// Kinds of tokens with values.
#[token_kind]
#[derive(Debug)]
pub enum Kd {
  /// Number.
  Num(u32),
  Name(String),
  Op(char),
  /// End-of-file.
  Eof,
}

mod inner {
  use super::Kd;
  laps::token::token_ast! {
    #[derive(Debug, PartialEq, Clone)]
    pub(crate) macro crate::d23::inner::T<Kd> {
      [number] => { kind: Kd::Num(_), prompt: "a number" },
      [small] => { kind: Kd::Num(n) if *n < 10, prompt: "a small number" },
      [name] => { kind: Kd::Name(_), prompt: "a name", },
      [lit] => { kind: Kd::Num(_) | Kd::Name(_), prompt: "a literal" },
      [word] => { kind: | Kd::Num(1) | Kd::Op('w'), prompt: "a word" },
      [+] => { kind: Kd::Op('+') },
      [-] => { kind: Kd::Op('-') },
      [five] => { kind: Kd::Num(5) },
      [longname] => { kind: Kd::Name(s) if s.len() > 3 && s.starts_with('n'), prompt: "a long name" },
      [any] => { kind: _, prompt: "anything" },
      [eof] => { kind: Kd::Eof },
    }
  }
}
use inner::T as Tt;

// without a visibility, and without derives
token_ast! {
  macro Own<Kd> {
    [small] => { kind: Kd::Num(n) if *n < 10, prompt: "a small own number" },
    [+] => { kind: Kd::Op('+') },
  }
}
// the name of a macro can be a raw identifier
token_ast! {
  /// Its tokens.
  #[allow(unused_macros)]
  pub(self) macro r#Fn<Kd> {
    [name] => { kind: Kd::Name(_), prompt: "a raw name" },
    [eof] => { kind: Kd::Eof },
  }
}
token_ast! {
  pub(crate) macro Of<Kd> {
    [lit] => { kind: Kd::Num(_) | Kd::Name(_), prompt: "a literal of it" },
    [five] => { kind: Kd::Num(5) },
  }
}
mod deep {
  use super::Kd;
  pub mod er {
    use super::Kd;
    // the path is the one from where the macro is used
    laps::token::token_ast! {
      #[derive(Debug)]
      #[derive(Clone, PartialEq)]
      pub(super) macro er::Sup<Kd> {
        [number] => { kind: Kd::Num(_), prompt: "a deep number" },
        [-] => { kind: Kd::Op('-') },
      }
    }
    laps::token::token_ast! {
      pub(in crate::d23::deep) macro er::InCrate<Kd> {
        [any] => { kind: _, prompt: "anything deep" },
        [+] => { kind: Kd::Op('+') },
      }
    }
    laps::token::token_ast! {
      pub(in super::super) macro crate::d23::deep::er::InSuper<Kd> {
        [longname] => { kind: Kd::Name(s) if s.len() > 3, prompt: "a {longer} name {} }{", },
        [+] => { kind: Kd::Op('+') },
      }
    }
  }
  use er::{InCrate, Sup};
  pub fn entries() -> Vec<super::TEntry> {
    use super::{KStream, TEntry};
    use laps::parse::Parse;
    use laps::span::Spanned;
    use laps::token::TokenStream;
    let mut es: Vec<TEntry> = t_entries! { Sup
      [number] "expected a deep number", |k| matches!(k, Kd::Num(_));
      [-] "expected op `-`", |k| *k == Kd::Op('-');
    };
    es.extend::<Vec<TEntry>>(t_entries! { InCrate
      [any] "expected anything deep", |_| true;
      [+] "expected op `+`", |k| *k == Kd::Op('+');
    });
    es
  }
}
use deep::er::InSuper;

type KTok = Token<Kd>;

struct KStream {
  rest: VecDeque<KTok>,
}
impl Tokenizer for KStream {
  type Token = KTok;
  fn next_token(&mut self) -> Result<KTok> {
    Ok(self.rest.pop_front().unwrap())
  }
}
impl TokenStream for KStream {
  fn unread(&mut self, token: KTok) {
    self.rest.push_front(token)
  }
}
struct KOnly(VecDeque<KTok>);
impl Tokenizer for KOnly {
  type Token = KTok;
  fn next_token(&mut self) -> Result<KTok> {
    Ok(self.0.pop_front().unwrap())
  }
}

struct TEntry {
  name: &'static str,
  expected: &'static str,
  ok: fn(&Kd) -> bool,
  maybe: fn(&mut KStream) -> Result<bool>,
  parse: fn(&mut KStream) -> Result<(KTok, Span)>,
  maybe_buf: fn(&mut TokenBuffer<KOnly, KTok>) -> Result<bool>,
  parse_buf: fn(&mut TokenBuffer<KOnly, KTok>) -> Result<(KTok, Span)>,
}
fn kinds(rng: &mut Rng) -> Kd {
  match rng.below(8) {
    0 => Kd::Num(rng.below(12) as u32),
    1 => Kd::Num(*rng.pick(&[0, 1, 5, 9, 10, 11, u32::MAX])),
    2 => Kd::Name((*rng.pick(&["", "x", "name", "nnn", "nnnn", "other", "字字"])).into()),
    3 => Kd::Name("name".into()),
    4 => Kd::Op(*rng.pick(&['+', '-', 'w', '*', '5'])),
    5 => Kd::Op('+'),
    6 => Kd::Num(5),
    _ => Kd::Eof,
  }
}

pub fn c23(rep: &mut Rep) {
  let mut es: Vec<TEntry> = t_entries! { Tt
    [number] "expected a number", |k| matches!(k, Kd::Num(_));
    [small] "expected a small number", |k| matches!(k, Kd::Num(n) if *n < 10);
    [name] "expected a name", |k| matches!(k, Kd::Name(_));
    [lit] "expected a literal", |k| matches!(k, Kd::Num(_) | Kd::Name(_));
    [word] "expected a word", |k| matches!(k, Kd::Num(1) | Kd::Op('w'));
    [+] "expected op `+`", |k| *k == Kd::Op('+');
    [-] "expected op `-`", |k| *k == Kd::Op('-');
    [five] "expected number `5`", |k| *k == Kd::Num(5);
    [longname] "expected a long name", |k| matches!(k, Kd::Name(s) if s.len() > 3 && s.starts_with('n'));
    [any] "expected anything", |_| true;
    [eof] "expected end-of-file", |k| *k == Kd::Eof;
  };
  es.extend::<Vec<TEntry>>(t_entries! { Own
    [small] "expected a small own number", |k| matches!(k, Kd::Num(n) if *n < 10);
    [+] "expected op `+`", |k| *k == Kd::Op('+');
  });
  es.extend::<Vec<TEntry>>(t_entries! { r#Fn
    [name] "expected a raw name", |k| matches!(k, Kd::Name(_));
    [eof] "expected end-of-file", |k| *k == Kd::Eof;
  });
  es.extend::<Vec<TEntry>>(t_entries! { Of
    [lit] "expected a literal of it", |k| matches!(k, Kd::Num(_) | Kd::Name(_));
    [five] "expected number `5`", |k| *k == Kd::Num(5);
  });
  es.extend::<Vec<TEntry>>(t_entries! { InSuper
    [longname] "expected a {longer} name {} }{, found ", |k| matches!(k, Kd::Name(s) if s.len() > 3);
    [+] "expected op `+`", |k| *k == Kd::Op('+');
  });
  es.extend(deep::entries());
  rep.bound(&format!("{} generated token types (alternatives, guards, values, wildcards) on random token streams, parsed and checked through two kinds of streams", es.len()));
  let dir = Scratch::new("c23");
  let mut cap = Capture::new(&dir);
  let mut rng = rep.rng(23);
  let mut k = 0;
  while rep.time_left(0.85) && k < 60_000 {
    k += 1;
    let source = Span::new(FileType::Buffer);
    let toks: Vec<KTok> = (0..3)
      .map(|i| {
        let mut s = source.clone();
        s.update_loc(Location { line: i + 1, col: 3 + k % 7 });
        let mut e = s.clone();
        e.update_loc(Location { line: i + 1, col: 30 + k % 5 });
        s.update_end(e);
        Token { kind: kinds(&mut rng), span: s }
      })
      .collect();
    let e = &es[rng.below(es.len())];
    let ok = (e.ok)(&toks[0].kind);
    let ctx = || format!("{} on the tokens {:?}", e.name, toks.iter().map(|t| &t.kind).collect::<Vec<_>>());
    rep.case(&ctx(), ok);
    rep.sample(ctx);
    let same = |t: &KTok, u: &KTok| t.kind == u.kind && t.span == u.span;
    let r = guard_d(ctx, || -> std::result::Result<(), String> {
      let buf = |t: &[KTok]| t.iter().cloned().collect::<VecDeque<_>>();
      // the checks
      let mut s = KStream { rest: buf(&toks) };
      let mut b = TokenBuffer::new(KOnly(buf(&toks)));
      for (m, which) in [((e.maybe)(&mut s), "a stream"), ((e.maybe_buf)(&mut b), "a buffer")] {
        if m != Ok(ok) {
          return Err(format!("the check through {which} answers {m:?}, expected {ok}"));
        }
      }
      for t in &toks {
        if !same(&s.next_token().unwrap(), t) || !same(&b.next_token().unwrap(), t) {
          return Err(format!("the check changed the stream before {t}"));
        }
      }
      if source.error_num() != 0 {
        return Err("the check reported an error".into());
      }
      // parsing
      for which in 0..2 {
        let mut s = KStream { rest: buf(&toks) };
        let mut b = TokenBuffer::new(KOnly(buf(&toks)));
        let before = source.error_num();
        let (p, out) = cap.run(|| if which == 0 { (e.parse)(&mut s) } else { (e.parse_buf)(&mut b) });
        match (ok, p) {
          (true, Ok((t, sp))) => {
            if !same(&t, &toks[0]) || sp != toks[0].span {
              return Err(format!("it holds {t} at {sp}, expected {} at {}", toks[0], toks[0].span));
            }
            if source.error_num() != before || source.warning_num() != 0 {
              return Err("an error was reported although it parsed".into());
            }
            for t in &toks[1..] {
              let n = if which == 0 { s.next_token() } else { b.next_token() }.unwrap();
              if !same(&n, t) {
                return Err(format!("the next token is {n}, expected {t}"));
              }
            }
          }
          (false, Err(er)) => {
            if er.is_fatal() {
              return Err("the error is fatal".into());
            }
            if source.error_num() != before + 1 || source.warning_num() != 0 {
              return Err(format!("{} errors were reported, expected one", source.error_num() - before));
            }
            if !out.contains(e.expected) {
              return Err(format!("the report is {out:?}, expected it to contain {:?}", e.expected));
            }
          }
          (_, p) => return Err(format!("parsing gives {}, expected {}", if p.is_ok() { "success" } else { "an error" }, if ok { "success" } else { "an error" })),
        }
      }
      Ok(())
    });
    match r {
      Ok(Ok(())) => {}
      Ok(Err(m)) | Err(m) => {
        rep.fail(format!("{}: {m}", ctx()));
        return;
      }
    }
    // unwrapping
    let t0 = toks[0].clone();
    let r = guard_d(ctx, || -> std::result::Result<(), String> {
      let mut s = KStream { rest: [t0.clone()].into_iter().collect() };
      match &t0.kind {
        Kd::Num(n) => {
          let t = <Tt![number]>::parse(&mut s).map_err(|_| "a number does not parse")?;
          if t.unwrap_ref::<&u32, _>() != n || t.clone().unwrap::<u32, _>() != *n {
            return Err(format!("unwrapping {n} gives another value"));
          }
        }
        Kd::Name(n) => {
          let t = <Tt![lit]>::parse(&mut s).map_err(|_| "a name does not parse")?;
          if t.unwrap_ref::<&String, _>() != n || t.clone().unwrap::<String, _>() != *n {
            return Err(format!("unwrapping {n} gives another value"));
          }
        }
        Kd::Op(c @ ('+' | '-')) => {
          let (r, o) = match c {
            '+' => {
              let t = <Tt![+]>::parse(&mut s).map_err(|_| "+ does not parse")?;
              (*t.unwrap_ref::<&char, _>(), t.unwrap::<char, _>())
            }
            _ => {
              let t = <Tt![-]>::parse(&mut s).map_err(|_| "- does not parse")?;
              (*t.unwrap_ref::<&char, _>(), t.unwrap::<char, _>())
            }
          };
          if r != *c || o != *c {
            return Err(format!("unwrapping {c:?} gives {r:?} and {o:?}"));
          }
        }
        _ => {}
      }
      Ok(())
    });
    match r {
      Ok(Ok(())) => {}
      Ok(Err(m)) | Err(m) => {
        rep.fail(format!("unwrapping the token {}: {m}", toks[0]));
        return;
      }
    }
  }
}
