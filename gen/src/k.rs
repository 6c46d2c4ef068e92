// written by tools/gen_gkind.py
use laps::token::token_kind;
use std::fmt;

macro_rules! value {
  ($($t:ident)*) => {$(
    #[derive(Clone, PartialEq)]
    pub struct $t;
    impl fmt::Display for $t {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("v") }
    }
  )*};
}
value!(V1 V2 V3 V4 V5 V6 V7 V8 V9);

#[token_kind]
pub enum K {
  /// String literal.
  Str(V1),
  /// Integer LITERAL
  Int(V2),
  CharLit(V3),
  FP(V4),
  /// A doc comment
  /// over two Lines.
  Two(V5),
  /// Ends with two..
  Flag(V6),
  /// End-of-file.
  Eof,
  PlainUnit,
  /// Pair of things.
  Pair(V1, V2),
  NamedThing { x: V1 },
  X,
  URLPath(V7),
  ///
  EmptyDoc(V8),
  Nothing(),
  r#Raw,
  /// Left brace `{` or {}.
  Brace,
  /// Value {v} in }{.
  Braced(V9),
}
