// declarations of the lexers put under contract (contracts/glexer.rs)
use laps::prelude::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Word(String);
impl std::str::FromStr for Word {
  type Err = ();
  fn from_str(s: &str) -> Result<Self, ()> { Ok(Self(s.into())) }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Num(usize);
pub fn to_num(s: &str) -> Option<Num> { Some(Num(s.len())) }

/// A lexer of characters.
#[derive(Tokenize)]
pub enum L {
  #[skip(r"[ \n]+")]
  Blank,
  #[regex(r"if")]
  If,
  #[eof]
  End,
  #[regex(r"[a-z][a-z0-9]*")]
  Word(Word),
  #[regex(r"[0-9]+(\.[0-9]+)?", to_num)]
  Num(Num),
  Reserved(Num),
  #[regex(r"=")]
  Assign(),
  #[regex(r"===")]
  Same,
  #[skip(r"#[^\n]*")]
  Comment,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Chunk(usize);
pub fn to_chunk(s: &[u8]) -> Option<Chunk> { Some(Chunk(s.len())) }

/// A lexer of bytes, without an end token.
#[derive(Tokenize)]
#[char_type(u8)]
pub enum B {
  #[skip(r"(?-u:[\x00-\x20]+)")]
  Pad,
  #[regex(r"ab", to_chunk)]
  Ab(Chunk),
  #[regex(r"(?-u:[a-z\x7f]+)", to_chunk)]
  Word(Chunk),
  #[regex(r"Ω(?-u:[0-9])?", to_chunk)]
  Greek(Chunk),
}
