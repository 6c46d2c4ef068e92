// written by tools/gen_gtoken.py
use laps::prelude::*;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Add, Sub, Mul(u8), Div(u8) }
impl fmt::Display for Op {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("op") }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Int(i64), Word(u32), Op(Op), Pair(u8, Op), Named { x: u8, y: Op }, Eof }
impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("kind") }
}
pub fn odd(w: &u32) -> bool { w % 2 == 1 }

token_ast! {
  pub(crate) macro Tok<Kind> {
    [+] => { kind: Kind::Op(Op::Add) },
    [eof] => { kind: Kind::Eof },
    [seven] => { kind: Kind::Int(7) },
    [*] => { kind: Kind::Op(Op::Mul(2)) },
    [any] => { kind: _, prompt: "anything" },
    [int] => { kind: Kind::Int(_), prompt: "integer" },
    [pos] => { kind: Kind::Int(i) if *i > 0, prompt: "positive integer" },
    [word] => { kind: Kind::Word(w) if odd(w), prompt: "odd word" },
    [additive] => { kind: Kind::Op(Op::Add | Op::Sub) | Kind::Eof, prompt: "additive" },
    [mulop] => { kind: Kind::Op(Op::Mul(a)) | Kind::Op(Op::Div(a)) if *a < 3, prompt: "small" },
    [range] => { kind: Kind::Int(1..=9), prompt: "digit" },
    [pair] => { kind: Kind::Pair(_, Op::Sub), prompt: "pair" },
    [named] => { kind: Kind::Named { x: 3, .. }, prompt: "named" },
  }
}
