#!/usr/bin/env python3
"""Writes gen/src/t.rs (declarations) and contracts/gtoken.inc.rs (their contracts, from the declarations)."""
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# (macro arm, pattern, guard, prompt, what it accepts: an expression over k)
D = [
    ("+", "Kind::Op(Op::Add)", None, None, "k == Kind::Op(Op::Add)"),
    ("eof", "Kind::Eof", None, None, "k == Kind::Eof"),
    ("seven", "Kind::Int(7)", None, None, "k == Kind::Int(7)"),
    ("*", "Kind::Op(Op::Mul(2))", None, None, "k == Kind::Op(Op::Mul(2))"),
    ("any", "_", None, "anything", "true"),
    ("int", "Kind::Int(_)", None, "integer", "k is Int"),
    ("pos", "Kind::Int(i)", "*i > 0", "positive integer", "k is Int && k->Int_0 > 0"),
    ("word", "Kind::Word(w)", "odd(w)", "odd word", "k is Word && is_odd(k->Word_0)"),
    ("additive", "Kind::Op(Op::Add | Op::Sub) | Kind::Eof", None, "additive", "k == Kind::Op(Op::Add) || k == Kind::Op(Op::Sub) || k == Kind::Eof"),
    ("mulop", "Kind::Op(Op::Mul(a)) | Kind::Op(Op::Div(a))", "*a < 3", "small", "(k matches Kind::Op(Op::Mul(a)) && a < 3) || (k matches Kind::Op(Op::Div(a)) && a < 3)"),
    ("range", "Kind::Int(1..=9)", None, "digit", "k is Int && 1 <= k->Int_0 <= 9"),
    ("pair", "Kind::Pair(_, Op::Sub)", None, "pair", "k is Pair && k->Pair_1 == Op::Sub"),
    ("named", "Kind::Named { x: 3, .. }", None, "named", "k is Named && k->x == 3"),
]
src = """// written by tools/gen_gtoken.py
use laps::prelude::*;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Add, Sub, Mul(u8), Div(u8) }
impl fmt::Display for Op {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("op") }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Int(i64), Word(u32), Op(Op), Pair(u8, Op), Named { x: u8, y: Op }, Eof }
impl fmt::Display for Kind {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("kind") }
}
pub fn odd(w: &u32) -> bool { w % 2 == 1 }

token_ast! {
  pub(crate) macro Tok<Kind> {
"""
inc = "// written by tools/gen_gtoken.py\n"
G = "gen mod t >> mod __token_ast_Tok >> "
for i, (tok, pat, guard, prompt, acc) in enumerate(D):
    src += f"    [{tok}] => {{ kind: {pat}{' if ' + guard if guard else ''}{f', prompt: {chr(34)}{prompt}{chr(34)}' if prompt else ''} }},\n"
    n = f"Token{i}"
    bad = "s.shift(1)" if prompt else "s"
    inc += f"""//@ item {G}struct {n}
//@ end
//@ item {G}impl {n} props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(ret),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(ret),
//@ end
pub open spec fn accepts{i}(k: Kind) -> bool {{ {acc} }}
//@ item {G}impl laps::parse::Parse for {n} props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported{' and skipped' if prompt else ', and stays'}.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {{
    match s.at(0) {{
      Ok(t) => if accepts{i}(t.kind) {{ r == Result::<Self>::Ok({n}(t)) && z == s.shift(1) }} else {{ r == Result::<Self>::Err(Error::Normal) && z == {bad} }},
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }}
  }}
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {{
    match s.at(0) {{ Ok(t) => r == Result::<bool>::Ok(accepts{i}(t.kind)), Err(e) => r == Result::<bool>::Err(e) }}
  }}
  open spec fn one_token() -> bool {{ true }}
  open spec fn accepts(t: TS::Token) -> bool {{ accepts{i}(t.kind) }}
//@ fn parse
//@ fn maybe
//@ entry
    proof {{ peek2_default(tokens.rest()); }}
//@ end
//@ item {G}impl laps::span::Spanned for {n} props=C23
//@ ghost
  open spec fn at(&self) -> Span {{ self.0.span }}
//@ fn span
//@ end
"""
src += "  }\n}\n"
inc = inc.replace("(ret)", "(r)")
open(os.path.join(HERE, "gen/src/t.rs"), "w").write(src)
open(os.path.join(HERE, "contracts/gtoken.inc.rs"), "w").write(inc)
