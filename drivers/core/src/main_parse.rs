//! Executable contracts of parsable types, provided and derived.
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod d22;
mod parsing;
mod tokens;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C21" => {
        parsing::maybes(rep, d22::entries());
        "a case is one type checked on one token stream; non-trivial when the answer is yes or an error"
      }
      "C22" => {
        d22::c22(rep);
        "a case is one derived type parsed from or checked on one token stream; non-trivial when a token is consumed"
      }
      _ => return None,
    })
  })
}
