//! Executable contracts of derived spans.
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod cap;
mod d26;
mod spans;
mod tokens;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C26" => {
        d26::c26(rep);
        "a case is one value of a type with a derived span; non-trivial when it has at least two fields"
      }
      _ => return None,
    })
  })
}
