//! Executable contracts of generated token types.
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod cap;
mod d23;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C23" => {
        d23::c23(rep);
        "a case is one generated token type on one stream; non-trivial when the token matches"
      }
      _ => return None,
    })
  })
}
