//! Executable contracts of `laps` run against the real crate (logger on).
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod parsing;
mod tokens;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C19" => {
        parsing::sequences(rep);
        "a case is one sequence type parsed from one token stream; non-trivial when a token is consumed"
      }
      "C20" => {
        parsing::others(rep);
        "a case is one list, option, box, tuple, quoted or prefixed type parsed from one token stream; non-trivial when a token is consumed"
      }
      _ => return None,
    })
  })
}
