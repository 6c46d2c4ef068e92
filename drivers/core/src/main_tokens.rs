//! Executable contracts of `laps` run against the real crate (logger on).
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod tokens;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C16" => {
        tokens::c16(rep);
        "a case is one history of operations on a token buffer; non-trivial when it contains a put-back or a peek of several tokens"
      }
      "C17" => {
        tokens::c17(rep);
        "a case is one history of helper calls on a token stream; non-trivial when it contains an expectation, a skip, a collection or an error"
      }
      "C18" => {
        tokens::c18(rep);
        "a case is one stream with one chain of look-ahead operations; non-trivial when the chain has at least two"
      }
      _ => return None,
    })
  })
}
