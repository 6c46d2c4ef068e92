//! Executable contracts of `laps` run against the real crate (logger on).
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod lits;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C14" => {
        lits::c14(rep);
        "a case is one text parsed for all twelve types with and without sign; non-trivial when some type accepts it"
      }
      "C15" => {
        lits::c15(rep);
        "a case is one text parsed as string and as character literal; non-trivial when it starts with a quote"
      }
      _ => return None,
    })
  })
}
