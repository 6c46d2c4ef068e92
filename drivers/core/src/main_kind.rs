//! Executable contracts of generated token kinds.
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod d24;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C24" => {
        d24::c24(rep);
        "a case is one token kind value; all are non-trivial"
      }
      _ => return None,
    })
  })
}
