//! Executable contracts of `laps` run against the real crate (logger on).
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod inputs;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C09" | "C10" => {
        inputs::readers(rep, p == "C09");
        "a case is one byte sequence with one way to split it into reads (and possibly failing reads); non-trivial when it has at least two reads that deliver bytes"
      }
      "C11" => {
        inputs::c11(rep);
        "a case is one history of reads and line/column settings on one reader; non-trivial when it reads a line feed or sets the location"
      }
      "C12" => {
        inputs::c12(rep);
        "a case is one history of reads, peeks and put-backs on one reader; non-trivial when it puts an item back or peeks"
      }
      "C13" => {
        inputs::c13(rep);
        "a case is one input, position and predicate; non-trivial when at least one symbol is consumed"
      }
      _ => return None,
    })
  })
}
