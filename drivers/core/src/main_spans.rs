//! Executable contracts of `laps` run against the real crate (logger on).
#![allow(deprecated, dead_code, unused_imports, unused_macros, unused_mut)]
mod cap;
mod spans;
mod tokens;

fn main() {
  std::env::set_var("NO_COLOR", "1");
  std::env::set_var("CLICOLOR", "0");
  vcommon::main_with(|p, rep| {
    Some(match p {
      "C25" => {
        spans::c25(rep);
        "a case is one composite value; non-trivial when it has at least two parts"
      }
      "C27" => {
        spans::c27(rep);
        "a case is one history of span operations; all are non-trivial"
      }
      "C28" => {
        spans::c28(rep);
        "a case is one history of reports on spans of several sources; non-trivial when it has at least two reports"
      }
      "C29" => {
        spans::c29(rep);
        "a case is one report at one span of one file; non-trivial when a source excerpt is due"
      }
      _ => return None,
    })
  })
}
