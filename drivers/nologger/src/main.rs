//! C28 without feature `logger`: the errors carry the messages.
use laps::span::{Error, FileType, Location, Result, Span};
use laps::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning, return_error};
use vcommon::{guard_d, Rep};

fn ret_err(s: &Span, n: u32) -> Result<u32> {
  return_error!(s, "returned {n}")
}

type Msg = Option<(bool, String)>;
fn msg(e: Error) -> Msg {
  let fatal = e.is_fatal();
  Some(match e {
    Error::Normal(m) => (fatal && false, m),
    Error::Fatal(m) => (fatal || true, m),
  })
}

/// One report of kind `k`: what it returned, and (errors, warnings, located, fatal).
fn report(s: &Span, k: usize, n: u32) -> (Msg, (usize, usize, bool, bool)) {
  match k {
    0 => (msg(s.log_raw_error(format_args!("m {n}"))), (1, 0, false, false)),
    1 => (msg(s.log_raw_fatal_error(format_args!("m {n}"))), (1, 0, false, true)),
    2 => {
      s.log_raw_warning(format_args!("m {n}"));
      (None, (0, 1, false, false))
    }
    3 => (msg(s.log_error(format_args!("m {n}"))), (1, 0, true, false)),
    4 => (msg(s.log_fatal_error(format_args!("m {n}"))), (1, 0, true, true)),
    5 => {
      s.log_warning(format_args!("m {n}"));
      (None, (0, 1, false, false))
    }
    6 => (msg(log_raw_error!(s, "m {}", n)), (1, 0, false, false)),
    7 => (msg(log_raw_fatal_error!(s, "m {n}")), (1, 0, false, true)),
    8 => {
      log_raw_warning!(s, "m {n}");
      (None, (0, 1, false, false))
    }
    9 => (msg(log_error!(s, "m {n}")), (1, 0, true, false)),
    10 => (msg(log_fatal_error!(s, "m {n}")), (1, 0, true, true)),
    11 => {
      log_warning!(s, "m {n}");
      (None, (0, 1, false, false))
    }
    _ => (msg(ret_err(s, n).unwrap_err()), (1, 0, true, false)),
  }
}

fn c28(rep: &mut Rep) {
  rep.bound("without feature `logger`: random histories of up to 30 reports of all 13 kinds on clones and updates of spans of three sources, single-threaded, and from up to 8 threads");
  let mut rng = rep.rng(128);
  let mut k = 0;
  while rep.time_left(0.6) && k < 60_000 {
    k += 1;
    let path = std::path::Path::new("/no/such/file.txt");
    let types = [FileType::Buffer, FileType::Stdin, FileType::File(path.into())];
    let names = ["<buffer>", "<stdin>", "/no/such/file.txt"];
    let mut pool: Vec<(Span, usize)> = types.into_iter().enumerate().map(|(i, t)| (Span::new(t), i)).collect();
    let mut counts = [(0usize, 0usize); 3];
    let mut log = vec![];
    for _ in 0..rng.range(1, 30) {
      let (s, src) = pool[rng.below(pool.len())].clone();
      match rng.below(6) {
        0 => {
          let mut s = s;
          s.update_loc(Location { line: rng.below(5) as u32, col: *rng.pick(&[0, 1, 7, u32::MAX]) });
          pool.push((s, src));
        }
        1 => {
          let (t, _) = &pool[rng.below(pool.len())];
          pool.push((s.into_end_updated(t), src));
        }
        _ => {
          let kind = rng.below(13);
          let n = rng.below(100) as u32;
          let (got, (e, w, located, fatal)) = match guard_d(|| format!("report {kind}"), || report(&s, kind, n)) {
            Ok(x) => x,
            Err(p) => {
              rep.fail(format!("{} then report {kind} at {s}: {p}", log.join(", ")));
              return;
            }
          };
          log.push(format!("report {kind} at {s} of source {src}"));
          counts[src].0 += e;
          counts[src].1 += w;
          let text = if kind == 12 { format!("returned {n}") } else { format!("m {n}") };
          let want = (e == 1).then(|| (fatal, if located { format!("{}:{}: {text}", names[src], s.start()) } else { text }));
          if got != want {
            rep.fail(format!("report {kind} at {s} of {} returned {got:?}, expected {want:?}", names[src]));
            return;
          }
        }
      }
      for (s, src) in &pool {
        let got = (s.error_num(), s.warning_num());
        if got != counts[*src] {
          rep.fail(format!("after {}: source {src} counts {got:?} errors and warnings, expected {:?}", log.join(", "), counts[*src]));
          return;
        }
      }
    }
    rep.case(&log, log.len() >= 2);
    rep.sample(|| log.join(", "));
  }
  let mut round = 0;
  while rep.time_left(0.85) && round < 400 {
    round += 1;
    let shared = Span::new(FileType::Buffer);
    let threads = rng.range(2, 8);
    let plans: Vec<Vec<usize>> = (0..threads).map(|_| (0..rng.range(10, 300)).map(|_| rng.below(13)).collect()).collect();
    let scratch = Span::new(FileType::Buffer);
    let mut want = (0, 0);
    for k in plans.iter().flatten() {
      let (_, w) = report(&scratch, *k, 0);
      want.0 += w.0;
      want.1 += w.1;
    }
    std::thread::scope(|sc| {
      for p in &plans {
        let s = shared.clone();
        sc.spawn(move || p.iter().for_each(|k| drop(report(&s, *k, 1))));
      }
    });
    rep.case(&("threads", round), true);
    let got = (shared.error_num(), shared.warning_num());
    if got != want {
      rep.fail(format!("{threads} threads: the source counts {got:?} errors and warnings, expected {want:?}"));
      return;
    }
  }
}

fn main() {
  vcommon::main_with(|p, rep| match p {
    "C28" => {
      c28(rep);
      Some("a case is one history of reports on spans of several sources without the logger; non-trivial when it has at least two reports")
    }
    _ => None,
  })
}
