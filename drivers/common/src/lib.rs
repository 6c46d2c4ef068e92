//! Shared plumbing of the executable-contract drivers: a deterministic PRNG,
//! counters, samples, panic capture and the JSON report read by `check.py`.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    if n == 0 { 0 } else { (self.next() % n as u64) as usize }
  }
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
    &s[self.below(s.len())]
  }
}

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Silences the default hook and remembers the message of the last panic.
pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let m = info.to_string().replace('\n', " ");
    PANIC_MSG.with(|p| *p.borrow_mut() = m);
  }));
}

static GUARDS: AtomicU64 = AtomicU64::new(0);

fn trace_path() -> Option<&'static str> {
  static P: OnceLock<Option<String>> = OnceLock::new();
  P.get_or_init(|| std::env::var("VERIF_TRACE").ok()).as_deref()
}

/// Ends the process with status 70 when no guarded call has returned for 20 s.
fn watchdog() {
  std::thread::spawn(|| {
    let mut last = (0, Instant::now());
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let now = GUARDS.load(Ordering::Relaxed);
      if now != last.0 {
        last = (now, Instant::now());
      } else if now % 2 == 1 && last.1.elapsed() > Duration::from_secs(20) {
        eprintln!("a guarded call did not return within 20 s");
        std::process::exit(70);
      }
    }
  });
}

/// Runs `f`; a panic becomes `Err(message)`. `desc` names the case; it is only
/// evaluated when the run is traced (after a hang or a crash of the process).
pub fn guard_d<R>(desc: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
  if let Some(p) = trace_path() {
    let _ = std::fs::write(p, desc());
  }
  GUARDS.fetch_add(1, Ordering::Relaxed);
  let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| format!("panic: {}", p.borrow())));
  GUARDS.fetch_add(1, Ordering::Relaxed);
  r
}

/// As `guard_d`, for a case that needs no name.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  guard_d(|| "(unnamed call)".into(), f)
}

pub struct Rep {
  pub thorough: bool,
  pub seed: u64,
  pub evals: u64,
  distinct: HashSet<u64>,
  pub samples: Vec<String>,
  pub violation: Option<String>,
  pub bounds: Vec<String>,
  start: Instant,
  pub budget: Duration,
}

impl Rep {
  pub fn new(thorough: bool, seed: u64, budget_s: f64) -> Self {
    Rep {
      thorough,
      seed,
      evals: 0,
      distinct: HashSet::new(),
      samples: vec![],
      violation: None,
      bounds: vec![],
      start: Instant::now(),
      budget: Duration::from_secs_f64(budget_s),
    }
  }
  pub fn rng(&self, salt: u64) -> Rng {
    Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
  }
  pub fn done(&self) -> bool {
    self.violation.is_some()
  }
  /// The time left for the phase that may use `frac` of the whole budget.
  pub fn time_left(&self, frac: f64) -> bool {
    !self.done() && self.start.elapsed() < self.budget.mul_f64(frac)
  }
  pub fn bound(&mut self, s: &str) {
    self.bounds.push(s.to_string());
  }
  /// Counts one evaluation; `key` identifies the case, `nontrivial` by the rule of the driver.
  pub fn case<K: Hash + ?Sized>(&mut self, key: &K, nontrivial: bool) {
    self.evals += 1;
    if nontrivial && self.distinct.len() < 4_000_000 {
      let mut h = DefaultHasher::new();
      key.hash(&mut h);
      self.distinct.insert(h.finish());
    }
  }
  pub fn sample(&mut self, s: impl FnOnce() -> String) {
    let n = self.evals;
    if self.samples.len() < 3 || (n.is_power_of_two() && self.samples.len() < 12) {
      self.samples.push(s());
    }
  }
  pub fn fail(&mut self, s: String) {
    if self.violation.is_none() {
      self.violation = Some(s);
    }
  }
  /// Records a violation unless `ok`; returns `ok`.
  pub fn ensure(&mut self, ok: bool, s: impl FnOnce() -> String) -> bool {
    if !ok {
      self.fail(s());
    }
    ok
  }
  pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: &T, want: &T, ctx: impl FnOnce() -> String) -> bool {
    if got != want {
      self.fail(format!("{}\n  expected: {:?}\n  observed: {:?}", ctx(), want, got));
      false
    } else {
      true
    }
  }
  pub fn json(&self, rule: &str) -> String {
    let esc = |s: &str| {
      let mut o = String::from("\"");
      for c in s.chars() {
        match c {
          '"' => o += "\\\"",
          '\\' => o += "\\\\",
          '\n' => o += "\\n",
          c if (c as u32) < 0x20 || (c as u32) == 0x7f => o += &format!("\\u{:04x}", c as u32),
          c => o.push(c),
        }
      }
      o.push('"');
      o
    };
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    format!(
      "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"bounds\":[{}],\"violation\":{},\"wall_s\":{:.3}}}",
      self.evals,
      self.distinct.len(),
      esc(rule),
      list(&self.samples),
      list(&self.bounds),
      self.violation.as_deref().map_or("null".into(), esc),
      self.start.elapsed().as_secs_f64()
    )
  }
}

/// Entry point shared by the drivers: `drv <PROP> <tier> <seed> <budget_s> <out.json>`.
pub fn main_with(run: impl Fn(&str, &mut Rep) -> Option<&'static str>) {
  install_panic_hook();
  watchdog();
  let a: Vec<String> = std::env::args().collect();
  let prop = &a[1];
  let mut rep = Rep::new(a[2] == "thorough", a[3].parse().unwrap(), a[4].parse().unwrap());
  let r = catch_unwind(AssertUnwindSafe(|| run(prop, &mut rep)))
    .map_err(|_| PANIC_MSG.with(|p| format!("panic: {}", p.borrow())));
  let rule = match r {
    Ok(Some(rule)) => rule,
    Ok(None) => {
      eprintln!("unknown property {prop}");
      std::process::exit(3);
    }
    Err(m) => {
      rep.fail(format!("the driver panicked outside a guarded call: {m}"));
      "driver panic"
    }
  };
  std::fs::write(&a[5], rep.json(rule)).unwrap();
  std::process::exit(if rep.done() { 1 } else { 0 });
}
