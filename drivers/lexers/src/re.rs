//! Reference regular expressions: a parser for the patterns of the catalogue,
//! and partial derivatives, which tell what matches and what can continue.
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum R {
  Eps,
  Set(Vec<(u32, u32)>),
  Cat(Rc<R>, Rc<R>),
  Alt(Rc<R>, Rc<R>),
  /// At least `.1` and at most `.2` times.
  Rep(Rc<R>, u32, Option<u32>),
}

pub struct P<'a> {
  s: Vec<char>,
  i: usize,
  bytes: bool,
  src: &'a str,
}

pub fn parse(src: &str, bytes: bool) -> R {
  let mut p = P { s: src.chars().collect(), i: 0, bytes, src };
  let r = p.alt();
  assert!(p.i == p.s.len(), "reference parser: {}", p.src);
  r
}

impl P<'_> {
  fn peek(&self) -> Option<char> {
    self.s.get(self.i).copied()
  }
  fn alt(&mut self) -> R {
    let mut r = self.cat();
    while self.peek() == Some('|') {
      self.i += 1;
      r = R::Alt(Rc::new(r), Rc::new(self.cat()));
    }
    r
  }
  fn cat(&mut self) -> R {
    let mut r = R::Eps;
    while self.peek().is_some_and(|c| c != '|' && c != ')') {
      let x = self.rep();
      r = if r == R::Eps { x } else { R::Cat(Rc::new(r), Rc::new(x)) };
    }
    r
  }
  fn rep(&mut self) -> R {
    let mut r = self.atom();
    loop {
      let (lo, hi) = match self.peek() {
        Some('*') => (0, None),
        Some('+') => (1, None),
        Some('?') => (0, Some(1)),
        Some('{') => {
          self.i += 1;
          let lo = self.num();
          let hi = match self.peek() {
            Some(',') => {
              self.i += 1;
              if self.peek() == Some('}') { None } else { Some(self.num()) }
            }
            _ => Some(lo),
          };
          (lo, hi)
        }
        _ => return r,
      };
      self.i += 1;
      r = R::Rep(Rc::new(r), lo, hi);
    }
  }
  fn num(&mut self) -> u32 {
    let mut n = 0;
    while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
      n = n * 10 + d;
      self.i += 1;
    }
    n
  }
  fn escaped(&mut self) -> u32 {
    let c = self.peek().unwrap();
    self.i += 1;
    match c {
      'n' => 10,
      'r' => 13,
      't' => 9,
      'x' if self.peek() == Some('{') => {
        let e = self.s[self.i..].iter().position(|c| *c == '}').unwrap() + self.i;
        let h: String = self.s[self.i + 1..e].iter().collect();
        self.i = e + 1;
        u32::from_str_radix(&h, 16).unwrap()
      }
      'x' => {
        let h: String = self.s[self.i..self.i + 2].iter().collect();
        self.i += 2;
        u32::from_str_radix(&h, 16).unwrap()
      }
      c if c.is_ascii_punctuation() => c as u32,
      c => panic!("reference parser: escape {c} in {}", self.src),
    }
  }
  fn universe(&self) -> Vec<(u32, u32)> {
    if self.bytes { vec![(0, 255)] } else { vec![(0, 0xd7ff), (0xe000, 0x10ffff)] }
  }
  fn without(&self, v: &[(u32, u32)]) -> R {
    let mut out = self.universe();
    for (l, h) in v {
      out = out
        .into_iter()
        .flat_map(|(a, b)| {
          let mut w = vec![];
          if a < *l {
            w.push((a, b.min(l.wrapping_sub(1))));
          }
          if b > *h {
            w.push((a.max(h + 1), b));
          }
          w
        })
        .collect();
    }
    R::Set(out)
  }
  fn atom(&mut self) -> R {
    let c = self.peek().unwrap();
    self.i += 1;
    match c {
      '(' => {
        if self.peek() == Some('?') {
          while self.peek() != Some(':') {
            self.i += 1;
          }
          self.i += 1;
        }
        let r = self.alt();
        self.i += 1;
        r
      }
      '.' => self.without(&[(10, 10)]),
      '[' => {
        let neg = self.peek() == Some('^');
        if neg {
          self.i += 1;
        }
        let mut v = vec![];
        loop {
          let mut one = || {
            let c = self.peek().unwrap();
            self.i += 1;
            if c == '\\' { self.escaped() } else { c as u32 }
          };
          let l = one();
          let h = if self.peek() == Some('-') && self.s[self.i + 1] != ']' {
            self.i += 1;
            let c = self.peek().unwrap();
            self.i += 1;
            if c == '\\' { self.escaped() } else { c as u32 }
          } else {
            l
          };
          v.push((l, h));
          if self.peek() == Some(']') {
            self.i += 1;
            break;
          }
        }
        if neg { self.without(&v) } else { R::Set(v) }
      }
      '\\' => {
        let c = self.escaped();
        R::Set(vec![(c, c)])
      }
      c => R::Set(vec![(c as u32, c as u32)]),
    }
  }
}

pub fn nullable(r: &R) -> bool {
  match r {
    R::Eps => true,
    R::Set(_) => false,
    R::Cat(a, b) => nullable(a) && nullable(b),
    R::Alt(a, b) => nullable(a) || nullable(b),
    R::Rep(r, lo, _) => *lo == 0 || nullable(r),
  }
}

fn cat(a: R, b: &R) -> R {
  match (a, b) {
    (R::Eps, b) => b.clone(),
    (a, R::Eps) => a,
    (a, b) => R::Cat(Rc::new(a), Rc::new(b.clone())),
  }
}

/// The partial derivatives of `r` by `c` (every expression matches something,
/// so an empty set means that nothing can continue).
pub fn deriv(r: &R, c: u32, out: &mut BTreeSet<R>) {
  match r {
    R::Eps => {}
    R::Set(v) => {
      if v.iter().any(|(l, h)| *l <= c && c <= *h) {
        out.insert(R::Eps);
      }
    }
    R::Cat(a, b) => {
      let mut s = BTreeSet::new();
      deriv(a, c, &mut s);
      out.extend(s.into_iter().map(|x| cat(x, b)));
      if nullable(a) {
        deriv(b, c, out);
      }
    }
    R::Alt(a, b) => {
      deriv(a, c, out);
      deriv(b, c, out);
    }
    R::Rep(a, lo, hi) => {
      if *hi == Some(0) {
        return;
      }
      let mut s = BTreeSet::new();
      deriv(a, c, &mut s);
      let lo = if nullable(a) { 0 } else { lo.saturating_sub(1) };
      let rest = match hi {
        Some(1) => R::Eps,
        hi => R::Rep(a.clone(), lo, hi.map(|h| h - 1)),
      };
      out.extend(s.into_iter().map(|x| cat(x, &rest)));
    }
  }
}

pub type State = Vec<BTreeSet<R>>;

pub fn start(rs: &[R]) -> State {
  rs.iter().map(|r| [r.clone()].into_iter().collect()).collect()
}
/// The state after one more symbol; `None` when nothing can continue.
pub fn step(s: &State, c: u32) -> Option<State> {
  let t: State = s
    .iter()
    .map(|set| {
      let mut o = BTreeSet::new();
      set.iter().for_each(|r| deriv(r, c, &mut o));
      o
    })
    .collect();
  t.iter().any(|s| !s.is_empty()).then_some(t)
}
/// The first expression that matches what was read.
pub fn accepted(s: &State) -> Option<usize> {
  s.iter().position(|set| set.iter().any(nullable))
}

/// A word in the direction of `r` (used to make interesting inputs).
pub fn word(r: &R, rng: &mut vcommon::Rng, out: &mut Vec<u32>) {
  match r {
    R::Eps => {}
    R::Set(v) => {
      let (l, h) = *rng.pick(v);
      let c = match rng.below(4) {
        0 => l,
        1 => h,
        _ => l + rng.below(((h - l) as usize + 1).min(60)) as u32,
      };
      out.push(c);
    }
    R::Cat(a, b) => {
      word(a, rng, out);
      word(b, rng, out);
    }
    R::Alt(a, b) => word(if rng.chance(1, 2) { a } else { b }, rng, out),
    R::Rep(r, lo, hi) => {
      let n = match hi {
        Some(h) if rng.chance(1, 2) => *h as usize,
        Some(h) => rng.range(*lo as usize, *h as usize),
        None => *lo as usize + rng.below(4),
      };
      for _ in 0..n {
        word(r, rng, out);
      }
    }
  }
}
