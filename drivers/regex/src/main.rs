//! Executable contracts of laps_regex: C01..C06.
use laps_regex::mir::SymbolOp;
use laps_regex::re::{BytesMatcher, CharsMatcher, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use std::fmt::Debug;
use vcommon::{guard, guard_d, main_with, Rep, Rng};

/// The specification side: regular expressions with their language given directly.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum R {
  Eps,
  Set(Vec<(u32, u32)>),
  Cat(Vec<R>),
  Alt(Vec<R>),
  Rep(Box<R>, u32, Option<u32>),
}

/// End positions reachable by matching `r` on `w` from the start positions `s` (bit sets).
fn ends(r: &R, w: &[u32], s: u32) -> u32 {
  if s == 0 {
    return 0;
  }
  match r {
    R::Eps => s,
    R::Set(cs) => {
      let mut o = 0;
      for (i, c) in w.iter().enumerate() {
        if s & (1 << i) != 0 && cs.iter().any(|(l, h)| l <= c && c <= h) {
          o |= 1 << (i + 1);
        }
      }
      o
    }
    R::Cat(v) => v.iter().fold(s, |s, r| ends(r, w, s)),
    R::Alt(v) => v.iter().fold(0, |o, r| o | ends(r, w, s)),
    R::Rep(r, lo, hi) => {
      let mut cur = s;
      for _ in 0..*lo {
        cur = ends(r, w, cur);
      }
      let mut all = cur;
      match hi {
        Some(hi) => {
          for _ in *lo..*hi {
            cur = ends(r, w, cur);
            all |= cur;
          }
        }
        None => loop {
          cur = ends(r, w, cur);
          if cur & !all == 0 {
            break;
          }
          all |= cur;
        },
      }
      all
    }
  }
}
fn matches(r: &R, w: &[u32]) -> bool {
  ends(r, w, 1) & (1 << w.len()) != 0
}
fn want(res: &[(R, i32)], w: &[u32]) -> Option<i32> {
  res.iter().filter(|(r, _)| matches(r, w)).map(|(_, t)| *t).min()
}

fn esc(c: u32, bytes: bool) -> String {
  match char::from_u32(c) {
    Some(ch) if ch.is_ascii_alphanumeric() => ch.to_string(),
    _ if bytes => format!("\\x{c:02x}"),
    _ => format!("\\x{{{c:x}}}"),
  }
}
/// Renders for regex_syntax; `rng` varies between equivalent spellings.
fn render(r: &R, bytes: bool, rng: &mut Rng) -> String {
  match r {
    R::Set(cs) if !bytes && cs.iter().all(|c| c.1 < 128) && rng.chance(1, 8) => format!("(?-u:{})", render(r, true, rng)),
    R::Eps => "(?:)".into(),
    R::Set(cs) if cs.len() == 1 && cs[0].0 == cs[0].1 => esc(cs[0].0, bytes),
    R::Set(cs) => {
      let mut s = String::from("[");
      for (l, h) in cs {
        s += &esc(*l, bytes);
        if l != h {
          s += "-";
          s += &esc(*h, bytes);
        }
      }
      s + "]"
    }
    R::Cat(v) => {
      let s: String = v.iter().map(|r| render(r, bytes, rng)).collect();
      if s.is_empty() { "(?:)".into() } else { format!("(?:{s})") }
    }
    R::Alt(v) => {
      let s: Vec<_> = v.iter().map(|r| render(r, bytes, rng)).collect();
      format!("{}{})", if rng.chance(1, 3) { "(" } else { "(?:" }, s.join("|"))
    }
    R::Rep(r, lo, hi) => {
      let s = render(r, bytes, rng);
      let q = match (lo, hi) {
        (0, None) => "*".into(),
        (1, None) => "+".into(),
        (0, Some(1)) => "?".into(),
        (n, None) => format!("{{{n},}}"),
        (n, Some(m)) if n == m => format!("{{{n}}}"),
        (n, Some(m)) => format!("{{{n},{m}}}"),
      };
      format!("(?:{s}){q}")
    }
  }
}
fn pattern(r: &R, bytes: bool, rng: &mut Rng) -> String {
  let s = render(r, bytes, rng);
  if bytes { format!("(?-u:{s})") } else { s }
}

/// All regular expressions with exactly `n` nodes over the given atoms.
fn by_size(n: usize, atoms: &[R]) -> Vec<R> {
  let mut t: Vec<Vec<R>> = vec![vec![], atoms.to_vec()];
  for k in 2..=n {
    let mut v = vec![];
    for r in t[k - 1].clone() {
      if !matches!(r, R::Rep(..)) {
        v.push(R::Rep(Box::new(r.clone()), 0, None));
        v.push(R::Rep(Box::new(r.clone()), 1, None));
        v.push(R::Rep(Box::new(r), 0, Some(1)));
      } else {
        v.push(R::Rep(Box::new(r), 0, None));
      }
    }
    for i in 1..k - 1 {
      for a in &t[i] {
        for b in &t[k - 1 - i] {
          v.push(R::Cat(vec![a.clone(), b.clone()]));
          v.push(R::Alt(vec![a.clone(), b.clone()]));
        }
      }
    }
    t.push(v);
  }
  t.pop().unwrap()
}
fn words(alpha: &[u32], max: usize) -> Vec<Vec<u32>> {
  let mut out = vec![vec![]];
  let mut cur = vec![vec![]];
  for _ in 0..max {
    let mut next = vec![];
    for w in &cur {
      for c in alpha {
        let mut x: Vec<u32> = w.clone();
        x.push(*c);
        next.push(x);
      }
    }
    out.extend(next.iter().cloned());
    cur = next;
  }
  out
}

/// Interesting scalar values: both ends of the domain, the surrogate gap, UTF-8 length changes.
const POINTS: &[u32] = &[
  0, 1, 9, 10, 13, 32, 48, 57, 65, 66, 67, 90, 95, 97, 98, 99, 122, 126, 127, 128, 254, 255, 256, 0x7ff, 0x800, 0xd7fe,
  0xd7ff, 0xe000, 0xe001, 0xfffe, 0xffff, 0x10000, 0x10ffe, 0x10fff, 0x11000, 0x10fffe, 0x10ffff,
];
fn valid(c: u32, bytes: bool) -> bool {
  if bytes { c < 256 } else { char::from_u32(c).is_some() }
}
fn rand_point(rng: &mut Rng, pool: &[u32], bytes: bool) -> u32 {
  loop {
    let c = if rng.chance(1, 12) { rng.below(0x110000) as u32 } else { *rng.pick(pool) };
    let c = if bytes { c & 0xff } else { c };
    if valid(c, bytes) {
      return c;
    }
  }
}
fn rand_set(rng: &mut Rng, pool: &[u32], bytes: bool) -> R {
  let n = 1 + rng.below(4) * rng.below(2);
  R::Set(
    (0..n)
      .map(|_| {
        let a = rand_point(rng, pool, bytes);
        let b = if rng.chance(1, 2) { a } else { rand_point(rng, pool, bytes) };
        (a.min(b), a.max(b))
      })
      .collect(),
  )
}
fn rand_re(rng: &mut Rng, depth: usize, pool: &[u32], bytes: bool) -> R {
  if depth == 0 || rng.chance(1, 6) {
    return if rng.chance(1, 12) { R::Eps } else { rand_set(rng, pool, bytes) };
  }
  match rng.below(6) {
    0 | 1 => R::Cat((0..rng.range(1, 3)).map(|_| rand_re(rng, depth - 1, pool, bytes)).collect()),
    2 | 3 => {
      let mut v: Vec<R> = (0..rng.range(2, 3)).map(|_| rand_re(rng, depth - 1, pool, bytes)).collect();
      if rng.chance(1, 4) {
        // common prefixes: the optimizer factors these out
        let p = rand_re(rng, 0, pool, bytes);
        v = v.into_iter().map(|r| R::Cat(vec![p.clone(), r])).collect();
      }
      if rng.chance(1, 6) {
        let d = v[0].clone();
        v.push(d);
      }
      R::Alt(v)
    }
    _ => {
      let r = Box::new(rand_re(rng, depth - 1, pool, bytes));
      match rng.below(8) {
        0..=2 => R::Rep(r, 0, None),
        3 => R::Rep(r, 1, None),
        4 => R::Rep(r, 0, Some(1)),
        5 => R::Rep(r, rng.range(0, 2) as u32, Some(2 + rng.below(2) as u32)),
        6 => R::Rep(r, rng.range(1, 3) as u32, None),
        _ => R::Rep(r, 2, Some(2)),
      }
    }
  }
}
/// Size after the expansion of counted repetitions (compilation is cubic in it).
fn cost(r: &R) -> usize {
  match r {
    R::Eps => 1,
    R::Set(cs) => cs.len(),
    R::Cat(v) | R::Alt(v) => v.iter().map(cost).sum::<usize>() + 1,
    R::Rep(r, lo, hi) => {
      let k = hi.map_or(1, |h| (h - lo) as usize);
      cost(r) * (*lo as usize + k * (k + 1) / 2) + 1
    }
  }
}
fn small_re(rng: &mut Rng, depth: usize, pool: &[u32], bytes: bool) -> R {
  loop {
    let r = rand_re(rng, depth, pool, bytes);
    if cost(&r) <= 30 {
      return r;
    }
  }
}
fn rand_pool(rng: &mut Rng, bytes: bool) -> Vec<u32> {
  match rng.below(3) {
    0 => vec![97, 98, 99],
    1 => (0..6).map(|i| 97 + i).collect(),
    _ => POINTS.iter().copied().filter(|c| valid(*c, bytes)).collect(),
  }
}
/// Symbols at, just inside and just outside every class bound of the expressions.
fn bounds_of(r: &R, out: &mut Vec<u32>) {
  match r {
    R::Eps => {}
    R::Set(cs) => {
      for (l, h) in cs {
        for c in [l.wrapping_sub(1), *l, l + 1, h.wrapping_sub(1), *h, h + 1] {
          out.push(c);
        }
        out.push(l + (h - l) / 2);
        for (lo, hi) in [(0xd7ff, 0xe000), (0xe000, 0xd7ff)] {
          if *l == lo || *h == lo {
            out.push(hi);
          }
        }
      }
    }
    R::Cat(v) | R::Alt(v) => v.iter().for_each(|r| bounds_of(r, out)),
    R::Rep(r, ..) => bounds_of(r, out),
  }
}
/// A word of the language of `r` (random walk), if short enough.
fn gen_word(r: &R, rng: &mut Rng, bytes: bool, out: &mut Vec<u32>) {
  if out.len() > 14 {
    return;
  }
  match r {
    R::Eps => {}
    R::Set(cs) => {
      let (l, h) = rng.pick(cs);
      let mut c = match rng.below(3) {
        0 => *l,
        1 => *h,
        _ => l + rng.below((h - l + 1) as usize) as u32,
      };
      if !valid(c, bytes) {
        c = *l;
      }
      out.push(c);
    }
    R::Cat(v) => v.iter().for_each(|r| gen_word(r, rng, bytes, out)),
    R::Alt(v) => {
      let r = rng.pick(v);
      gen_word(r, rng, bytes, out)
    }
    R::Rep(r, lo, hi) => {
      let hi = hi.unwrap_or(lo + 3);
      for _ in 0..rng.range(*lo as usize, hi as usize) {
        gen_word(r, rng, bytes, out);
      }
    }
  }
}

trait Sym: SymbolOp + Copy + Ord + std::hash::Hash + Debug + Send + Sync + Eq {
  const BYTES: bool;
  fn of(c: u32) -> Self;
  fn to(self) -> u32;
}
impl Sym for char {
  const BYTES: bool = false;
  fn of(c: u32) -> Self {
    char::from_u32(c).unwrap()
  }
  fn to(self) -> u32 {
    self as u32
  }
}
impl Sym for u8 {
  const BYTES: bool = true;
  fn of(c: u32) -> Self {
    c as u8
  }
  fn to(self) -> u32 {
    self as u32
  }
}
trait Build: Sym {
  fn build(ps: &[(String, i32)], par: Option<bool>) -> Result<RegexMatcher<Self, i32>, String>;
  /// (`is_str_match`, `is_match` of the symbols of the string)
  fn str_match(m: &RegexMatcher<Self, i32>, s: &str) -> (Option<i32>, Option<i32>);
}
fn builder(ps: &[(String, i32)], par: Option<bool>) -> RegexBuilder<i32> {
  ps.iter().fold(RegexBuilder::new(), |b, (p, t)| b.add(p, *t)).enable_par(par)
}
impl Build for char {
  fn build(ps: &[(String, i32)], par: Option<bool>) -> Result<CharsMatcher<i32>, String> {
    builder(ps, par).build::<char>().map_err(|e| e.to_string())
  }
  fn str_match(m: &CharsMatcher<i32>, s: &str) -> (Option<i32>, Option<i32>) {
    let v: Vec<char> = s.chars().collect();
    (m.is_str_match(s).copied(), m.is_match(&v).copied())
  }
}
impl Build for u8 {
  fn build(ps: &[(String, i32)], par: Option<bool>) -> Result<BytesMatcher<i32>, String> {
    builder(ps, par).build_bytes::<u8>().map_err(|e| e.to_string())
  }
  fn str_match(m: &BytesMatcher<i32>, s: &str) -> (Option<i32>, Option<i32>) {
    (m.is_str_match(s).copied(), m.is_match(s.as_bytes()).copied())
  }
}

fn show(w: &[u32], bytes: bool) -> String {
  if bytes {
    format!("{:?}", w.iter().map(|c| *c as u8).collect::<Vec<_>>())
  } else {
    format!("{:?}", w.iter().map(|c| char::from_u32(*c).unwrap()).collect::<String>())
  }
}

/// Builds, or records a violation (these patterns are all supported, so building must succeed).
fn must_build<S: Build>(rep: &mut Rep, ps: &[(String, i32)], par: Option<bool>) -> Option<RegexMatcher<S, i32>> {
  match guard_d(|| format!("building {ps:?}, enable_par = {par:?}"), || S::build(ps, par)) {
    Ok(Ok(m)) => Some(m),
    // regex_syntax turns an alternation of ASCII characters into a Unicode class, even under
    // (?-u); such classes are documented as unsupported in byte mode
    Ok(Err(e)) if S::BYTES && e.contains("Unicode in byte mode") => None,
    Ok(Err(e)) => {
      rep.fail(format!("building {ps:?} was refused: {e}"));
      None
    }
    Err(p) => {
      rep.fail(format!("building {ps:?} (enable_par = {par:?}): {p}"));
      None
    }
  }
}

/// Test words for a set of expressions: members, near-members and boundary symbols.
fn test_words<S: Sym>(res: &[(R, i32)], rng: &mut Rng, n: usize) -> Vec<Vec<u32>> {
  let mut alpha = vec![97, 98];
  res.iter().for_each(|(r, _)| bounds_of(r, &mut alpha));
  alpha.retain(|c| valid(*c, S::BYTES));
  alpha.sort_unstable();
  alpha.dedup();
  let mut out = vec![vec![]];
  for c in alpha.iter().take(40) {
    out.push(vec![*c]);
  }
  for _ in 0..n {
    let mut w = vec![];
    let r = rng.pick(res).0.clone();
    gen_word(&r, rng, S::BYTES, &mut w);
    if rng.chance(1, 4) {
      let r = rng.pick(res).0.clone();
      gen_word(&r, rng, S::BYTES, &mut w);
    }
    if rng.chance(1, 2) && !w.is_empty() {
      let i = rng.below(w.len());
      match rng.below(3) {
        0 => {
          w.remove(i);
        }
        1 => w[i] = *rng.pick(&alpha),
        _ => w.insert(i, *rng.pick(&alpha)),
      }
    }
    w.truncate(20);
    out.push(w);
  }
  for _ in 0..n / 3 {
    out.push((0..rng.below(5)).map(|_| *rng.pick(&alpha)).collect());
  }
  out
}

fn lang_case<S: Build>(rep: &mut Rep, rng: &mut Rng, res: &[(R, i32)], ws: &[Vec<u32>], tags: bool) {
  let ps: Vec<(String, i32)> = res.iter().map(|(r, t)| (pattern(r, S::BYTES, rng), *t)).collect();
  let par = *rng.pick(&[None, Some(false), Some(false), Some(false), Some(true)]);
  let par = if rng.chance(1, 20) { par } else { Some(false) };
  let m = match must_build::<S>(rep, &ps, par) {
    Some(m) => m,
    None => return,
  };
  let mut acc = false;
  for w in ws {
    let s: Vec<S> = w.iter().map(|c| S::of(*c)).collect();
    let got = match guard_d(|| format!("{ps:?} on {}", show(w, S::BYTES)), || m.is_match(&s).copied()) {
      Ok(g) => g,
      Err(p) => return rep.fail(format!("matching {} against {ps:?}: {p}", show(w, S::BYTES))),
    };
    let exp = want(res, w);
    acc |= exp.is_some();
    let bad = if tags { got != exp } else { got.is_some() != exp.is_some() };
    rep.evals += 1;
    if bad {
      return rep.fail(format!(
        "patterns (pattern, tag) {ps:?}, input {}\n  expected: {exp:?}\n  observed: {got:?}",
        show(w, S::BYTES)
      ));
    }
  }
  rep.case(&ps, acc);
  rep.sample(|| format!("{ps:?} on {} words", ws.len()));
}

/// A pattern set whose language is given by a closed formula, and words with their tags: sizes the
/// random sets do not reach (many states, many classes, many tags, long words).
struct Big {
  ps: Vec<(String, i32)>,
  words: Vec<(Vec<u32>, Option<i32>)>,
  chars_only: bool,
}

fn big_cases(thorough: bool) -> Vec<Big> {
  const A: u32 = 97;
  let rep_a = |k: usize| vec![A; k];
  let mut out = vec![];
  let sizes: &[usize] = if thorough { &[20, 40, 100, 150, 300, 520] } else { &[20, 70, 150, 300] };
  for &n in sizes {
    let ks: Vec<usize> = [0, 1, n / 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n].to_vec();
    let mut counted = |p: String, f: &dyn Fn(usize) -> bool| {
      out.push(Big { ps: vec![(p, 0)], words: ks.iter().map(|k| (rep_a(*k), f(*k).then_some(0))).collect(), chars_only: false });
    };
    counted(format!("a{{{n}}}"), &|k| k == n);
    counted(format!("a{{0,{n}}}"), &|k| k <= n);
    counted(format!("a{{{n},}}"), &|k| k >= n);
    counted(format!("(a{{{n}}})*"), &|k| k % n == 0);
    let half = n / 2;
    counted(format!("a{{{half},{n}}}"), &|k| half <= k && k <= n);
    // two counters, the smaller tag on the longer one
    out.push(Big {
      ps: vec![(format!("a{{{n}}}b?"), 1), (format!("a{{{half},}}"), 0)],
      words: ks.iter().flat_map(|k| {
        let mut w = rep_a(*k);
        w.push(98);
        [(rep_a(*k), if *k >= half { Some(0) } else { None }), (w, (*k == n).then_some(1))]
      }).collect(),
      chars_only: false,
    });
    // a prefix of unknown length is remembered to the end
    let mut w = vec![99; n];
    w.push(A);
    let mut v = w.clone();
    v.push(A);
    out.push(Big { ps: vec![(format!("(b|c)*a"), 0), (format!("c{{{n}}}aa"), 1)], words: vec![(w, Some(0)), (v, Some(1)), (rep_a(2), None)], chars_only: false });
  }
  // keywords, each with its own tag: in order, and with the smallest tag last
  for (n, rev) in [(12, true), (40, false), (40, true), (130, true), (300, false)] {
    let word = |i: usize| format!("k{}{}", (b'a' + (i % 7) as u8) as char, i);
    let tag = |i: usize| if rev { (n - i) as i32 } else { i as i32 };
    let mut ps: Vec<(String, i32)> = (0..n).map(|i| (word(i), tag(i))).collect();
    let all = if rev { 0 } else { n as i32 };
    ps.push(("k[a-g]9[0-9]*".into(), all));
    let u = |s: &str| s.chars().map(|c| c as u32).collect::<Vec<u32>>();
    let mut words = vec![];
    for i in 0..n {
      let s = word(i);
      let nine = s[2..].starts_with('9');
      words.push((u(&s), Some(if nine && rev { all } else { tag(i) })));
      words.push((u(&s[..2]), None));
      words.push((u(&format!("{s}x")), None));
    }
    words.push((u("ka9"), Some(if rev { all } else if word(9) == "ka9" { 9 } else { all })));
    out.push(Big { ps, words, chars_only: false });
    // the same words as one alternation
    let p = (0..n).map(word).collect::<Vec<_>>().join("|");
    let words = (0..n).flat_map(|i| [(u(&word(i)), Some(3)), (u(&word(i)[1..]), None)]).collect();
    out.push(Big { ps: vec![(p, 3)], words, chars_only: false });
  }
  // every tag accepts the lengths up to its own: the smallest wins everywhere
  for n in [10usize, 25, 40] {
    let ps = (0..n).map(|i| (format!("[a-c]{{0,{}}}", n - 1 - i), i as i32)).collect();
    let words = (0..=n).map(|k| (rep_a(k), (k < n).then_some(0))).collect();
    out.push(Big { ps, words, chars_only: false });
    let ps = (0..n).map(|i| (format!("[a-c]{{0,{i}}}"), i as i32)).collect();
    let words = (0..=n).map(|k| (rep_a(k), (k < n).then_some(k as i32))).collect();
    out.push(Big { ps, words, chars_only: false });
  }
  // classes of many ranges, cut in several places
  for n in [20u32, 70, 300, 700] {
    let at = |i: u32| 0x400 + 3 * i;
    let class: String = (0..n).map(|i| esc(at(i), false)).collect();
    let cut = n / 15;
    let inside = |c: u32| c >= 0x400 && (c - 0x400) % 3 == 0 && (c - 0x400) / 3 < n;
    let probe: Vec<u32> = (0x3fe..at(n) + 2).collect();
    let one = |f: &dyn Fn(u32) -> Option<i32>| probe.iter().map(|c| (vec![*c], f(*c))).collect::<Vec<_>>();
    out.push(Big { ps: vec![(format!("{}|[{class}]", esc(at(cut), false)), 0)], words: one(&|c| inside(c).then_some(0)), chars_only: true });
    out.push(Big {
      ps: vec![(format!("[{class}]"), 1), (format!("[{}-{}]", esc(at(cut) + 1, false), esc(at(cut) + 4, false)), 0)],
      words: one(&|c| if c > at(cut) && c <= at(cut) + 4 { Some(0) } else { inside(c).then_some(1) }),
      chars_only: true,
    });
    out.push(Big { ps: vec![(format!("[{class}]x"), 1), (format!("[^{class}]"), 0)], words: one(&|c| (!inside(c)).then_some(0)), chars_only: true });
    // each symbol leads to its own state
    if n <= 70 {
      let p: String = (0..n).map(|i| format!("|{}{}", esc(at(i), false), esc(at(i) + 1, false))).collect();
      let words = (0..n).flat_map(|i| [(vec![at(i), at(i) + 1], Some(0)), (vec![at(i), at((i + 1) % n) + 1], None), (vec![at(i)], None)]).collect();
      out.push(Big { ps: vec![(p[1..].to_string(), 0)], words, chars_only: true });
    }
  }
  // the symbol at a distance from the end decides: exponentially many subsets
  let d = if thorough { 9 } else { 7 };
  let mut rng = Rng::new(77);
  let mut words: Vec<(Vec<u32>, Option<i32>)> = vec![];
  for len in [1, d - 1, d, d + 1, 40, 1000, 6000] {
    for _ in 0..20 {
      let w: Vec<u32> = (0..len).map(|_| if rng.chance(1, 2) { 97 } else { 98 }).collect();
      let yes = len >= d && w[len - d] == 97;
      words.push((w, yes.then_some(0)));
    }
  }
  out.push(Big { ps: vec![(format!("(a|b)*a(a|b){{{}}}", d - 1), 0)], words, chars_only: false });
  // nesting
  for n in [10usize, 60] {
    let p = (0..n).fold("x".to_string(), |p, _| format!("(a{p}?b)"));
    let nest = |k: usize| [vec![97; k], vec![98; k]].concat();
    // (a(a(..x?..)?b)?b): any depth from 1 to n closes
    let words = (0..n + 2).map(|k| (nest(k), (1..=n).contains(&k).then_some(0))).collect();
    out.push(Big { ps: vec![(p, 0)], words, chars_only: false });
  }
  out
}

fn big_show(w: &[u32]) -> String {
  if w.len() <= 40 {
    show(w, false)
  } else {
    format!("{} ... ({} symbols)", show(&w[..20], false), w.len())
  }
}

/// What one of the large pattern sets is asked.
#[derive(Clone, Copy, PartialEq)]
enum Ask {
  Language,
  Tags,
  Stream,
  Table,
}

fn big_case<S: Build>(rep: &mut Rep, b: &Big, ask: Ask, par: Option<bool>) {
  let m = match must_build::<S>(rep, &b.ps, par) {
    Some(m) => m,
    None => return,
  };
  let name = || {
    let t = format!("{:?}", b.ps);
    if t.len() > 400 { format!("{} ... ({} patterns)", t.chars().take(400).collect::<String>(), b.ps.len()) } else { t }
  };
  let table = if ask == Ask::Table { must_build::<S>(rep, &b.ps, par).map(StateTransTable::from) } else { None };
  let mut m = m;
  for (w, exp) in &b.words {
    let s: Vec<S> = w.iter().map(|c| S::of(*c)).collect();
    let r = guard(|| {
      let whole = m.is_match(&s).copied();
      let other = match ask {
        Ask::Language | Ask::Tags => whole,
        Ask::Stream => {
          m.reset();
          if s.iter().all(|c| m.is_accept(c)) { m.is_final().copied() } else { None }
        }
        Ask::Table => table.as_ref().and_then(|t| {
          let n = t.num_states();
          let mut cur = t.init_id();
          for c in &s {
            let (_, (l, e)) = t.sym_map().range(*c..).next()?;
            if l > c {
              return None;
            }
            cur = t.table()[e * n + cur];
            if cur >= n {
              return None;
            }
          }
          t.tags().get(&cur).copied()
        }),
      };
      (whole, other)
    });
    rep.evals += 1;
    let (whole, other) = match r {
      Ok(x) => x,
      Err(p) => return rep.fail(format!("{} on {}: {p}", name(), big_show(w))),
    };
    let bad = match ask {
      Ask::Language => whole.is_some() != exp.is_some(),
      Ask::Tags => whole != *exp,
      Ask::Stream => other != whole,
      Ask::Table => other != whole,
    };
    if bad {
      let (e, o) = match ask {
        Ask::Language | Ask::Tags => (*exp, whole),
        _ => (whole, other),
      };
      return rep.fail(format!("patterns (pattern, tag) {}, input {}\n  expected: {e:?}\n  observed: {o:?}", name(), big_show(w)));
    }
  }
  rep.case(&(&b.ps, S::BYTES), true);
}

fn big(rep: &mut Rep, ask: Ask) {
  let cs = big_cases(rep.thorough);
  let mut slow = 0;
  for (i, b) in cs.iter().enumerate() {
    if rep.done() {
      return;
    }
    let par = [Some(false), None, Some(true)][i % 3];
    if b.chars_only || i % 2 == 0 || rep.thorough {
      big_case::<char>(rep, b, ask, par);
    }
    if !b.chars_only && (i % 2 == 1 || rep.thorough) {
      big_case::<u8>(rep, b, ask, par);
    }
    slow = slow.max(b.words.iter().map(|w| w.0.len()).max().unwrap_or(0));
  }
  rep.bound(&format!("{} large pattern sets with languages in closed form (counters up to 520, 300 keywords, classes of 700 ranges, 40 overlapping tags, nesting 60), words of up to {slow} symbols", cs.len()));
}

const LANG_RULE: &str = "a case is one set of tagged patterns, compiled by the real crate and compared on every word of its word set with a set-of-positions evaluation of the regular-expression semantics; non-trivial when at least one word is accepted; counted once per distinct pattern set";

fn c01(rep: &mut Rep) {
  big(rep, Ask::Language);
  let mut rng = rep.rng(1);
  let atoms = [R::Set(vec![(97, 97)]), R::Set(vec![(98, 98)]), R::Set(vec![(97, 98)]), R::Eps];
  let ws = words(&[97, 98, 99], 4);
  let max = if rep.thorough { 6 } else { 4 };
  for n in 1..=max {
    let all = by_size(n, &atoms);
    for r in &all {
      if !rep.time_left(0.5) {
        break;
      }
      lang_case::<char>(rep, &mut rng, &[(r.clone(), 0)], &ws, false);
    }
  }
  rep.bound(&format!("all expressions of up to {max} nodes over a, b, [ab] and the empty expression on all words of up to 4 symbols over a, b, c (char)"));
  // pairs
  let small: Vec<R> = (1..=3).flat_map(|n| by_size(n, &atoms)).collect();
  let mut i = 0u64;
  while rep.time_left(0.65) && i < 4000 {
    i += 1;
    let res: Vec<(R, i32)> = (0..rng.range(2, 3)).map(|k| (rng.pick(&small).clone(), k as i32)).collect();
    lang_case::<char>(rep, &mut rng, &res, &ws, false);
  }
  random_lang(rep, &mut rng, 1.0, false);
}

fn random_lang(rep: &mut Rep, rng: &mut Rng, frac: f64, tags: bool) {
  let max = if rep.thorough { 1_000_000 } else { 30_000 };
  let mut i = 0;
  while rep.time_left(frac) && i < max {
    i += 1;
    let bytes = rng.chance(1, 3);
    let pool = rand_pool(rng, bytes);
    let n = rng.range(1, 4);
    let depth = rng.range(1, 4);
    let mut res: Vec<(R, i32)> = (0..n).map(|_| (small_re(rng, depth, &pool, bytes), 0)).collect();
    if rng.chance(1, 4) {
      let d = rng.pick(&res).clone();
      res.push(d);
    }
    if rng.chance(1, 5) {
      let d = rng.pick(&res).0.clone();
      res.push((R::Alt(vec![d, small_re(rng, 1, &pool, bytes)]), 0));
    }
    let perm = rng.below(3);
    let k = res.len();
    for (i, r) in res.iter_mut().enumerate() {
      r.1 = match perm {
        0 => i as i32,
        1 => (k - i) as i32,
        _ => rng.below(4) as i32,
      };
    }
    if bytes {
      let ws = test_words::<u8>(&res, rng, 30);
      lang_case::<u8>(rep, rng, &res, &ws, tags);
    } else {
      let ws = test_words::<char>(&res, rng, 30);
      lang_case::<char>(rep, rng, &res, &ws, tags);
    }
  }
  rep.bound("random sets of 1-6 expressions of depth at most 4, chars and bytes, class bounds drawn from both ends of the domain, the surrogate gap and the UTF-8 length changes; words are members, mutated members and class bounds");
}

fn c02(rep: &mut Rep) {
  big(rep, Ask::Tags);
  let mut rng = rep.rng(2);
  let atoms = [R::Set(vec![(97, 97)]), R::Set(vec![(98, 98)]), R::Set(vec![(97, 98)])];
  let small: Vec<R> = (1..=2).flat_map(|n| by_size(n, &atoms)).collect();
  let mut pairs = vec![];
  for a in &small {
    for b in &small {
      for t in [(0, 1), (1, 0), (1, 1)] {
        pairs.push([(a.clone(), t.0), (b.clone(), t.1)]);
      }
    }
  }
  let ws = words(&[97, 98], 4);
  for p in &pairs {
    if rep.time_left(0.6) {
      lang_case::<char>(rep, &mut rng, p, &ws, true);
    }
  }
  rep.bound("all ordered pairs of expressions of up to 2 nodes over a, b and [ab], with tags (0,1), (1,0) and (1,1), on all words of up to 4 symbols over a, b");
  random_lang(rep, &mut rng, 1.0, true);
}

fn stream_case<S: Build>(rep: &mut Rep, rng: &mut Rng) {
  let pool = rand_pool(rng, S::BYTES);
  let res: Vec<(R, i32)> = (0..rng.range(1, 3)).map(|k| (small_re(rng, 3, &pool, S::BYTES), k as i32)).collect();
  let ps: Vec<(String, i32)> = res.iter().map(|(r, t)| (pattern(r, S::BYTES, rng), *t)).collect();
  let mut m = match must_build::<S>(rep, &ps, Some(false)) {
    Some(m) => m,
    None => return,
  };
  let mut nontrivial = false;
  let ws = test_words::<S>(&res, rng, 12);
  for w in &ws {
    let ctx = format!("{ps:?} fed {}", show(w, S::BYTES));
    let r = guard_d(|| ctx.clone(), || {
      // a fresh start, by reset
      m.reset();
      let start = m.state();
      let mut fed: Vec<S> = vec![];
      let mut log = vec![];
      for c in w {
        let before = m.state();
        let ok = m.is_accept(&S::of(*c));
        if ok {
          fed.push(S::of(*c));
        } else if m.state() != before {
          log.push(format!("the refused symbol {c:#x} changed the state"));
        }
        let whole = m.is_match(&fed).copied();
        let fin = m.is_final().copied();
        if whole != fin {
          log.push(format!("after {fed:?}: is_final {fin:?} but is_match {whole:?}"));
        }
        if m.is_state_final(m.state()).copied() != fin {
          log.push(format!("after {fed:?}: is_state_final of the current state differs from is_final {fin:?}"));
        }
        if !ok {
          // a refused symbol has no accepted continuation at all
          let mut ext = fed.clone();
          ext.push(S::of(*c));
          if m.is_match(&ext).is_some() {
            log.push(format!("refused {c:#x} after {fed:?} although the sequence matches"));
          }
        }
      }
      m.reset();
      if m.state() != start {
        log.push("reset does not restore the state before the first symbol".into());
      }
      if m.is_final().copied() != m.is_match(&[]).copied() {
        log.push("after reset: is_final differs from matching the empty sequence".into());
      }
      (fed.len(), log)
    });
    match r {
      Err(p) => return rep.fail(format!("{ctx}: {p}")),
      Ok((n, log)) => {
        nontrivial |= n > 0;
        rep.evals += 1;
        if let Some(l) = log.first() {
          return rep.fail(format!("{ctx}: {l}"));
        }
      }
    }
    let s: String = w.iter().filter_map(|c| char::from_u32(*c)).collect();
    let r = guard(|| S::str_match(&m, &s));
    match r {
      Err(p) => return rep.fail(format!("{ps:?}: is_str_match({s:?}): {p}")),
      Ok((a, b)) => {
        if !rep.eq(&a, &b, || format!("{ps:?}: is_str_match({s:?}) against is_match of its symbols")) {
          return;
        }
      }
    }
  }
  rep.case(&ps, nontrivial);
  rep.sample(|| format!("{ps:?} streamed {} words", ws.len()));
}
fn c03(rep: &mut Rep) {
  big(rep, Ask::Stream);
  let mut rng = rep.rng(3);
  let max = if rep.thorough { 1_000_000 } else { 12_000 };
  let mut i = 0;
  while rep.time_left(1.0) && i < max {
    i += 1;
    if rng.chance(1, 3) {
      stream_case::<u8>(rep, &mut rng);
    } else {
      stream_case::<char>(rep, &mut rng);
    }
  }
  rep.bound("random sets of 1-3 expressions of depth at most 3; words of at most 20 symbols fed one by one, refused symbols included");
}

/// Two tables accept the same tagged language: product walk over class representatives.
fn same_table<S: Sym>(a: &StateTransTable<S, i32>, b: &StateTransTable<S, i32>) -> Option<Vec<S>> {
  let mut reps: Vec<S> = vec![];
  for t in [a, b] {
    for (r, (l, _)) in t.sym_map() {
      for s in [Some(*l), Some(*r), l.prev(), r.next()] {
        reps.extend(s);
      }
    }
  }
  reps.sort_unstable();
  reps.dedup();
  let mut seen = std::collections::HashSet::new();
  let mut q = vec![(Some(a.init_id()), Some(b.init_id()), vec![])];
  while let Some((x, y, w)) = q.pop() {
    if !seen.insert((x, y)) {
      continue;
    }
    let f = |t: &StateTransTable<S, i32>, s: Option<usize>| s.and_then(|s| t.is_final(s).copied());
    if f(a, x) != f(b, y) {
      return Some(w);
    }
    if x.is_none() && y.is_none() {
      continue;
    }
    for s in &reps {
      let mut w2 = w.clone();
      w2.push(*s);
      q.push((x.and_then(|x| a.next_state(x, s)), y.and_then(|y| b.next_state(y, s)), w2));
    }
  }
  None
}

/// Arbitrary pattern text, most of it outside what the crate supports.
fn junk_pattern(rng: &mut Rng) -> String {
  const P: &[&str] = &[
    "a", "b", ".", "^", "$", "\\b", "\\B", "\\s", "\\p{Armenian}", "(", ")", "(?:", "(?i)", "(?-u)", "(?i:k)", "[", "]",
    "[^a]", "[a-z&&[^b]]", "[^\\x{0}-\\x{10FFFF}]", "[a&&b]", "*", "+", "?", "*?", "+?", "{2}", "{0}", "{0,0}", "{2,}", "{3,1}", "{0,3}", "|",
    "||", "\\x{10FFFF}", "\\x{10FFF}", "\\x{0}", "[\\x{0}-\\x{10FFFF}]", "\\xff", "(?-u:\\xff)", "(?-u:[\\x80-\\xff])", "[^\\n]", "é", "😀",
    "\\", "\\z", "(?s:.)", "(?P<x>a)", "[[:alpha:]]", "-", " ", "(a|)", "()",
  ];
  (0..rng.range(0, 6)).map(|_| *rng.pick(P)).collect()
}

fn c04(rep: &mut Rep) {
  let mut rng = rep.rng(4);
  fn one<S: Build>(rep: &mut Rep, ps: &[(String, i32)]) {
    let mut outs = vec![];
    for par in [Some(false), Some(true), None] {
      match guard_d(|| format!("building {ps:?}, enable_par = {par:?}"), || S::build(ps, par)) {
        Err(p) => return rep.fail(format!("building {ps:?} with enable_par = {par:?}: {p}")),
        Ok(r) => outs.push(r.map(|m| StateTransTable::from(m))),
      }
    }
    let mut it = outs.into_iter();
    let first = it.next().unwrap();
    for (o, name) in it.zip(["Some(true)", "None"]) {
      match (&first, &o) {
        (Ok(a), Ok(b)) => match guard(|| same_table(a, b)) {
          Err(p) => return rep.fail(format!("{ps:?}: walking the tables: {p}")),
          Ok(Some(w)) => {
            return rep.fail(format!("{ps:?}: enable_par = {name} and Some(false) give different answers on {w:?}"))
          }
          Ok(None) => {}
        },
        (Err(a), Err(b)) if a == b => {}
        (a, b) => {
          let d = |r: &Result<StateTransTable<S, i32>, String>| r.as_ref().map(|_| "a matcher").map_err(Clone::clone);
          return rep.fail(format!("{ps:?}: enable_par = Some(false) gives {:?}, {name} gives {:?}", d(a), d(b)));
        }
      }
    }
    rep.case(&(ps, S::BYTES), first.is_ok());
    rep.sample(|| format!("{ps:?}: {}", if first.is_ok() { "a matcher" } else { "refused" }));
  }
  // fixed corner cases
  let fixed: &[&str] = &[
    "", "()", "a{0}", "(?:)", "a*", "(?:)*", "()*", "(a*)*", "\\x{10FFFF}", "[\\x{0}-\\x{10FFFF}]", "[^a]", "[a&&b]", "a|[a&&b]", "\\x{0}",
    "[\\x{10FFF}\\x{11000}]", "[\\x{10000}-\\x{10FFF}]|[\\x{10FF0}-\\x{20000}]", "[\\x{d7ff}\\x{e000}]|\\x{d7ff}", "^a", "a$", "a*?", "\\ba", "(?i)k",
    "[", "a{2,1}", "x{3}", "(ab|a)(bc|c)?", "[\\x{0}-\\x{7f}]|[\\x{80}-\\x{10FFFF}]",
  ];
  for p in fixed {
    for q in fixed.iter().take(if rep.thorough { 99 } else { 8 }) {
      one::<char>(rep, &[(p.to_string(), 0), (q.to_string(), 1)]);
    }
    one::<char>(rep, &[(p.to_string(), 0)]);
    one::<u8>(rep, &[(p.to_string(), 0)]);
    one::<u8>(rep, &[(format!("(?-u:{p})"), 0)]);
  }
  for p in ["(?-u)\\xff", "(?-u)[\\xf0-\\xff]|\\xff", "(?-u)\\x00|[\\x00-\\x05]", "(?-u)[\\x00-\\xff]", "(?-u)[\\xfe-\\xff]|[\\xff]a|\\xffb"] {
    one::<u8>(rep, &[(p.to_string(), 0)]);
  }
  one::<char>(rep, &[]);
  one::<u8>(rep, &[]);
  big(rep, Ask::Tags);
  // every pattern over a symbol may also bring more symbols than cores, so that None picks parallel
  let many: String = (0..200u32).map(|i| format!("|{}x{}", esc(0x400 + i, false), esc(0x600 + i, false))).collect();
  one::<char>(rep, &[(format!("a{many}"), 0), ("[^x]y".into(), 1)]);
  let max = if rep.thorough { 200_000 } else { 6_000 };
  let mut i = 0;
  while rep.time_left(1.0) && i < max {
    i += 1;
    let k = rng.range(1, 3);
    if rng.chance(1, 2) {
      let ps: Vec<_> = (0..k).map(|j| (junk_pattern(&mut rng), j as i32)).collect();
      if rng.chance(1, 2) {
        one::<char>(rep, &ps);
      } else {
        one::<u8>(rep, &ps);
      }
    } else {
      let bytes = rng.chance(1, 3);
      let pool = rand_pool(&mut rng, bytes);
      let ps: Vec<_> = (0..k)
        .map(|j| {
          let r = small_re(&mut rng, 3, &pool, bytes);
          (pattern(&r, bytes, &mut rng), j as i32)
        })
        .collect();
      if bytes {
        one::<u8>(rep, &ps);
      } else {
        one::<char>(rep, &ps);
      }
    }
  }
  rep.bound("corner-case patterns and their pairs, random pattern text of up to 6 pieces (most of it unsupported or malformed) and random supported patterns; chars and bytes; every parallelism setting");
}

fn c05(rep: &mut Rep) {
  // complete: every char and every byte
  let mut prev: Option<char> = None;
  for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
    let r = guard_d(|| format!("{c:?}"), || (SymbolOp::prev(&c), prev.map(|p| SymbolOp::next(&p))));
    match r {
      Err(p) => return rep.fail(format!("prev({c:?}) or next({prev:?}): {p}")),
      Ok((p, n)) => {
        if !rep.eq(&p, &prev, || format!("prev({c:?})")) {
          return;
        }
        if let Some(n) = n {
          if !rep.eq(&n, &Some(c), || format!("next({prev:?})")) {
            return;
          }
        }
      }
    }
    rep.case(&(c as u32), true);
    prev = Some(c);
  }
  match guard(|| SymbolOp::next(&char::MAX)) {
    Ok(n) => {
      rep.eq(&n, &None, || "next(U+10FFFF)".into());
    }
    Err(p) => rep.fail(format!("next(U+10FFFF): {p}")),
  }
  for b in 0..=255u8 {
    match guard(|| (SymbolOp::prev(&b), SymbolOp::next(&b))) {
      Err(p) => return rep.fail(format!("prev/next of byte {b}: {p}")),
      Ok((p, n)) => {
        rep.eq(&p, &b.checked_sub(1), || format!("prev of byte {b}"));
        rep.eq(&n, &b.checked_add(1), || format!("next of byte {b}"));
        rep.case(&(b as u64 + (1 << 40)), true);
      }
    }
  }
  rep.sample(|| "every Unicode scalar value and every byte".into());
  rep.bound("complete: every char and every u8");
}

fn table_case<S: Build>(rep: &mut Rep, rng: &mut Rng) {
  let pool = rand_pool(rng, S::BYTES);
  let res: Vec<(R, i32)> = (0..rng.range(1, 3)).map(|k| (small_re(rng, 3, &pool, S::BYTES), k as i32)).collect();
  let ps: Vec<(String, i32)> = res.iter().map(|(r, t)| (pattern(r, S::BYTES, rng), *t)).collect();
  let (m, t) = match (must_build::<S>(rep, &ps, Some(false)), must_build::<S>(rep, &ps, Some(false))) {
    (Some(m), Some(t)) => (m, StateTransTable::from(t)),
    _ => return,
  };
  let n = t.num_states();
  let r = guard(|| {
    let mut log = vec![];
    if t.init_id() >= n {
      log.push("the initial state is out of range".to_string());
    }
    if n != 0 && t.table().len() % n != 0 {
      log.push("the table is not num_equivs * num_states".to_string());
    }
    if let Some(k) = t.tags().keys().find(|k| **k >= n) {
      log.push(format!("tag on the unknown state {k}"));
    }
    let mut last: Option<S> = None;
    let mut syms: Vec<S> = vec![];
    for (r, (l, id)) in t.sym_map() {
      if l > r {
        log.push(format!("empty range {l:?}..={r:?}"));
      }
      if last.map_or(false, |p| p >= *l) {
        log.push(format!("ranges overlap at {l:?}"));
      }
      if (id + 1) * n > t.table().len() {
        log.push(format!("class {id} of {l:?}..={r:?} has no row in the table"));
      }
      last = Some(*r);
      for s in [Some(*l), Some(*r), l.prev(), r.next(), Some(S::of(97))] {
        syms.extend(s);
      }
    }
    if !log.is_empty() {
      return log;
    }
    // lookup by hand, from the exported parts only
    let look = |id: usize, s: &S| -> Option<usize> {
      let e = t.sym_map().iter().find(|(r, (l, _))| l <= s && s <= r)?;
      let next = t.table()[e.1 .1 * n + id];
      (next < n).then_some(next)
    };
    for id in 0..n {
      for s in &syms {
        if look(id, s) != t.next_state(id, s) {
          log.push(format!("state {id}, symbol {s:?}: table gives {:?}, next_state {:?}", look(id, s), t.next_state(id, s)));
        }
      }
      if t.is_final(id) != t.tags().get(&id) {
        log.push(format!("is_final({id}) is not the exported tag"));
      }
    }
    for id in [n, n + 1, usize::MAX] {
      for s in &syms {
        if t.next_state(id, s).is_some() {
          log.push(format!("next_state of the invalid state {id} is {:?}", t.next_state(id, s)));
        }
      }
      if t.is_final(id).is_some() {
        log.push(format!("the invalid state {id} is final"));
      }
    }
    // the exported automaton answers as the matcher and as the specification
    for w in test_words::<S>(&res, &mut Rng::new(n as u64), 20) {
      let mut cur = Some(t.init_id());
      for c in &w {
        cur = cur.and_then(|i| look(i, &S::of(*c)));
      }
      let got = cur.and_then(|i| t.tags().get(&i).copied());
      let s: Vec<S> = w.iter().map(|c| S::of(*c)).collect();
      if got != m.is_match(&s).copied() || got != want(&res, &w) {
        log.push(format!("word {}: exported table {got:?}, is_match {:?}, specification {:?}", show(&w, S::BYTES), m.is_match(&s), want(&res, &w)));
      }
    }
    log
  });
  match r {
    Err(p) => rep.fail(format!("{ps:?}: {p}")),
    Ok(log) => {
      if let Some(l) = log.first() {
        rep.fail(format!("{ps:?}: {l}"));
      }
    }
  }
  rep.case(&ps, n > 1);
  rep.sample(|| format!("{ps:?}: {n} states, {} ranges", t.sym_map().len()));
}

fn c06(rep: &mut Rep) {
  big(rep, Ask::Table);
  let mut rng = rep.rng(6);
  let max = if rep.thorough { 1_000_000 } else { 8_000 };
  let mut i = 0;
  while rep.time_left(1.0) && i < max {
    i += 1;
    if rng.chance(1, 3) {
      table_case::<u8>(rep, &mut rng);
    } else {
      table_case::<char>(rep, &mut rng);
    }
  }
  rep.bound("random sets of 1-3 expressions of depth at most 3, chars and bytes; every state with every range bound and its neighbours, and invalid states");
}

fn main() {
  main_with(|p, rep| {
    match p {
      "C01" => c01(rep),
      "C02" => c02(rep),
      "C03" => c03(rep),
      "C04" => c04(rep),
      "C05" => c05(rep),
      "C06" => c06(rep),
      _ => return None,
    }
    Some(match p {
      "C01" | "C02" => LANG_RULE,
      "C03" => "a case is one set of patterns whose matcher is fed words symbol by symbol and compared with whole-sequence matching after every symbol; non-trivial when at least one symbol is accepted",
      "C04" => "a case is one list of patterns built under every parallelism setting; non-trivial when it builds to a matcher (whose three tables are then compared by a product walk)",
      "C05" => "a case is one symbol; all are non-trivial",
      _ => "a case is one set of patterns whose exported table is checked in every state on every range bound; non-trivial when it has more than one state",
    })
  })
}
