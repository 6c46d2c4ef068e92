//! C09-C13: readers and input streams.
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, Result, Span};
use std::fmt::Debug;
use std::io::{self, Read};
use vcommon::{guard_d, Rep, Rng};

/// A source that delivers `data` in pieces of the given sizes (then as asked),
/// failing before the reads listed in `fails`.
#[derive(Clone, Debug)]
pub struct Src {
  pub data: Vec<u8>,
  pub sizes: Vec<usize>,
  pub fails: Vec<usize>,
  pos: usize,
  piece: usize,
  calls: usize,
}

impl Src {
  pub fn new(data: Vec<u8>, sizes: Vec<usize>, fails: Vec<usize>) -> Self {
    Src { data, sizes, fails, pos: 0, piece: 0, calls: 0 }
  }
}

impl Read for Src {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    let call = self.calls;
    self.calls += 1;
    if self.fails.contains(&call) {
      return Err(io::Error::new(io::ErrorKind::Other, "source failed"));
    }
    let left = self.data.len() - self.pos;
    let want = self.sizes.get(self.piece).copied().unwrap_or(usize::MAX);
    self.piece += 1;
    let n = want.max(1).min(left).min(buf.len());
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev<C> {
  Sym(C),
  Eof,
  Fatal,
  Normal,
}

fn drain<I: InputStream>(r: &mut I, max: usize, stop_after: usize) -> Vec<Ev<I::CharType>> {
  let mut v = Vec::new();
  let mut stop = 0;
  while v.len() < max && stop < stop_after {
    match r.next_char() {
      Ok(Some(c)) => v.push(Ev::Sym(c)),
      Ok(None) => {
        v.push(Ev::Eof);
        stop += 1;
      }
      Err(e) => {
        v.push(if e.is_fatal() { Ev::Fatal } else { Ev::Normal });
        stop += 1;
      }
    }
  }
  v
}

/// The symbols of the longest valid prefix and whether all of the input is valid.
fn reference(data: &[u8]) -> (Vec<char>, bool) {
  // decoded by hand from the definition of UTF-8
  let mut out = Vec::new();
  let mut i = 0;
  while i < data.len() {
    let b = data[i] as u32;
    let (n, min) = match b {
      0..=0x7f => (1, 0),
      0xc2..=0xdf => (2, 0x80),
      0xe0..=0xef => (3, 0x800),
      0xf0..=0xf4 => (4, 0x10000),
      _ => return (out, false),
    };
    if i + n > data.len() {
      return (out, false);
    }
    let mut v = if n == 1 { b } else { b & (0x7f >> n) };
    for k in 1..n {
      let c = data[i + k] as u32;
      if c & 0xc0 != 0x80 {
        return (out, false);
      }
      v = v << 6 | (c & 0x3f);
    }
    match char::from_u32(v) {
      Some(c) if v >= min => out.push(c),
      _ => return (out, false),
    }
    i += n;
  }
  (out, true)
}

fn reader_case(rep: &mut Rep, utf8: bool, src: Src) -> bool {
  let data = &src.data;
  let ctx = || {
    let mut s = format!("{} over {:02x?} delivered in pieces {:?}", if utf8 { "Reader" } else { "ByteReader" }, data, src.sizes);
    if !src.fails.is_empty() {
      s += &format!(", failing at reads {:?}", src.fails);
    }
    s
  };
  rep.case(&(utf8, data, &src.sizes, &src.fails), src.sizes.len() >= 2 && data.len() >= 2);
  rep.sample(ctx);
  let nf = src.fails.len();
  let max = data.len() + 5 + nf;
  let stops = 3 + nf;
  let s2 = src.clone();
  if utf8 {
    let got = match guard_d(ctx, move || drain(&mut Reader::<_>::new(s2, FileType::Buffer), max, stops)) {
      Ok(g) => g,
      Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
    };
    let (chars, valid) = reference(data);
    check_events(rep, got, chars, valid, nf, &ctx)
  } else {
    let got = match guard_d(ctx, move || drain(&mut ByteReader::<_>::new(s2, FileType::Buffer), max, stops)) {
      Ok(g) => g,
      Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
    };
    check_events(rep, got, data.clone(), true, nf, &ctx)
  }
}

fn check_events<C: Debug + PartialEq + Clone>(rep: &mut Rep, got: Vec<Ev<C>>, syms: Vec<C>, valid: bool, nf: usize, ctx: &dyn Fn() -> String) -> bool {
  let mut want: Vec<Ev<C>> = syms.into_iter().map(Ev::Sym).collect();
  if nf == 0 {
    for _ in 0..3 {
      want.push(if valid { Ev::Eof } else { Ev::Fatal });
    }
    return rep.eq(&got, &want, || format!("{}: wrong events", ctx()));
  }
  // failing reads: every failure is one fatal error at an unspecified place, nothing is lost
  let n_sym = want.len();
  let got_syms: Vec<_> = got.iter().filter(|e| matches!(e, Ev::Sym(_))).cloned().collect();
  if !rep.eq(&got_syms, &want, || format!("{}: symbols lost or changed", ctx())) {
    return false;
  }
  let last_sym = got.iter().rposition(|e| matches!(e, Ev::Sym(_))).map_or(0, |i| i + 1);
  let errs_before = last_sym - n_sym;
  let normal = got.iter().any(|e| *e == Ev::Normal);
  let tail_ok = if valid {
    got.iter().filter(|e| **e == Ev::Fatal).count() <= nf && got[..last_sym].iter().all(|e| *e != Ev::Eof)
  } else {
    got.iter().all(|e| *e != Ev::Eof)
  };
  rep.ensure(!normal && tail_ok && errs_before <= nf, || format!("{}: unexpected events {:?}", ctx(), got))
}

fn splits(n: usize, mut f: impl FnMut(Vec<usize>) -> bool) -> bool {
  // all compositions of n
  if n == 0 {
    return f(vec![]);
  }
  for m in 0..1u32 << (n - 1) {
    let mut v = vec![];
    let mut cur = 1;
    for i in 0..n - 1 {
      if m >> i & 1 == 1 {
        v.push(cur);
        cur = 1;
      } else {
        cur += 1;
      }
    }
    v.push(cur);
    if !f(v) {
      return false;
    }
  }
  true
}

/// Texts whose characters have every encoded length, plus broken pieces.
const PIECES: &[&[u8]] = &[
  b"a", b"\n", b"z\n", "é".as_bytes(), "你".as_bytes(), "😂".as_bytes(), "\u{10ffff}".as_bytes(), "\u{7f}".as_bytes(),
  "\u{80}".as_bytes(), "\u{7ff}".as_bytes(), "\u{800}".as_bytes(), "\u{d7ff}".as_bytes(), "\u{e000}".as_bytes(), "\u{ffff}".as_bytes(), "\u{10000}".as_bytes(), b"\0",
];
const BROKEN: &[&[u8]] = &[b"\xff", b"\x80", b"\xc3", b"\xe4\xbd", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xf0\x80\x80\x80", b"\xe4"];

/// Readers made from texts, byte slices and files.
fn constructed(rep: &mut Rep, utf8: bool) -> bool {
  struct Scratch(std::path::PathBuf);
  impl Drop for Scratch {
    fn drop(&mut self) {
      let _ = std::fs::remove_file(&self.0);
    }
  }
  let file = Scratch(std::env::temp_dir().join(format!("laps-reader-{}-{}.txt", std::process::id(), utf8)));
  let mut rng = rep.rng(10);
  for k in 0..400usize {
    let target = [0, 1, 2, 5, 40, 1023, 1024, 1025, 2048, 3000][k % 10];
    let broken = k % 3 == 2;
    let mut d = vec![];
    while d.len() < target {
      d.extend_from_slice(if broken && rng.chance(1, 1 + target / 2) { rng.pick(BROKEN) } else { rng.pick(PIECES) });
    }
    if std::fs::write(&file.0, &d).is_err() {
      return true;
    }
    let text = std::str::from_utf8(&d).ok();
    let (chars, valid) = reference(&d);
    if utf8 {
      macro_rules! utf {
        ($name:literal, $mk:expr) => {{
          let ctx = || format!("{} over {d:02x?}", $name);
          rep.case(&($name, &d), d.len() >= 2);
          match guard_d(ctx, || drain(&mut $mk, d.len() + 5, 3)) {
            Ok(g) => {
              if !check_events(rep, g, chars.clone(), valid, 0, &ctx) {
                return false;
              }
            }
            Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
          }
        }};
      }
      utf!("Reader::from(&[u8])", Reader::from(&d[..]));
      utf!("Reader::from_path", Reader::from_path(&file.0).unwrap());
      utf!("Reader::new of a file", Reader::<_>::new(std::fs::File::open(&file.0).unwrap(), FileType::Stdin));
      if let Some(t) = text {
        utf!("Reader::from(&str)", Reader::from(t));
        utf!("Reader::from(String)", Reader::from(t.to_string()));
      }
    } else {
      macro_rules! raw {
        ($name:literal, $mk:expr) => {{
          let ctx = || format!("{} over {d:02x?}", $name);
          rep.case(&($name, &d), d.len() >= 2);
          match guard_d(ctx, || drain(&mut $mk, d.len() + 5, 3)) {
            Ok(g) => {
              if !check_events(rep, g, d.clone(), true, 0, &ctx) {
                return false;
              }
            }
            Err(p) => return rep.ensure(false, || format!("{}: {p}", ctx())),
          }
        }};
      }
      raw!("ByteReader::from(&[u8])", ByteReader::from(&d[..]));
      raw!("ByteReader::from_path", ByteReader::from_path(&file.0).unwrap());
      raw!("ByteReader::new of a file", ByteReader::<_>::new(std::fs::File::open(&file.0).unwrap(), FileType::Stdin));
      if let Some(t) = text {
        raw!("ByteReader::from(&str)", ByteReader::from(t));
        raw!("ByteReader::from(String)", ByteReader::from(t.to_string()));
      }
    }
  }
  true
}

pub fn readers(rep: &mut Rep, utf8: bool) {
  let reps: &[u8] = if utf8 { &[b'a', 0xc3, 0xa9, 0xe4, 0xbd, 0xf0, 0x9f, 0xff] } else { &[0, b'\n', 0xff] };
  let n = if utf8 { 4 } else { 5 };
  rep.bound(&format!("all byte sequences of length <= {n} over {reps:02x?} with all splits; random sequences up to 4200 bytes with random and boundary splits and failing reads; readers made from texts, slices and files"));
  if !constructed(rep, utf8) {
    return;
  }
  for len in 0..=n {
    let mut idx = vec![0usize; len];
    loop {
      let data: Vec<u8> = idx.iter().map(|i| reps[*i]).collect();
      if !splits(len, |s| reader_case(rep, utf8, Src::new(data.clone(), s, vec![]))) || !rep.time_left(0.7) {
        return;
      }
      let mut k = len;
      loop {
        if k == 0 {
          break;
        }
        idx[k - 1] += 1;
        if idx[k - 1] < reps.len() {
          break;
        }
        idx[k - 1] = 0;
        k -= 1;
      }
      if k == 0 {
        break;
      }
    }
  }
  // characters around the buffer limit
  for ch in PIECES {
    for at in 1015..1030usize {
      for tail in [0usize, 1, 7, 1100] {
        let mut d = vec![b'x'; at];
        d.extend_from_slice(ch);
        d.extend(vec![b'y'; tail]);
        for sizes in [vec![], vec![at], vec![at + 1], vec![1, at], vec![1024]] {
          if !reader_case(rep, utf8, Src::new(d.clone(), sizes, vec![])) {
            return;
          }
        }
      }
    }
  }
  let mut rng = rep.rng(9);
  while rep.time_left(1.0) {
    let big = rng.chance(1, 20);
    let target = if big { rng.range(900, 4200) } else { rng.range(0, 40) };
    let mut d = vec![];
    let broken = rng.chance(1, 3);
    while d.len() < target {
      d.extend_from_slice(if broken && rng.chance(1, if big { 400 } else { 10 }) { rng.pick(BROKEN) } else { rng.pick(PIECES) });
    }
    if rng.chance(1, 6) {
      d.pop();
    }
    let mut sizes = vec![];
    let mode = rng.below(4);
    let mut total = 0;
    while total < d.len() {
      let s = match mode {
        0 => 1,
        1 => rng.range(1, 3),
        2 => rng.range(1, 2000),
        _ => *rng.pick(&[1, 2, 3, 1021, 1022, 1023, 1024]),
      };
      sizes.push(s);
      total += s;
    }
    let fails = if rng.chance(1, 4) { (0..rng.range(1, 3)).map(|_| rng.below(sizes.len() + 2)).collect::<std::collections::BTreeSet<_>>().into_iter().collect() } else { vec![] };
    if !reader_case(rep, utf8, Src::new(d, sizes, fails)) {
      return;
    }
  }
}

// ---- C11-C13 -------------------------------------------------------------------------------

/// An input stream that uses the provided methods of the trait.
pub struct Plain<I>(pub I);
impl<I: InputStream> InputStream for Plain<I> {
  type CharType = I::CharType;
  fn next_char_loc(&mut self) -> Result<(Option<I::CharType>, Location)> {
    self.0.next_char_loc()
  }
  fn unread(&mut self, last: (Option<I::CharType>, Location)) {
    self.0.unread(last)
  }
  fn span(&self) -> &Span {
    self.0.span()
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.0.set_line_col(line, col)
  }
}

pub trait Sym: Copy + PartialEq + Debug {
  fn is_lf(&self) -> bool;
  fn idx(&self) -> u32;
}
impl Sym for char {
  fn is_lf(&self) -> bool {
    *self == '\n'
  }
  fn idx(&self) -> u32 {
    *self as u32
  }
}
impl Sym for u8 {
  fn is_lf(&self) -> bool {
    *self == 10
  }
  fn idx(&self) -> u32 {
    *self as u32
  }
}

type L = (u32, u32);
fn step<C: Sym>(l: L, c: &C) -> L {
  if c.is_lf() {
    (l.0 + 1, 0)
  } else {
    (l.0, l.1 + 1)
  }
}
fn lc(l: Location) -> L {
  (l.line, l.col)
}

/// Reference stream: the symbols, the position and the current location.
#[derive(Clone)]
struct Model<C> {
  syms: Vec<C>,
  pos: usize,
  loc: L,
  start_end_equal: bool,
}

impl<C: Sym> Model<C> {
  fn next(&mut self) -> (Option<C>, L) {
    let l = self.loc;
    match self.syms.get(self.pos).copied() {
      Some(c) => {
        self.pos += 1;
        self.loc = step(l, &c);
        (Some(c), l)
      }
      None => (None, l),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
  NextLoc,
  Next,
  NextSpan,
  Span,
  Set(u32, u32),
  Peek,
  PeekSpan,
  Unread,
}

fn at_loc(rep: &mut Rep, s: &Span, l: L, what: &str, ctx: &dyn Fn() -> String) -> bool {
  rep.eq(&(lc(s.start()), lc(s.end())), &(l, l), || format!("{}: {what}", ctx()))
}

/// Runs a history on a stream and compares every observation with the model.
fn history<I>(rep: &mut Rep, mut r: I, syms: Vec<I::CharType>, ops: &[Op], name: &str) -> bool
where
  I: InputStream,
  I::CharType: Sym,
{
  let ctx_syms = syms.clone();
  let ctx = move || format!("{name} over {:?}, operations {:?}", ctx_syms, ops);
  let mut m = Model { syms, pos: 0, loc: (1, 0), start_end_equal: true };
  m.start_end_equal = true;
  let res = guard_d(&ctx, || {
    let mut log: Vec<(Option<I::CharType>, Location)> = vec![];
    let source = r.span().clone();
    for (i, op) in ops.iter().enumerate() {
      let at = || format!("after operation {i} ({op:?})");
      match op {
        Op::NextLoc => {
          let got = r.next_char_loc().unwrap();
          let (c, l) = m.next();
          if (got.0, lc(got.1)) != (c, l) {
            return Err(format!("{}: expected {:?}, observed {:?}", at(), (c, l), got));
          }
          log.push(got);
        }
        Op::Next => {
          let got = r.next_char().unwrap();
          let c = m.next().0;
          if got != c {
            return Err(format!("{}: expected {:?}, observed {:?}", at(), c, got));
          }
          log.clear();
        }
        Op::NextSpan => {
          let (got, s) = r.next_char_span().unwrap();
          let c = m.next().0;
          if got != c || lc(s.start()) != m.loc || lc(s.end()) != m.loc {
            return Err(format!("{}: expected {:?} at {:?}, observed {:?} at {}", at(), c, m.loc, got, s));
          }
          log.clear();
        }
        Op::Span => {
          let s = r.next_span().unwrap().clone();
          m.next();
          if lc(s.start()) != m.loc || lc(s.end()) != m.loc {
            return Err(format!("{}: expected a span at {:?}, observed {}", at(), m.loc, s));
          }
          log.clear();
        }
        Op::Set(l, c) => {
          r.set_line_col(*l, *c);
          m.loc = (*l, *c);
          log.clear();
        }
        Op::Peek => {
          let got = r.peek().unwrap();
          let c = m.clone().next().0;
          if got != c {
            return Err(format!("{}: expected {:?}, observed {:?}", at(), c, got));
          }
        }
        Op::PeekSpan => {
          let (got, s) = r.peek_with_span().unwrap();
          let mut m2 = m.clone();
          let c = m2.next().0;
          let mut want = source.clone();
          want.update_loc(Location { line: m2.loc.0, col: m2.loc.1 });
          if got != c || s != want {
            return Err(format!("{}: expected {:?} at {}, observed {:?} at {}", at(), c, want, got, s));
          }
        }
        Op::Unread => {
          if let Some(last) = log.pop() {
            r.unread(last);
            if last.0.is_some() {
              m.pos -= 1;
            }
            m.loc = lc(last.1);
          }
        }
      }
      let s = r.span();
      if lc(s.start()) != m.loc || lc(s.end()) != m.loc {
        return Err(format!("{}: expected the current location {:?}, observed {}", at(), m.loc, s));
      }
    }
    // what is left must be delivered in order
    while let (Some(c), l) = m.next() {
      let got = r.next_char_loc().unwrap();
      if (got.0, lc(got.1)) != (Some(c), l) {
        return Err(format!("after the history: expected {:?}, observed {:?}", (c, l), got));
      }
    }
    let got = r.next_char_loc().unwrap();
    if (got.0, lc(got.1)) != (None, m.loc) {
      return Err(format!("at the end: expected end of input at {:?}, observed {:?}", m.loc, got));
    }
    Ok(())
  });
  match res {
    Ok(Ok(())) => true,
    Ok(Err(e)) => rep.ensure(false, || format!("{}: {e}", ctx())),
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
  }
}

fn run_all(rep: &mut Rep, text: &str, sizes: &[usize], ops: &[Op], which: usize) -> bool {
  let src = || Src::new(text.as_bytes().to_vec(), sizes.to_vec(), vec![]);
  let chars: Vec<char> = text.chars().collect();
  let bytes = text.as_bytes().to_vec();
  match which {
    0 => history(rep, Reader::<_>::new(src(), FileType::Buffer), chars, ops, "Reader"),
    1 => history(rep, ByteReader::<_>::new(src(), FileType::Buffer), bytes, ops, "ByteReader"),
    2 => history(rep, Plain(Reader::<_>::new(src(), FileType::Buffer)), chars, ops, "provided methods over Reader"),
    3 => history(rep, Plain(ByteReader::<_>::new(src(), FileType::Buffer)), bytes, ops, "provided methods over ByteReader"),
    4 => history(rep, Reader::from(text), chars, ops, "Reader::from(&str)"),
    5 => history(rep, ByteReader::from(text), bytes, ops, "ByteReader::from(&str)"),
    6 => history(rep, Reader::from(text.to_string()), chars, ops, "Reader::from(String)"),
    _ => history(rep, ByteReader::from(text.as_bytes()), bytes, ops, "ByteReader::from(&[u8])"),
  }
}

fn op_lists(alpha: &[Op], max: usize, mut f: impl FnMut(&[Op]) -> bool) -> bool {
  fn rec(alpha: &[Op], cur: &mut Vec<Op>, max: usize, f: &mut dyn FnMut(&[Op]) -> bool) -> bool {
    if !f(cur) {
      return false;
    }
    if cur.len() == max {
      return true;
    }
    for o in alpha {
      cur.push(*o);
      let ok = rec(alpha, cur, max, f);
      cur.pop();
      if !ok {
        return false;
      }
    }
    true
  }
  rec(alpha, &mut vec![], max, &mut f)
}

fn random_text(rng: &mut Rng) -> String {
  let top = if rng.chance(1, 30) { 2100 } else { 12 };
  let n = rng.range(0, top);
  (0..n).map(|_| *rng.pick(&['a', 'b', '\n', '\n', '\t', '\r', 'é', '你', '😂', ' '])).collect()
}

fn histories(rep: &mut Rep, alpha: &[Op], salt: u64, nontrivial: fn(&str, &[Op]) -> bool) {
  let texts = ["", "a", "\n", "a\nb", "é\n你", "\n\na"];
  rep.bound(&format!("all histories of length <= 4 over {alpha:?} on {texts:?} read at once and byte by byte by 8 readers; random histories up to 40 operations (each up to 150 times in a row on the long texts) on random texts up to 2100 symbols"));
  for max in [3, 4] {
    for text in texts {
      for sizes in [vec![], vec![1; text.len()]] {
        for which in 0..8 {
          if max == 4 && which >= 4 && !rep.thorough {
            continue;
          }
          let mut ok = true;
          op_lists(alpha, max, |ops| {
            if max == 4 && ops.len() < 4 {
              return true;
            }
            rep.case(&(text, &sizes, which, ops), nontrivial(text, ops));
            rep.sample(|| format!("reader {which} over {text:?} in pieces {sizes:?}: {ops:?}"));
            ok = run_all(rep, text, &sizes, ops, which);
            ok && rep.time_left(0.7)
          });
          if !ok {
            return;
          }
        }
      }
    }
  }
  let mut rng = rep.rng(salt);
  while rep.time_left(1.0) {
    let text = random_text(&mut rng);
    let sizes: Vec<usize> = if rng.chance(1, 2) { vec![] } else { (0..text.len()).map(|_| rng.range(1, 5)).collect() };
    let n = rng.range(1, 40);
    let runs = if text.len() > 60 { 150 } else { 1 };
    let ops: Vec<Op> = (0..n)
      .flat_map(|_| match *rng.pick(alpha) {
        Op::Set(..) if rng.chance(1, 4) => vec![Op::Set(rng.below(1000) as u32, rng.pick(&[254, 255, 65534, 65535, 1 << 20]).to_owned())],
        Op::Set(..) => vec![Op::Set(rng.below(1000) as u32, rng.below(1000) as u32)],
        o => vec![o; rng.range(1, runs)],
      })
      .collect();
    let which = rng.below(8);
    rep.case(&(&text, &sizes, which, &ops), nontrivial(&text, &ops));
    rep.sample(|| format!("reader {which} over {text:?} in pieces {sizes:?}: {ops:?}"));
    if !run_all(rep, &text, &sizes, &ops, which) {
      return;
    }
  }
}

pub fn c11(rep: &mut Rep) {
  histories(rep, &[Op::NextLoc, Op::Next, Op::NextSpan, Op::Span, Op::Set(37, 5), Op::Set(0, 0)], 11, |t, ops| t.contains('\n') || ops.iter().any(|o| matches!(o, Op::Set(..))));
  // every character: only the line feed starts a line
  for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
    if c as u32 > 0x3000 && c as u32 % 251 != 0 && !rep.thorough {
      continue;
    }
    let mut s = Span::new(FileType::Buffer);
    s.update_loc(Location { line: 7, col: 3 });
    let want = if c == '\n' { (8, 0) } else { (7, 4) };
    let got = s.clone().into_updated(&c);
    rep.case(&c, c == '\n');
    if !at_loc(rep, &got, want, "location after the character", &|| format!("character {c:?} at 7:3")) {
      return;
    }
    s.update(&c);
    if !at_loc(rep, &s, want, "location after the character", &|| format!("character {c:?} at 7:3 (in place)")) {
      return;
    }
    if (c as u32) < 256 {
      let b = c as u32 as u8;
      let mut s = Span::new(FileType::Buffer);
      s.update_loc(Location { line: 7, col: 3 });
      s.update(&b);
      if !at_loc(rep, &s, want, "location after the byte", &|| format!("byte {b} at 7:3")) {
        return;
      }
    }
  }
}

pub fn c12(rep: &mut Rep) {
  histories(rep, &[Op::NextLoc, Op::Peek, Op::PeekSpan, Op::Unread, Op::Next, Op::Set(9, 9)], 12, |_, ops| ops.iter().any(|o| matches!(o, Op::Peek | Op::PeekSpan | Op::Unread)));
}

fn until_case<I, F>(rep: &mut Rep, mk: F, syms: &[I::CharType], skip: usize, set: u32, name: &str) -> bool
where
  F: Fn() -> I,
  I: InputStream,
  I::CharType: Sym,
{
  let hit = |c: &I::CharType| set >> (c.idx() % 32) & 1 == 1;
  let ctx = || format!("{name} over {:?} from position {skip} until a symbol with code mod 32 in {set:#b}", syms);
  let skip = skip.min(syms.len());
  let end = (skip..syms.len()).find(|i| hit(&syms[*i])).unwrap_or(syms.len());
  rep.case(&(name, syms.iter().map(|c| c.idx()).collect::<Vec<_>>(), skip, set), end > skip);
  rep.sample(ctx);
  // locations: locs[i] after reading i symbols
  let mut locs = vec![(1, 0)];
  for c in syms {
    locs.push(step(*locs.last().unwrap(), c));
  }
  for kind in 0..3 {
    let res = guard_d(&ctx, || {
      let mut r = mk();
      for _ in 0..skip {
        r.next_char().unwrap();
      }
      let want: Vec<_> = syms[skip..end].to_vec();
      match kind {
        0 => r.skip_until(|c| hit(&c)).unwrap(),
        1 => {
          let v = r.collect_until(|c| hit(c)).unwrap();
          if v != want {
            return Err(format!("collected {v:?}, expected {want:?}"));
          }
        }
        _ => {
          let (v, s) = r.collect_with_span_until(|c| hit(c)).unwrap();
          if v != want {
            return Err(format!("collected {v:?}, expected {want:?}"));
          }
          let (ws, we) = if end > skip { (locs[skip + 1], locs[end]) } else if end < syms.len() { (locs[end + 1], locs[end + 1]) } else { (locs[end], locs[end]) };
          if (lc(s.start()), lc(s.end())) != (ws, we) {
            return Err(format!("span {s}, expected {ws:?}-{we:?}"));
          }
        }
      }
      let s = r.span();
      if (lc(s.start()), lc(s.end())) != (locs[end], locs[end]) {
        return Err(format!("current location {s}, expected {:?}", locs[end]));
      }
      for (i, c) in syms[end..].iter().enumerate() {
        let got = r.next_char_loc().unwrap();
        if (got.0, lc(got.1)) != (Some(*c), locs[end + i]) {
          return Err(format!("then read {got:?}, expected {:?}", (c, locs[end + i])));
        }
      }
      let got = r.next_char().unwrap();
      if got.is_some() {
        return Err(format!("then read {got:?}, expected the end"));
      }
      Ok(())
    });
    let what = ["skip_until", "collect_until", "collect_with_span_until"][kind];
    match res {
      Ok(Ok(())) => {}
      Ok(Err(e)) => return rep.ensure(false, || format!("{what}: {}: {e}", ctx())),
      Err(p) => return rep.ensure(false, || format!("{what}: {}: {p}", ctx())),
    }
  }
  true
}

fn until_all(rep: &mut Rep, text: &str, sizes: &[usize], skip: usize, set: u32) -> bool {
  let src = || Src::new(text.as_bytes().to_vec(), sizes.to_vec(), vec![]);
  let chars: Vec<char> = text.chars().collect();
  let bytes = text.as_bytes().to_vec();
  until_case(rep, || Reader::<_>::new(src(), FileType::Buffer), &chars, skip, set, "Reader")
    && until_case(rep, || ByteReader::<_>::new(src(), FileType::Buffer), &bytes, skip, set, "ByteReader")
    && until_case(rep, || Plain(Reader::<_>::new(src(), FileType::Buffer)), &chars, skip, set, "provided methods over Reader")
}

pub fn c13(rep: &mut Rep) {
  let alpha = ['a', '\n', 'é'];
  rep.bound("all texts of length <= 5 over {a, line feed, é}, all start positions, all sets of stopping symbols, read at once and byte by byte; random texts");
  let bit = |c: char| 1u32 << (c as u32 % 32);
  let lead = |c: char| 1u32 << (c.to_string().as_bytes()[0] % 32);
  for len in 0..=5usize {
    for mut code in 0..3usize.pow(len as u32) {
      let text: String = (0..len)
        .map(|_| {
          let c = alpha[code % 3];
          code /= 3;
          c
        })
        .collect();
      for skip in 0..=len {
        for m in 0..8u32 {
          let set = (0..3).filter(|i| m >> i & 1 == 1).map(|i| bit(alpha[i]) | lead(alpha[i])).fold(0, |a, b| a | b);
          for sizes in [vec![], vec![1; text.len()]] {
            if !until_all(rep, &text, &sizes, skip, set) || !rep.time_left(0.7) {
              return;
            }
          }
        }
      }
    }
  }
  let mut rng = rep.rng(13);
  while rep.time_left(1.0) {
    let text = random_text(&mut rng);
    let n = text.chars().count();
    let set = rng.next() as u32 & rng.next() as u32 & rng.next() as u32;
    let sizes: Vec<usize> = if rng.chance(1, 2) { vec![] } else { (0..text.len()).map(|_| rng.range(1, 5)).collect() };
    let skip = rng.below(n + 1);
    if !until_all(rep, &text, &sizes, skip, set) {
      return;
    }
  }
}
