//! C16-C18: token buffers, the provided methods of token streams, look-ahead.
use laps::parse::Parse;
use laps::span::{Error, FileType, Location, Result, Span};
use laps::token::{Token, TokenBuffer, TokenStream, Tokenizer};
use std::collections::VecDeque;
use std::fmt;
use vcommon::{guard_d, Rep};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct K(pub u32);
impl fmt::Display for K {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "kind {}", self.0)
  }
}

pub type Tok = Token<K>;
/// What a source of tokens delivers: a token kind or a failure (fatal or not).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Item {
  T(u32),
  E(bool),
}

pub fn err(fatal: bool) -> Error {
  if fatal { Error::Fatal } else { Error::Normal }
}

/// A tokenizer that delivers a script and then tokens of kind 99 for ever.
#[derive(Clone)]
pub struct Script {
  pub items: VecDeque<Item>,
  pub span: Span,
  n: u32,
}

impl Script {
  pub fn new(items: &[Item]) -> Self {
    Script { items: items.iter().copied().collect(), span: Span::new(FileType::Buffer), n: 0 }
  }
}

impl Tokenizer for Script {
  type Token = Tok;
  fn next_token(&mut self) -> Result<Tok> {
    self.n += 1;
    let mut span = self.span.clone();
    span.update_loc(Location { line: self.n, col: 1 });
    match self.items.pop_front() {
      Some(Item::T(k)) => Ok(Token::new(K(k), span)),
      Some(Item::E(f)) => Err(err(f)),
      None => Ok(Token::new(K(99), span)),
    }
  }
}

/// A token stream with only the required methods.
#[derive(Clone)]
pub struct Bare {
  pub inner: Script,
  pub front: Vec<Tok>,
}

impl Bare {
  pub fn new(items: &[Item]) -> Self {
    Bare { inner: Script::new(items), front: vec![] }
  }
}

impl Tokenizer for Bare {
  type Token = Tok;
  fn next_token(&mut self) -> Result<Tok> {
    match self.front.pop() {
      Some(t) => Ok(t),
      None => self.inner.next_token(),
    }
  }
}

impl TokenStream for Bare {
  fn unread(&mut self, token: Tok) {
    self.front.push(token)
  }
}

pub fn tk(t: &Tok) -> (u32, u32) {
  (t.kind.0, t.span.start().line)
}

/// Reference: what the stream will deliver, each token with its number.
#[derive(Clone)]
pub struct Model {
  rest: VecDeque<std::result::Result<(u32, u32), bool>>,
  n: u32,
}

pub type R<T> = std::result::Result<T, bool>;

impl Model {
  pub fn new(items: &[Item]) -> Self {
    let rest: VecDeque<_> = items
      .iter()
      .enumerate()
      .map(|(i, t)| match t {
        Item::T(k) => Ok((*k, i as u32 + 1)),
        Item::E(f) => Err(*f),
      })
      .collect();
    Model { n: rest.len() as u32, rest }
  }
  pub fn next(&mut self) -> R<(u32, u32)> {
    match self.rest.pop_front() {
      Some(r) => r,
      None => {
        self.n += 1;
        Ok((99, self.n))
      }
    }
  }
  pub fn unread(&mut self, t: (u32, u32)) {
    self.rest.push_front(Ok(t));
  }
  /// Looks at the next n items; the first failure is taken out and returned.
  pub fn peek_n(&mut self, n: usize) -> R<Vec<(u32, u32)>> {
    let mut v = vec![];
    let mut r = Ok(());
    while v.len() < n {
      match self.next() {
        Ok(t) => v.push(t),
        Err(f) => {
          r = Err(f);
          break;
        }
      }
    }
    for t in v.iter().rev() {
      self.unread(*t);
    }
    r.map(|_| v)
  }
}

pub fn res<T, U>(r: Result<T>, f: impl FnOnce(T) -> U) -> R<U> {
  r.map(f).map_err(|e| e.is_fatal())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
  Next,
  Unread,
  UnreadNew(u32),
  Peek,
  Peek2,
  PeekN(usize),
  Skip(u32),
  Collect(u32),
  Expect(u32),
}

/// Runs one history on a stream built twice: the real one and the model.
fn history<TS: TokenStream<Token = Tok>>(rep: &mut Rep, mut ts: TS, source: &Span, items: &[Item], ops: &[Op], name: &str) -> bool {
  let ctx = || format!("{name} over {items:?} (kind 99 afterwards), operations {ops:?}");
  let r = guard_d(&ctx, || {
    let mut m = Model::new(items);
    let mut log: Vec<Tok> = vec![];
    let mut fresh = 1000;
    let mut errors = 0;
    for (i, op) in ops.iter().enumerate() {
      let diff = |want: String, got: String| Err(format!("operation {i} ({op:?}): expected {want}, observed {got}"));
      macro_rules! same {
        ($w:expr, $g:expr) => {{
          let (w, g) = ($w, $g);
          if w != g {
            return diff(format!("{:?}", w), format!("{:?}", g));
          }
        }};
      }
      match *op {
        Op::Next => {
          let g = ts.next_token();
          let w = m.next();
          if let Ok(t) = &g {
            log.push(t.clone());
          }
          same!(w, res(g, |t| tk(&t)));
        }
        Op::Unread => {
          if let Some(t) = log.pop() {
            m.unread(tk(&t));
            ts.unread(t);
          }
        }
        Op::UnreadNew(k) => {
          fresh += 1;
          let mut s = source.clone();
          s.update_loc(Location { line: fresh, col: 0 });
          m.unread((k, fresh));
          ts.unread(Token::new(K(k), s));
        }
        Op::Peek => same!(m.peek_n(1).map(|v| v[0]), res(ts.peek(), |t| tk(&t))),
        Op::Peek2 => same!(m.peek_n(2).map(|v| (v[0], v[1])), res(ts.peek2(), |(a, b)| (tk(&a), tk(&b)))),
        Op::PeekN(n) => same!(m.peek_n(n), res(ts.peek_n(n), |v| v.iter().map(tk).collect::<Vec<_>>())),
        Op::Skip(k) => {
          let w = loop {
            match m.next() {
              Ok(t) if t.0 == k || t.0 == 99 => {
                m.unread(t);
                break Ok(());
              }
              Ok(_) => {}
              Err(f) => break Err(f),
            }
          };
          same!(w, res(ts.skip_until(|t| t.kind.0 == k || t.kind.0 == 99), |_| ()));
          log.clear();
        }
        Op::Collect(k) => {
          let mut v = vec![];
          let w = loop {
            match m.next() {
              Ok(t) if t.0 == k || t.0 == 99 => {
                m.unread(t);
                break Ok(v);
              }
              Ok(t) => v.push(t),
              Err(f) => break Err(f),
            }
          };
          same!(w, res(ts.collect_until(|t| t.kind.0 == k || t.kind.0 == 99), |v| v.iter().map(tk).collect::<Vec<_>>()));
          log.clear();
        }
        Op::Expect(k) => {
          let w = match m.next() {
            Ok(t) if t.0 == k => Ok(t),
            Ok(t) => {
              m.unread(t);
              errors += 1;
              Err(false)
            }
            Err(f) => Err(f),
          };
          same!(w, res(ts.expect(K(k)), |t| tk(&t)));
          log.clear();
        }
      }
      if source.error_num() != errors {
        return diff(format!("{errors} reported errors"), format!("{}", source.error_num()));
      }
    }
    for i in 0..items.len() + 3 {
      let w = m.next();
      let g = res(ts.next_token(), |t| tk(&t));
      if w != g {
        return Err(format!("afterwards, read {i}: expected {w:?}, observed {g:?}"));
      }
    }
    Ok(())
  });
  match r {
    Ok(Ok(())) => true,
    Ok(Err(e)) => rep.ensure(false, || format!("{}: {e}", ctx())),
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
  }
}

fn run(rep: &mut Rep, buffer: bool, items: &[Item], ops: &[Op]) -> bool {
  rep.sample(|| format!("{} over {items:?}: {ops:?}", if buffer { "token buffer" } else { "provided methods" }));
  let s = Script::new(items);
  let span = s.span.clone();
  if buffer {
    history(rep, TokenBuffer::new(s), &span, items, ops, "token buffer")
  } else {
    history(rep, Bare { inner: s, front: vec![] }, &span, items, ops, "provided methods of a token stream")
  }
}

fn histories(rep: &mut Rep, alpha: &[Op], salt: u64, kinds: &[bool], nontrivial: fn(&[Item], &[Op]) -> bool) {
  let scripts: Vec<Vec<Item>> = vec![
    vec![],
    vec![Item::T(1)],
    vec![Item::T(1), Item::T(2), Item::T(1)],
    vec![Item::E(true)],
    vec![Item::T(1), Item::E(false), Item::T(2)],
    vec![Item::T(2), Item::T(1), Item::E(true), Item::T(1)],
    vec![Item::T(2), Item::E(false), Item::E(true), Item::T(3), Item::T(1)],
  ];
  rep.bound(&format!("all histories of length <= 4 over {alpha:?} on {} scripts with and without failures; random histories up to 60 operations, some over up to 1500 tokens with runs of 40 reads or put-backs and look-ahead of up to 900", scripts.len()));
  for max in 1..=4u32 {
    for items in &scripts {
      for &b in kinds {
        for mut code in 0..alpha.len().pow(max) {
          let ops: Vec<Op> = (0..max)
            .map(|_| {
              let o = alpha[code % alpha.len()];
              code /= alpha.len();
              o
            })
            .collect();
          rep.case(&(items, &ops, b), nontrivial(items, &ops));
          if !run(rep, b, items, &ops) {
            return;
          }
        }
        if !rep.time_left(0.7) {
          break;
        }
      }
    }
  }
  let mut rng = rep.rng(salt);
  while rep.time_left(1.0) {
    // now and then far more tokens than any buffer starts with
    let big = rng.chance(1, 40);
    let (len, bad, kinds_n) = if big { (rng.below(1500), 2000, 400) } else { (rng.below(20), 6, 4) };
    let items: Vec<Item> = (0..len).map(|_| if rng.chance(1, bad) { Item::E(rng.chance(1, 2)) } else { Item::T(rng.below(kinds_n) as u32 % 98) }).collect();
    let runs = if big { 40 } else { 1 };
    let raw: Vec<Op> = (0..rng.range(1, 60))
      .flat_map(|_| match *rng.pick(alpha) {
        Op::PeekN(_) => vec![Op::PeekN(if big { rng.below(900) } else { rng.below(8) })],
        o @ (Op::Next | Op::Unread) => vec![o; rng.range(1, runs)],
        Op::UnreadNew(_) => vec![Op::UnreadNew(rng.below(4) as u32); rng.range(1, runs)],
        o => vec![o],
      })
      .collect();
    let ops: Vec<Op> = raw
      .into_iter()
      .map(|o| match o {
        Op::UnreadNew(_) => Op::UnreadNew(rng.below(4) as u32),
        Op::Skip(_) => Op::Skip(rng.below(4) as u32),
        Op::Collect(_) => Op::Collect(rng.below(4) as u32),
        Op::Expect(_) => Op::Expect(rng.below(4) as u32),
        o => o,
      })
      .collect();
    let b = *rng.pick(kinds);
    rep.case(&(&items, &ops, b), nontrivial(&items, &ops));
    if !run(rep, b, &items, &ops) {
      return;
    }
  }
}

pub fn c16(rep: &mut Rep) {
  let alpha = [Op::Next, Op::Unread, Op::UnreadNew(3), Op::Peek, Op::Peek2, Op::PeekN(3), Op::PeekN(0)];
  histories(rep, &alpha, 16, &[true], |_, ops| ops.iter().any(|o| matches!(o, Op::Unread | Op::UnreadNew(_) | Op::Peek2 | Op::PeekN(_))));
  // taking the buffer apart gives back the tokenizer where it was left
  for n in 0..4usize {
    let items = [Item::T(1), Item::T(2), Item::T(3), Item::T(4), Item::T(5)];
    let mut b: TokenBuffer<Script, Tok> = Script::new(&items).into();
    for _ in 0..n {
      let _ = b.next_token();
    }
    let i1 = b.inner().items.len();
    let i2 = b.inner_mut().items.len();
    let i3 = b.into_inner().items.len();
    rep.eq(&(i1, i2, i3), &(5 - n, 5 - n, 5 - n), || format!("tokens left in the tokenizer after {n} reads"));
  }
}

pub fn c17(rep: &mut Rep) {
  let alpha = [Op::Next, Op::Unread, Op::Peek, Op::Peek2, Op::PeekN(3), Op::Skip(1), Op::Collect(2), Op::Expect(1)];
  histories(rep, &alpha, 17, &[false, true], |items, ops| items.iter().any(|i| matches!(i, Item::E(_))) || ops.iter().any(|o| matches!(o, Op::Skip(_) | Op::Collect(_) | Op::Expect(_))));
}

// ---- look-ahead ------------------------------------------------------------------------------

/// A token of a kind in the set `M` (bit k for kind k < 8).
pub struct Is<const M: u32>(pub Tok);

pub fn in_mask(m: u32, k: u32) -> bool {
  k < 8 && m >> k & 1 == 1
}

impl<const M: u32, TS: TokenStream<Token = Tok>> Parse<TS> for Is<M> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    let t = tokens.next_token()?;
    if in_mask(M, t.kind.0) {
      Ok(Is(t))
    } else {
      tokens.unread(t);
      Err(err(false))
    }
  }
  fn maybe(tokens: &mut TS) -> Result<bool> {
    Ok(in_mask(M, tokens.peek()?.kind.0))
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum LOp {
  Next,
  Maybe(u32),
}

fn look<TS: TokenStream<Token = Tok>>(rep: &mut Rep, mut ts: TS, items: &[Item], unread: &[u32], ops: &[LOp], name: &str) -> bool {
  let ctx = || format!("{name} over {items:?} with {unread:?} put back first, look-ahead {ops:?}");
  let r = guard_d(&ctx, || {
    let mut m = Model::new(items);
    for (i, k) in unread.iter().enumerate() {
      let mut s = Span::new(FileType::Buffer);
      s.update_loc(Location { line: 2000 + i as u32, col: 0 });
      m.unread((*k, 2000 + i as u32));
      ts.unread(Token::new(K(*k), s));
    }
    // model: the items looked at, in order; a failure is taken out and ends the chain
    let mut taken = vec![];
    let mut answer = true;
    let mut fail = None;
    let mut fail_after_no = false;
    let only_next = ops.iter().all(|o| *o == LOp::Next);
    let mut peeked = vec![];
    {
      let mut la = Some(ts.lookahead());
      for op in ops {
        let w = m.next();
        match (op, w) {
          (LOp::Next, w) => {
            let g = res(la.as_mut().unwrap().peek_next(), |t| tk(&t));
            if w != g {
              return Err(format!("peek_next: expected {w:?}, observed {g:?}"));
            }
            if let Ok(t) = w {
              taken.push(t);
              peeked.push(t);
            }
          }
          (LOp::Maybe(k), w) => {
            fn step<'a, TS: TokenStream<Token = Tok>>(la: laps::token::Lookahead<'a, TS, Tok>, k: u32) -> Result<laps::token::Lookahead<'a, TS, Tok>> {
              match k {
                0 => la.maybe(Is::<0>),
                1 => la.maybe(Is::<1>),
                2 => la.maybe(Is::<2>),
                3 => la.maybe(Is::<3>),
                6 => la.maybe(Is::<6>),
                _ => la.maybe(Is::<7>),
              }
            }
            let g = step(la.take().unwrap(), *k);
            match (w, g) {
              (Ok(t), Ok(l)) => {
                taken.push(t);
                answer = answer && in_mask(if matches!(k, 0 | 1 | 2 | 3 | 6) { *k } else { 7 }, t.0);
                la = Some(l);
              }
              (Err(f), Err(e)) if e.is_fatal() == f => {
                fail = Some(f);
                break;
              }
              (Err(_), Ok(l)) if !answer => {
                // an earlier check failed already: looking no further is as good
                fail_after_no = true;
                la = Some(l);
                break;
              }
              (w, g) => return Err(format!("maybe({k:#b}): expected {w:?}, observed {}", match g { Ok(_) => "success".into(), Err(e) => format!("{e:?}") })),
            }
          }
        }
      }
      if let Some(la) = la {
        if !only_next {
          let g = res(la.result(), |b| b);
          if g != Ok(answer) {
            return Err(format!("result: expected {answer}, observed {g:?}"));
          }
        }
      }
      let _ = fail;
    }
    for t in taken.iter().rev() {
      m.unread(*t);
    }
    let mut want = vec![];
    let mut got = vec![];
    for _ in 0..items.len() + unread.len() + 3 {
      want.push(m.next());
      got.push(res(ts.next_token(), |t| tk(&t)));
    }
    if fail_after_no {
      want.retain(|x| x.is_ok());
      got.retain(|x| x.is_ok());
      let n = want.len().min(got.len());
      want.truncate(n);
      got.truncate(n);
    }
    if want != got {
      return Err(format!("afterwards: expected {want:?}, observed {got:?}"));
    }
    Ok(())
  });
  match r {
    Ok(Ok(())) => true,
    Ok(Err(e)) => rep.ensure(false, || format!("{}: {e}", ctx())),
    Err(p) => rep.ensure(false, || format!("{}: {p}", ctx())),
  }
}

fn look_both(rep: &mut Rep, items: &[Item], unread: &[u32], ops: &[LOp]) -> bool {
  rep.case(&(items, unread, ops), ops.len() >= 2);
  rep.sample(|| format!("{items:?}, put back {unread:?}, chain {ops:?}"));
  look(rep, TokenBuffer::new(Script::new(items)), items, unread, ops, "token buffer") && look(rep, Bare::new(items), items, unread, ops, "plain token stream")
}

pub fn c18(rep: &mut Rep) {
  let alpha = [LOp::Next, LOp::Maybe(1), LOp::Maybe(2), LOp::Maybe(3), LOp::Maybe(0), LOp::Maybe(7)];
  let sym = [Item::T(0), Item::T(1), Item::T(2), Item::E(false), Item::E(true)];
  rep.bound("all chains of length <= 3 over {next, five checks} on all scripts of length <= 3 over three kinds and two failures; random chains up to 70 on random scripts");
  for len in 0..=3u32 {
    for mut c in 0..sym.len().pow(len) {
      let items: Vec<Item> = (0..len)
        .map(|_| {
          let x = sym[c % sym.len()];
          c /= sym.len();
          x
        })
        .collect();
      for n in 0..=3u32 {
        for mut o in 0..alpha.len().pow(n) {
          let ops: Vec<LOp> = (0..n)
            .map(|_| {
              let x = alpha[o % alpha.len()];
              o /= alpha.len();
              x
            })
            .collect();
          if !look_both(rep, &items, &[], &ops) || !rep.time_left(0.7) {
            return;
          }
        }
      }
    }
  }
  let mut rng = rep.rng(18);
  while rep.time_left(1.0) {
    let long = rng.chance(1, 30);
    let items: Vec<Item> = (0..if long { rng.below(80) } else { rng.below(8) }).map(|_| if rng.chance(1, if long { 200 } else { 8 }) { Item::E(rng.chance(1, 2)) } else { Item::T(rng.below(3) as u32) }).collect();
    let unread: Vec<u32> = (0..rng.below(4)).map(|_| rng.below(3) as u32).collect();
    let only_next = rng.chance(1, 5);
    let ops: Vec<LOp> = (0..rng.range(0, if long { 70 } else { 8 })).map(|_| if only_next || rng.chance(1, 6) { LOp::Next } else { LOp::Maybe(*rng.pick(&[1, 2, 3, 6, 7, 7, 7])) }).collect();
    if !look_both(rep, &items, &unread, &ops) {
      return;
    }
  }
}
