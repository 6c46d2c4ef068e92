// ------------------------------------------------------------ the trees of regex-syntax (its documented data types, without the fields not used)
//@ assume the trees of regex-syntax are as its documentation says: HirKind's variants and their fields; `into_kind` gives the kind of a tree, `ranges` the ranges of a class with start <= end, `clone` an equal tree
//@ assume str::from_utf8 decodes UTF-8
pub struct Hir { pub kind: HirKind }
pub struct Literal(pub Box<[u8]>);
pub struct ClassBytesRange { pub start: u8, pub end: u8 }
pub struct ClassUnicodeRange { pub start: char, pub end: char }
pub struct ClassBytes { pub set: Vec<ClassBytesRange> }
pub struct ClassUnicode { pub set: Vec<ClassUnicodeRange> }
pub enum Class { Unicode(ClassUnicode), Bytes(ClassBytes) }
pub struct Look { pub id: u32 }
pub struct Capture { pub index: u32, pub sub: Box<Hir> }
pub struct Repetition { pub min: u32, pub max: Option<u32>, pub greedy: bool, pub sub: Box<Hir> }
pub enum HirKind { Empty, Literal(Literal), Class(Class), Look(Look), Repetition(Repetition), Capture(Capture), Concat(Vec<Hir>), Alternation(Vec<Hir>) }
impl Hir {
  #[verifier::external_body]
  pub fn into_kind(self) -> (r: HirKind) ensures r == self.kind { unimplemented!() }
}
impl ClassBytesRange {
  pub fn start(&self) -> (r: u8) ensures r == self.start { self.start }
  pub fn end(&self) -> (r: u8) ensures r == self.end { self.end }
}
impl ClassUnicodeRange {
  pub fn start(&self) -> (r: char) ensures r == self.start { self.start }
  pub fn end(&self) -> (r: char) ensures r == self.end { self.end }
}
impl ClassBytes {
  #[verifier::external_body]
  pub fn ranges(&self) -> (r: &[ClassBytesRange]) ensures r@ == self.set@, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).start <= r@[i].end { unimplemented!() }
}
impl ClassUnicode {
  #[verifier::external_body]
  pub fn ranges(&self) -> (r: &[ClassUnicodeRange]) ensures r@ == self.set@, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).start <= r@[i].end { unimplemented!() }
}
// ------------------------------------------------------------ what they mean
/// The symbols of a literal, if they can be given.
pub uninterp spec fn lit<S>(l: Literal) -> Option<Seq<S>>;
/// The ranges of a class, if they can be given.
pub uninterp spec fn cls<S>(c: Class) -> Option<Seq<(S, S)>>;
/// Characters: a literal is UTF-8, a range of bytes one of the characters with these numbers.
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub axiom fn lit_char(l: Literal) ensures lit::<char>(l) == utf8(l.0@);
pub axiom fn cls_char(c: Class) ensures cls::<char>(c) == Some(match c { Class::Bytes(b) => Seq::new(b.set@.len(), |i: int| (b.set@[i].start as char, b.set@[i].end as char)), Class::Unicode(u) => Seq::new(u.set@.len(), |i: int| (u.set@[i].start, u.set@[i].end)) });
pub axiom fn ord_char() ensures forall|c: char| #[trigger] ord(c) == c as int;
/// Bytes: no ranges of characters.
pub axiom fn lit_u8(l: Literal) ensures lit::<u8>(l) == Some(l.0@);
pub axiom fn cls_u8(c: Class) ensures cls::<u8>(c) == match c { Class::Bytes(b) => Some(Seq::new(b.set@.len(), |i: int| (b.set@[i].start, b.set@[i].end))), Class::Unicode(u) => None };
pub axiom fn ord_u8() ensures forall|c: u8| #[trigger] ord(c) == c as int;
/// The symbol sequences of a tree.
pub open spec fn hfits<S>(k: HirKind, w: Seq<S>) -> bool decreases k, 0nat {
  match k {
    HirKind::Empty => w.len() == 0,
    HirKind::Literal(l) => lit::<S>(l) == Some(w),
    HirKind::Class(c) => w.len() == 1 && cls::<S>(c) is Some && within(cls::<S>(c)->0, w[0]),
    HirKind::Look(_) => false,
    HirKind::Repetition(r) => exists|n: nat| #[trigger] times(n) && r.min <= n && (r.max is Some ==> n <= r.max->0) && hrep(*r.sub, n, w),
    HirKind::Capture(c) => hfits((*c.sub).kind, w),
    HirKind::Concat(c) => hcat(c, c.len() as nat, w),
    HirKind::Alternation(a) => exists|j: int| 0 <= j < a.len() && hfits((#[trigger] a[j]).kind, w),
  }
}
/// n times the tree.
pub open spec fn hrep<S>(h: Hir, n: nat, w: Seq<S>) -> bool decreases h, n {
  if n == 0 { w.len() == 0 } else { exists|i: int| 0 <= i <= w.len() && hrep(h, (n - 1) as nat, #[trigger] w.take(i)) && hfits(h.kind, w.skip(i)) }
}
/// The first n trees, one after the other.
pub open spec fn hcat<S>(c: Vec<Hir>, n: nat, w: Seq<S>) -> bool decreases c, n {
  if n == 0 { w.len() == 0 } else if n > c.len() { false } else { exists|i: int| 0 <= i <= w.len() && hcat(c, (n - 1) as nat, #[trigger] w.take(i)) && hfits(c[n - 1].kind, w.skip(i)) }
}
/// Made of what this crate takes.
pub open spec fn supported<S>(k: HirKind) -> bool decreases k {
  match k {
    HirKind::Literal(l) => lit::<S>(l) is Some,
    HirKind::Class(c) => cls::<S>(c) is Some,
    HirKind::Look(_) => false,
    HirKind::Repetition(r) => r.greedy && supported::<S>((*r.sub).kind),
    HirKind::Capture(c) => supported::<S>((*c.sub).kind),
    HirKind::Concat(c) => forall|j: int| 0 <= j < c.len() ==> supported::<S>((#[trigger] c[j]).kind),
    HirKind::Alternation(c) => forall|j: int| 0 <= j < c.len() ==> supported::<S>((#[trigger] c[j]).kind),
    HirKind::Empty => true,
  }
}
/// As regex-syntax builds them.
pub open spec fn sane(k: HirKind) -> bool decreases k {
  match k {
    HirKind::Repetition(r) => (r.max is Some ==> r.min <= r.max->0) && sane((*r.sub).kind),
    HirKind::Capture(c) => sane((*c.sub).kind),
    HirKind::Concat(c) => forall|j: int| 0 <= j < c.len() ==> sane((#[trigger] c[j]).kind),
    HirKind::Alternation(c) => forall|j: int| 0 <= j < c.len() ==> sane((#[trigger] c[j]).kind),
    _ => true,
  }
}
/// No empty lists, literals and classes.
pub open spec fn regular<S>(k: HirKind) -> bool decreases k {
  match k {
    HirKind::Literal(l) => lit::<S>(l) is Some ==> (lit::<S>(l)->0).len() > 0,
    HirKind::Class(c) => cls::<S>(c) is Some ==> (cls::<S>(c)->0).len() > 0,
    HirKind::Repetition(r) => regular::<S>((*r.sub).kind),
    HirKind::Capture(c) => regular::<S>((*c.sub).kind),
    HirKind::Concat(c) => c.len() > 0 && forall|j: int| 0 <= j < c.len() ==> regular::<S>((#[trigger] c[j]).kind),
    HirKind::Alternation(c) => c.len() > 0 && forall|j: int| 0 <= j < c.len() ==> regular::<S>((#[trigger] c[j]).kind),
    _ => true,
  }
}
/// The expression has no tags, closed ranges, and matches what the tree matches.
pub open spec fn built<S, T>(k: HirKind, m: Mir<S, T>) -> bool {
  &&& untagged(m) && valid(m)
  &&& regular::<S>(k) ==> full(m) && !hole(m)
  &&& forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w)
}
pub open spec fn refused<S>(k: HirKind, e: Error) -> bool { !supported::<S>(k) && (e is UnsupportedOp || e is InvalidUtf8) }
pub open spec fn means<S, T>(k: HirKind, r: Result<Mir<S, T>, Error>) -> bool { match r { Ok(m) => built(k, m), Err(e) => refused::<S>(k, e) } }
pub trait Meaning: Sized { spec fn means_(k: HirKind, r: Result<Self, Error>) -> bool; }
impl<S, T> Meaning for Mir<S, T> { open spec fn means_(k: HirKind, r: Result<Self, Error>) -> bool { means(k, r) } }
//@ item laps_regex/src/mir.rs trait MirBuilder
//@ header pub trait MirBuilder: Sized + Meaning
//@ fn new_from_literal
    ensures Self::means_(HirKind::Literal(l), r),
//@ fn new_from_class
    ensures Self::means_(HirKind::Class(c), r),
//@ end
