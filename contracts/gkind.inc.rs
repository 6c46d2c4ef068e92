// written by tools/gen_gkind.py
//@ item gen mod k >> enum K
//@ end
//@ item gen mod k >> impl std::convert::From for K#0 props=C24
//@ ghost
  open spec fn from_ok(v: V1, r: Self) -> bool { r == K::Str(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V1 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::Str(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V1 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::Str(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v1(v: V1, k: K) -> (r: (core::result::Result<V1, ()>, core::result::Result<V1, ()>))
  ensures r.0 == core::result::Result::<V1, ()>::Ok(v), r.1 is Ok <==> k is Str,
{ let a = <K as From_<V1>>::from(v); let r0 = { let b = <&V1 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V1 as TryFrom_<K>>::try_from(a) }; (r0, <V1 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#1 props=C24
//@ ghost
  open spec fn from_ok(v: V2, r: Self) -> bool { r == K::Int(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V2 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::Int(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V2 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::Int(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v2(v: V2, k: K) -> (r: (core::result::Result<V2, ()>, core::result::Result<V2, ()>))
  ensures r.0 == core::result::Result::<V2, ()>::Ok(v), r.1 is Ok <==> k is Int,
{ let a = <K as From_<V2>>::from(v); let r0 = { let b = <&V2 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V2 as TryFrom_<K>>::try_from(a) }; (r0, <V2 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#2 props=C24
//@ ghost
  open spec fn from_ok(v: V3, r: Self) -> bool { r == K::CharLit(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V3 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::CharLit(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V3 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::CharLit(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v3(v: V3, k: K) -> (r: (core::result::Result<V3, ()>, core::result::Result<V3, ()>))
  ensures r.0 == core::result::Result::<V3, ()>::Ok(v), r.1 is Ok <==> k is CharLit,
{ let a = <K as From_<V3>>::from(v); let r0 = { let b = <&V3 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V3 as TryFrom_<K>>::try_from(a) }; (r0, <V3 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#3 props=C24
//@ ghost
  open spec fn from_ok(v: V4, r: Self) -> bool { r == K::FP(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V4 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::FP(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V4 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::FP(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v4(v: V4, k: K) -> (r: (core::result::Result<V4, ()>, core::result::Result<V4, ()>))
  ensures r.0 == core::result::Result::<V4, ()>::Ok(v), r.1 is Ok <==> k is FP,
{ let a = <K as From_<V4>>::from(v); let r0 = { let b = <&V4 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V4 as TryFrom_<K>>::try_from(a) }; (r0, <V4 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#4 props=C24
//@ ghost
  open spec fn from_ok(v: V5, r: Self) -> bool { r == K::Two(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V5 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::Two(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V5 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::Two(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v5(v: V5, k: K) -> (r: (core::result::Result<V5, ()>, core::result::Result<V5, ()>))
  ensures r.0 == core::result::Result::<V5, ()>::Ok(v), r.1 is Ok <==> k is Two,
{ let a = <K as From_<V5>>::from(v); let r0 = { let b = <&V5 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V5 as TryFrom_<K>>::try_from(a) }; (r0, <V5 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#5 props=C24
//@ ghost
  open spec fn from_ok(v: V6, r: Self) -> bool { r == K::Flag(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V6 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::Flag(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V6 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::Flag(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v6(v: V6, k: K) -> (r: (core::result::Result<V6, ()>, core::result::Result<V6, ()>))
  ensures r.0 == core::result::Result::<V6, ()>::Ok(v), r.1 is Ok <==> k is Flag,
{ let a = <K as From_<V6>>::from(v); let r0 = { let b = <&V6 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V6 as TryFrom_<K>>::try_from(a) }; (r0, <V6 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#6 props=C24
//@ ghost
  open spec fn from_ok(v: V7, r: Self) -> bool { r == K::URLPath(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V7 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::URLPath(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V7 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::URLPath(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v7(v: V7, k: K) -> (r: (core::result::Result<V7, ()>, core::result::Result<V7, ()>))
  ensures r.0 == core::result::Result::<V7, ()>::Ok(v), r.1 is Ok <==> k is URLPath,
{ let a = <K as From_<V7>>::from(v); let r0 = { let b = <&V7 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V7 as TryFrom_<K>>::try_from(a) }; (r0, <V7 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#7 props=C24
//@ ghost
  open spec fn from_ok(v: V8, r: Self) -> bool { r == K::EmptyDoc(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V8 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::EmptyDoc(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V8 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::EmptyDoc(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v8(v: V8, k: K) -> (r: (core::result::Result<V8, ()>, core::result::Result<V8, ()>))
  ensures r.0 == core::result::Result::<V8, ()>::Ok(v), r.1 is Ok <==> k is EmptyDoc,
{ let a = <K as From_<V8>>::from(v); let r0 = { let b = <&V8 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V8 as TryFrom_<K>>::try_from(a) }; (r0, <V8 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::convert::From for K#8 props=C24
//@ ghost
  open spec fn from_ok(v: V9, r: Self) -> bool { r == K::Braced(v) }
//@ fn from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for V9 props=C24
//@ ghost
  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool { match v { K::Braced(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err } }
//@ fn try_from
//@ end
//@ item gen mod k >> impl std::convert::TryFrom for & 'a V9 props=C24
//@ ghost
  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool { match *v { K::Braced(x) => r is Ok && *r->Ok_0 == x, _ => r is Err } }
//@ fn try_from
//@ end
/// There and back, by value and by reference; every other variant is refused.
fn there_and_back_v9(v: V9, k: K) -> (r: (core::result::Result<V9, ()>, core::result::Result<V9, ()>))
  ensures r.0 == core::result::Result::<V9, ()>::Ok(v), r.1 is Ok <==> k is Braced,
{ let a = <K as From_<V9>>::from(v); let r0 = { let b = <&V9 as TryFrom_<&K>>::try_from(&a); proof { assert(*b->Ok_0 == v); } <V9 as TryFrom_<K>>::try_from(a) }; (r0, <V9 as TryFrom_<K>>::try_from(k)) }
//@ item gen mod k >> impl std::fmt::Display for K props=C24
//@ ghost
  open spec fn text(&self) -> Seq<char> {
    match *self {
      K::Str(x) => "string literal `"@ + x.text() + "`"@,
      K::Int(x) => "integer literal `"@ + x.text() + "`"@,
      K::CharLit(x) => "char lit `"@ + x.text() + "`"@,
      K::FP(x) => "f p `"@ + x.text() + "`"@,
      K::Two(x) => "a doc comment over two lines `"@ + x.text() + "`"@,
      K::Flag(x) => "ends with two. `"@ + x.text() + "`"@,
      K::Eof => "end-of-file"@,
      K::PlainUnit => "plain unit"@,
      K::Pair(..) => "pair of things"@,
      K::NamedThing { .. } => "named thing"@,
      K::X => "x"@,
      K::URLPath(x) => "u r l path `"@ + x.text() + "`"@,
      K::EmptyDoc(x) => "empty doc `"@ + x.text() + "`"@,
      K::Nothing(..) => "nothing"@,
      K::r#Raw => "raw"@,
      K::Brace => "left brace `{` or {}"@,
      K::Braced(x) => "value {v} in }{ `"@ + x.text() + "`"@,
    }
  }
//@ fn fmt
//@ end
