pub assume_specification [i8::from_str_radix] (s: &str, radix: u32) -> (r: Result<i8, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), i8::MIN as int, i8::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [i8::wrapping_neg] (v: i8) -> (r: i8)
  ensures r as int == wrapped(-(v as int), i8::MIN as int, i8::MAX as int);
//@ expand src/lexer.rs impl_int_literal 0
//@ item src/lexer.rs!impl_int_literal0 impl IntLiteral for i8 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { i8::MIN as int }
  open spec fn hi() -> int { i8::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [i16::from_str_radix] (s: &str, radix: u32) -> (r: Result<i16, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), i16::MIN as int, i16::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [i16::wrapping_neg] (v: i16) -> (r: i16)
  ensures r as int == wrapped(-(v as int), i16::MIN as int, i16::MAX as int);
//@ expand src/lexer.rs impl_int_literal 1
//@ item src/lexer.rs!impl_int_literal1 impl IntLiteral for i16 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { i16::MIN as int }
  open spec fn hi() -> int { i16::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [i32::from_str_radix] (s: &str, radix: u32) -> (r: Result<i32, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), i32::MIN as int, i32::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [i32::wrapping_neg] (v: i32) -> (r: i32)
  ensures r as int == wrapped(-(v as int), i32::MIN as int, i32::MAX as int);
//@ expand src/lexer.rs impl_int_literal 2
//@ item src/lexer.rs!impl_int_literal2 impl IntLiteral for i32 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { i32::MIN as int }
  open spec fn hi() -> int { i32::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [i64::from_str_radix] (s: &str, radix: u32) -> (r: Result<i64, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), i64::MIN as int, i64::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [i64::wrapping_neg] (v: i64) -> (r: i64)
  ensures r as int == wrapped(-(v as int), i64::MIN as int, i64::MAX as int);
//@ expand src/lexer.rs impl_int_literal 3
//@ item src/lexer.rs!impl_int_literal3 impl IntLiteral for i64 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { i64::MIN as int }
  open spec fn hi() -> int { i64::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [i128::from_str_radix] (s: &str, radix: u32) -> (r: Result<i128, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), i128::MIN as int, i128::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [i128::wrapping_neg] (v: i128) -> (r: i128)
  ensures r as int == wrapped(-(v as int), i128::MIN as int, i128::MAX as int);
//@ expand src/lexer.rs impl_int_literal 4
//@ item src/lexer.rs!impl_int_literal4 impl IntLiteral for i128 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { i128::MIN as int }
  open spec fn hi() -> int { i128::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [isize::from_str_radix] (s: &str, radix: u32) -> (r: Result<isize, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), isize::MIN as int, isize::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [isize::wrapping_neg] (v: isize) -> (r: isize)
  ensures r as int == wrapped(-(v as int), isize::MIN as int, isize::MAX as int);
//@ expand src/lexer.rs impl_int_literal 5
//@ item src/lexer.rs!impl_int_literal5 impl IntLiteral for isize props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { isize::MIN as int }
  open spec fn hi() -> int { isize::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [u8::from_str_radix] (s: &str, radix: u32) -> (r: Result<u8, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), u8::MIN as int, u8::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [u8::wrapping_neg] (v: u8) -> (r: u8)
  ensures r as int == wrapped(-(v as int), u8::MIN as int, u8::MAX as int);
//@ expand src/lexer.rs impl_int_literal 6
//@ item src/lexer.rs!impl_int_literal6 impl IntLiteral for u8 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { u8::MIN as int }
  open spec fn hi() -> int { u8::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [u16::from_str_radix] (s: &str, radix: u32) -> (r: Result<u16, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), u16::MIN as int, u16::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [u16::wrapping_neg] (v: u16) -> (r: u16)
  ensures r as int == wrapped(-(v as int), u16::MIN as int, u16::MAX as int);
//@ expand src/lexer.rs impl_int_literal 7
//@ item src/lexer.rs!impl_int_literal7 impl IntLiteral for u16 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { u16::MIN as int }
  open spec fn hi() -> int { u16::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [u32::from_str_radix] (s: &str, radix: u32) -> (r: Result<u32, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), u32::MIN as int, u32::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [u32::wrapping_neg] (v: u32) -> (r: u32)
  ensures r as int == wrapped(-(v as int), u32::MIN as int, u32::MAX as int);
//@ expand src/lexer.rs impl_int_literal 8
//@ item src/lexer.rs!impl_int_literal8 impl IntLiteral for u32 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { u32::MIN as int }
  open spec fn hi() -> int { u32::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [u64::from_str_radix] (s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), u64::MIN as int, u64::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [u64::wrapping_neg] (v: u64) -> (r: u64)
  ensures r as int == wrapped(-(v as int), u64::MIN as int, u64::MAX as int);
//@ expand src/lexer.rs impl_int_literal 9
//@ item src/lexer.rs!impl_int_literal9 impl IntLiteral for u64 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { u64::MIN as int }
  open spec fn hi() -> int { u64::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [u128::from_str_radix] (s: &str, radix: u32) -> (r: Result<u128, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), u128::MIN as int, u128::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [u128::wrapping_neg] (v: u128) -> (r: u128)
  ensures r as int == wrapped(-(v as int), u128::MIN as int, u128::MAX as int);
//@ expand src/lexer.rs impl_int_literal 10
//@ item src/lexer.rs!impl_int_literal10 impl IntLiteral for u128 props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { u128::MIN as int }
  open spec fn hi() -> int { u128::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
pub assume_specification [usize::from_str_radix] (s: &str, radix: u32) -> (r: Result<usize, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), usize::MIN as int, usize::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [usize::wrapping_neg] (v: usize) -> (r: usize)
  ensures r as int == wrapped(-(v as int), usize::MIN as int, usize::MAX as int);
//@ expand src/lexer.rs impl_int_literal 11
//@ item src/lexer.rs!impl_int_literal11 impl IntLiteral for usize props=C14
//@ ghost
  open spec fn val(self) -> int { self as int }
  open spec fn lo() -> int { usize::MIN as int }
  open spec fn hi() -> int { usize::MAX as int }
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
