"""Writes contracts/lits.inc.rs: the integer types of src/lexer.rs, in the order of the uses of impl_int_literal!."""
import os
out = []
for k, t in enumerate("i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split()):
    out.append(f"""pub assume_specification [{t}::from_str_radix] (s: &str, radix: u32) -> (r: Result<{t}, ParseIntError>)
  requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
  ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), {t}::MIN as int, {t}::MAX as int), r is Ok ==> r->Ok_0 as int == value(s@, radix);
pub assume_specification [{t}::wrapping_neg] (v: {t}) -> (r: {t})
  ensures r as int == wrapped(-(v as int), {t}::MIN as int, {t}::MAX as int);
//@ expand src/lexer.rs impl_int_literal {k}
//@ item src/lexer.rs!impl_int_literal{k} impl IntLiteral for {t} props=C14
//@ ghost
  open spec fn val(self) -> int {{ self as int }}
  open spec fn lo() -> int {{ {t}::MIN as int }}
  open spec fn hi() -> int {{ {t}::MAX as int }}
//@ fn from_str_radix
//@ fn wrapping_neg
//@ end
""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "lits.inc.rs"), "w").write("".join(out))
