use vstd::prelude::*;
verus! {
//@ assume usize::ilog2 follows its documentation; quote!(T) is the type T
//@ rewrite quoted type to a value naming it :: quote!($i_t) ==> Width::$i_t
//@ rewrite token stream of a type to the type it is :: TokenStream2 ==> Width
//@ rewrite ilog2 to a function with its contract :: self.num_states.ilog2() ==> ilog2_(self.num_states)
/// The integer types a table may be stored in.
#[allow(non_camel_case_types)]
pub enum Width { u8, u16, u32, u64, u128 }
pub open spec fn largest(w: Width) -> nat {
  match w { Width::u8 => u8::MAX as nat, Width::u16 => u16::MAX as nat, Width::u32 => u32::MAX as nat, Width::u64 => u64::MAX as nat, Width::u128 => u128::MAX as nat }
}
pub open spec fn two(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * two((n - 1) as nat) } }
#[verifier::external_body]
fn ilog2_(n: usize) -> (r: u32)
  requires n > 0,
  ensures r < usize::BITS, two(r as nat) <= n < two(r as nat + 1),
{ n.ilog2() }
proof fn grows(a: nat, b: nat)
  requires a <= b,
  ensures two(a) <= two(b),
  decreases b - a,
{ if a < b { grows(a, (b - 1) as nat); } }
proof fn limits()
  ensures two(8) == 0x100, two(16) == 0x1_0000, two(32) == 0x1_0000_0000, two(64) == 0x1_0000_0000_0000_0000,
{
  assert(two(8) == 0x100) by (compute);
  assert(two(16) == 0x1_0000) by (compute);
  assert(two(32) == 0x1_0000_0000) by (compute);
  assert(two(64) == 0x1_0000_0000_0000_0000) by (compute);
}
//@ item laps_macros/src/tokenize.rs struct RegexImpls
//@ end
//@ item laps_macros/src/tokenize.rs impl RegexImpls props=C08 only=1
//@ fn table_ty ret=r
    ensures self.num_states <= largest(r),
//@ entry
    proof {
      limits();
      if self.num_states > 0 {
        assert forall|r: u32| two(r as nat) <= self.num_states < #[trigger] two(r as nat + 1) implies (r < 8 ==> self.num_states <= 0xff) && (r < 16 ==> self.num_states <= 0xffff) && (r < 32 ==> self.num_states <= 0xffff_ffff) && (r < 64 ==> self.num_states <= 0xffff_ffff_ffff_ffff) by {
          if r < 8 { grows(r as nat + 1, 8); } if r < 16 { grows(r as nat + 1, 16); } if r < 32 { grows(r as nat + 1, 32); } if r < 64 { grows(r as nat + 1, 64); }
        }
      }
    }
//@ end
}
fn main() {}
