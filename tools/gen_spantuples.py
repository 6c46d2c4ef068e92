"""Writes contracts/spantuples.inc.rs: the contracts of the 25 instances of impl_spanned_for_tuple."""
import os
out = ["// written by tools/gen_spantuples.py\n"]
for n in range(2, 27):
    out.append(f"""//@ expand src/span.rs impl_spanned_for_tuple {n-2}
//@ item src/span.rs!impl_spanned_for_tuple{n-2} impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span {{ joined(self.0.sp(), self.{n-1}.sp()) }}
  open spec fn wf(&self) -> bool {{ self.0.wf() && self.{n-1}.wf() }}
//@ fn span
//@ end
""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "spantuples.inc.rs"), "w").writelines(out)
