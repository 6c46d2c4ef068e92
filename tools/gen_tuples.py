"""Writes contracts/tuples.inc.rs: the contracts of the 26 tuple instances (macro impl_for_tuple)."""
import os
out = ["// written by tools/gen_tuples.py\n"]
for n in range(1, 27):
    ts = [chr(65 + i) for i in range(n)]
    tup = "(" + ", ".join(ts) + ",)"
    out.append(f"//@ expand src/parse.rs impl_for_tuple {n-1}\n")
    # relation: chained existentials, outermost first
    rel = ""
    def chain(i):
        s = f"q{i}" if i else "s"
        if i == n:
            return f"r == Result::<Self>::Ok(({', '.join(f'v{k}' for k in range(n))},)) && z == {s}"
        t = ts[i]
        nxt = f"q{i+1}"
        return (f"(r is Err && {t}::parses({s}, Result::<{t}>::Err(r->Err_0), z))\n    || (exists|v{i}: {t}, {nxt}: St<TS::Token>| #[trigger] {t}::parses({s}, Result::<{t}>::Ok(v{i}), {nxt}) && (" + chain(i + 1) + "))")
    out.append(f"""//@ item src/parse.rs!impl_for_tuple{n-1} impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {{
    {chain(0)}
  }}
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {{ A::checks(s, r) }}
//@ fn parse
//@ fn maybe
//@ end
""")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts", "tuples.inc.rs"), "w").writelines(out)
