#!/usr/bin/env python3
"""Writes gen/src/p.rs (declarations) and contracts/gparse.inc.rs (their contracts, from the declarations)."""
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# (name, generics, kind, starts, data); a component list is a list of types or of (field, type)
D = [
    ("Named", "", "struct", [], [("a", "C1"), ("b", "C2"), ("c", "C3")]),
    ("Tuple", "", "struct", [], ["C1", "C2"]),
    ("One", "", "struct", [], ["C2"]),
    ("UnitS", "", "struct", [], None),
    ("EmptyN", "", "struct", [], []),
    ("Arr", "<const N: usize>", "struct", [], [("a", "C3"), ("b", "C1")]),
    ("Start1", "", "struct", ["T1"], [("a", "C1"), ("b", "C2")]),
    ("Start2", "", "struct", ["T1", "T2"], ["C3"]),
    ("Plain", "", "enum", [], [("X", ["C1", "C2"]), ("Y", [("a", "C2"), ("b", "C3"), ("c", "C1")]), ("Z", ["C3"])]),
    ("UnitLast", "", "enum", [], [("X", ["C1", "C2"]), ("Y", [("a", "C2")]), ("Z", None)]),
    ("UnitMid", "", "enum", [], [("X", ["C1"]), ("U", None), ("Y", ["C2"])]),
    ("UnitFirst", "", "enum", [], [("U", None), ("Y", ["C2"])]),
    ("EmptyVar", "", "enum", [], [("X", ["C1"]), ("E", []), ("Y", ["C2", "C1"])]),
    ("Only", "", "enum", [], [("X", ["C1", "C2"])]),
    ("Four", "", "enum", [], [("A", ["C1"]), ("B", ["C2"]), ("C", ["C3"]), ("D", ["C1", "C1"])]),
    ("StartE1", "", "enum", ["T1"], [("X", ["C1"]), ("Y", ["C2"])]),
    ("StartE2", "", "enum", ["T2", "T1"], [("X", ["C1", "C3"]), ("Y", ["C2"]), ("Z", None)]),
    ("Six", "", "struct", [], ["C1", "C2", "C3", "C3", "C1", "C2"]),
    ("Raw", "", "struct", [], [("r#type", "C2"), ("tokens", "C1")]),
    ("Start3", "", "struct", ["T1", "T2", "T1"], None),
    ("Nine", "", "enum", [], [("A", ["C1", "C2", "C3", "C1"]), ("B", [("x", "C2")]), ("C", ["C3"]), ("D", ["C1", "C1"]), ("r#If", ["C2", "C2"]), ("F", [("y", "C3"), ("z", "C1")]), ("G", ["C1"]), ("H", ["C3", "C2"]), ("I", ["C2", "C3"])]),
]


def ty(c):
    return c if isinstance(c, str) else c[1]


def decl_fields(cs):
    if cs is None:
        return ""
    if cs and not isinstance(cs[0], str):
        return " { " + ", ".join(f"VIS{n}: {t}" for n, t in cs) + " }"
    return "(" + ", ".join("VIS" + c for c in cs) + ")"


def con(cs):
    """Constructor arguments v0, v1, .."""
    if cs is None:
        return ""
    if cs and not isinstance(cs[0], str):
        return " { " + ", ".join(f"{n}: v{i}" for i, (n, _) in enumerate(cs)) + " }"
    return "(" + ", ".join(f"v{i}" for i in range(len(cs))) + ")" if cs else "()"


def seq(cs, name, i=0, q="s"):
    """The components in order from state q."""
    if cs is None or i == len(cs):
        return f"(r == Result::<Self>::Ok({name}{con(cs)}) && z == {q})"
    t, p = ty(cs[i]), f"q{i + 1}"
    return (f"((r is Err && <{t} as Parse<TS>>::parses({q}, Result::<{t}>::Err(r->Err_0), z))\n"
            f"      || (exists|v{i}: {t}, {p}: St<TS::Token>| #[trigger] <{t} as Parse<TS>>::parses({q}, Result::<{t}>::Ok(v{i}), {p}) && {seq(cs, name, i + 1, p)}))")


def variants(vs):
    n, cs = vs[0]
    here = seq(cs, f"Self::{n}")
    if len(vs) == 1 or not cs:
        return here
    t = ty(cs[0])
    return (f"((r is Err && <{t} as Parse<TS>>::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z))\n"
            f"    || (<{t} as Parse<TS>>::checks(s, Result::<bool>::Ok(true)) && {here})\n"
            f"    || (<{t} as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && {variants(vs[1:])}))")


def any_of(vs):
    if not vs:
        return "r == Result::<bool>::Ok(false)"
    n, cs = vs[0]
    if not cs:
        return "r == Result::<bool>::Ok(true)"
    t = ty(cs[0])
    return (f"((r is Err && <{t} as Parse<TS>>::checks(s, r)) || (r == Result::<bool>::Ok(true) && <{t} as Parse<TS>>::checks(s, r))\n"
            f"    || (<{t} as Parse<TS>>::checks(s, Result::<bool>::Ok(false)) && {any_of(vs[1:])}))")


src = """// written by tools/gen_gparse.py
use laps::parse::Parse;
use laps::span::Result;
use laps::token::TokenStream;

macro_rules! component {
  ($($t:ident)*) => {$(
    pub struct $t;
    impl<TS: TokenStream> Parse<TS> for $t {
      fn parse(_: &mut TS) -> Result<Self> { unimplemented!() }
      fn maybe(_: &mut TS) -> Result<bool> { unimplemented!() }
    }
  )*};
}
component!(C1 C2 C3);
macro_rules! token {
  ($($t:ident)*) => {$(
    pub struct $t<K>(pub K);
    impl<TS: TokenStream> Parse<TS> for $t<TS::Token> {
      fn parse(_: &mut TS) -> Result<Self> { unimplemented!() }
      fn maybe(_: &mut TS) -> Result<bool> { unimplemented!() }
    }
  )*};
}
token!(T1 T2);
"""
inc = "// written by tools/gen_gparse.py\n"
for name, g, kind, starts, data in D:
    src += "\n#[derive(Parse)]\n"
    if starts:
        src += f"#[starts_with({', '.join(starts)})]\n"
    if kind == "struct":
        f = decl_fields(data)
        if data == []:
            f = " {}"
        src += f"pub struct {name}{g}{f}{'' if f.endswith('}') else ';'}\n".replace("VIS", "pub ")
    else:
        src += f"pub enum {name}{g} {{\n" + "".join(f"  {n}{decl_fields(cs)},\n" for n, cs in data).replace("VIS", "") + "}\n"
    inc += f"//@ item gen mod p >> {kind} {name}\n//@ end\n"
    if kind == "struct":
        if data == []:
            body = "(r == Result::<Self>::Ok(Self {}) && z == s)"
        else:
            body = seq(data, "Self")
        check = "r == Result::<bool>::Ok(true)" if not data else f"<{ty(data[0])} as Parse<TS>>::checks(s, r)"
    else:
        body, check = variants(data), any_of(data)
    if starts:
        k = len(starts)
        check = (f"if s.good({k}) {{ r == Result::<bool>::Ok(" + " && ".join(f"<{t}<TS::Token> as Parse<TS>>::accepts(s.at({i})->Ok_0)" for i, t in enumerate(starts)) + ") }\n"
                 f"    else {{ exists|k: nat| k < {k} && s.good(k) && #[trigger] s.at(k) is Err && r == Result::<bool>::Err(s.at(k)->Err_0) }}")
    inc += f"//@ item gen mod p >> impl laps::parse::Parse for {name} props=C22\n//@ ghost\n"
    inc += f"  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {{\n    {body}\n  }}\n"
    inc += f"  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {{\n    {check}\n  }}\n"
    inc += "  open spec fn one_token() -> bool { false }\n  open spec fn accepts(t: TS::Token) -> bool { false }\n"
    inc += "//@ fn parse\n"
    inc += "//@ fn maybe props=C21,C22\n"
    if starts:
        inc += f"//@ entry\n    proof {{ chain_lemmas(tokens.rest()); }}\n"
    inc += "//@ end\n"
for path, text in (("gen/src/p.rs", src), ("contracts/gparse.inc.rs", inc)):
    with open(os.path.join(HERE, path), "w") as f:
        f.write(text)
