#!/usr/bin/env python3
"""Writes gen/src/k.rs (declarations) and contracts/gkind.inc.rs (their contracts, from the declarations)."""
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# (documentation lines, variant, fields): fields is None, a list of types or a list of (name, type)
D = [
    (["String literal."], "Str", ["V1"]),
    (["Integer LITERAL"], "Int", ["V2"]),
    ([], "CharLit", ["V3"]),
    ([], "FP", ["V4"]),
    (["A doc comment", "over two Lines."], "Two", ["V5"]),
    (["Ends with two.."], "Flag", ["V6"]),
    (["End-of-file."], "Eof", None),
    ([], "PlainUnit", None),
    (["Pair of things."], "Pair", ["V1", "V2"]),
    ([], "NamedThing", [("x", "V1")]),
    ([], "X", None),
    ([], "URLPath", ["V7"]),
    ([""], "EmptyDoc", ["V8"]),
    ([], "Nothing", []),
    ([], "r#Raw", None),
    (["Left brace `{` or {}."], "Brace", None),
    (["Value {v} in }{."], "Braced", ["V9"]),
]


def prompt(doc, name):
    d = " ".join(x.strip() for x in doc).strip()
    if d:
        d = "".join(c.lower() if c.isascii() else c for c in d)
        return d[:-1] if d.endswith(".") else d
    name = name[2:] if name.startswith("r#") else name
    s = ""
    for c in name:
        if c.isascii() and c.isupper():
            s += (" " if s else "") + c.lower()
        else:
            s += c
    return s


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"@'


src = """// written by tools/gen_gkind.py
use laps::token::token_kind;
use std::fmt;

macro_rules! value {
  ($($t:ident)*) => {$(
    #[derive(Clone, PartialEq)]
    pub struct $t;
    impl fmt::Display for $t {
      fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("v") }
    }
  )*};
}
value!(V1 V2 V3 V4 V5 V6 V7 V8 V9);

#[token_kind]
pub enum K {
"""
arms, convs, n = "", "", 0
for doc, v, fs in D:
    src += "".join(f"  ///{' ' + l if l else ''}\n" for l in doc)
    if fs is None:
        src += f"  {v},\n"
        arms += f"      K::{v} => {q(prompt(doc, v))},\n"
    elif fs and not isinstance(fs[0], str):
        src += f"  {v} {{ " + ", ".join(f"{a}: {t}" for a, t in fs) + " },\n"
        arms += f"      K::{v} {{ .. }} => {q(prompt(doc, v))},\n"
    else:
        src += f"  {v}({', '.join(fs)}),\n"
        if len(fs) == 1:
            t = fs[0]
            arms += f"      K::{v}(x) => {q(prompt(doc, v) + ' `')} + x.text() + \"`\"@,\n"
            convs += (f"//@ item gen mod k >> impl std::convert::From for K#{n} props=C24\n//@ ghost\n"
                      f"  open spec fn from_ok(v: {t}, r: Self) -> bool {{ r == K::{v}(v) }}\n//@ fn from\n//@ end\n"
                      f"//@ item gen mod k >> impl std::convert::TryFrom for {t} props=C24\n//@ ghost\n"
                      f"  open spec fn try_ok(v: K, r: core::result::Result<Self, ()>) -> bool {{ match v {{ K::{v}(x) => r == core::result::Result::<Self, ()>::Ok(x), _ => r is Err }} }}\n//@ fn try_from\n//@ end\n"
                      f"//@ item gen mod k >> impl std::convert::TryFrom for & 'a {t} props=C24\n//@ ghost\n"
                      f"  open spec fn try_ok(v: &'a K, r: core::result::Result<Self, ()>) -> bool {{ match *v {{ K::{v}(x) => r is Ok && *r->Ok_0 == x, _ => r is Err }} }}\n//@ fn try_from\n//@ end\n"
                      f"/// There and back, by value and by reference; every other variant is refused.\n"
                      f"fn there_and_back_{t.lower()}(v: {t}, k: K) -> (r: (core::result::Result<{t}, ()>, core::result::Result<{t}, ()>))\n"
                      f"  ensures r.0 == core::result::Result::<{t}, ()>::Ok(v), r.1 is Ok <==> k is {v},\n"
                      f"{{ let a = <K as From_<{t}>>::from(v); let r0 = {{ let b = <&{t} as TryFrom_<&K>>::try_from(&a); proof {{ assert(*b->Ok_0 == v); }} <{t} as TryFrom_<K>>::try_from(a) }}; (r0, <{t} as TryFrom_<K>>::try_from(k)) }}\n")
            n += 1
        else:
            arms += f"      K::{v}(..) => {q(prompt(doc, v))},\n"
src += "}\n"
inc = "// written by tools/gen_gkind.py\n//@ item gen mod k >> enum K\n//@ end\n" + convs
inc += f"//@ item gen mod k >> impl std::fmt::Display for K props=C24\n//@ ghost\n  open spec fn text(&self) -> Seq<char> {{\n    match *self {{\n{arms}    }}\n  }}\n//@ fn fmt\n//@ end\n"
for path, text in (("gen/src/k.rs", src), ("contracts/gkind.inc.rs", inc)):
    with open(os.path.join(HERE, path), "w") as f:
        f.write(text)
