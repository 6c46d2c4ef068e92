#!/usr/bin/env python3
"""Writes gen/src/s.rs (declarations) and contracts/gspan.inc.rs (their contracts, from the declarations)."""
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# F1, F2 and T always have a span, O1 and O2 possibly; fields are (name or None, type)
D = [
    ("One", "struct", [(None, "F1")]),
    ("Two", "struct", [("a", "F1"), ("b", "F2")]),
    ("Front", "struct", [("a", "O1"), ("b", "F1")]),
    ("Back", "struct", [("a", "F1"), ("b", "O1")]),
    ("Mid", "struct", [("a", "O1"), ("b", "F1"), ("c", "O2")]),
    ("Outer", "struct", [(None, "O1"), (None, "O2"), (None, "F1"), (None, "O2"), (None, "O1")]),
    ("Wide", "struct", [("a", "O1"), ("b", "F1"), ("c", "O2"), ("d", "F2"), ("e", "O1"), ("f", "O2")]),
    ("Gen", "struct<T>", [("a", "O1"), ("t", "T"), ("b", "O1")]),
    ("Sum", "enum", [("A", [(None, "F1")]), ("B", [(None, "F2"), (None, "O1"), (None, "F1")]), ("C", [("x", "O1"), ("y", "F1"), ("z", "O2")]), ("D", [(None, "O1"), (None, "O2"), (None, "F2")])]),
    ("Ten", "struct", [(None, "O2"), (None, "O1"), (None, "O2"), (None, "F1"), (None, "O1"), (None, "F2"), (None, "O1"), (None, "O2"), (None, "O1"), (None, "O2")]),
    ("Raw", "struct", [("r#type", "O1"), ("span", "F1"), ("r#match", "O2")]),
    ("Six", "enum", [("A", [(None, "F1"), (None, "O1")]), ("B", [("w", "F2")]), ("C", [("x", "O1"), ("y", "O2"), ("z", "F2")]), ("D", [(None, "F1"), (None, "F2"), (None, "F1"), (None, "F2")]), ("r#If", [(None, "O2"), (None, "F1"), (None, "O2"), (None, "F1"), (None, "O2")]), ("F", [(None, "F2"), (None, "O2"), (None, "O2"), (None, "O2")])]),
    ("GenSum", "enum<T>", [("A", [(None, "T"), (None, "O1")]), ("B", [("x", "O2"), ("t", "T"), ("y", "T")])]),
]


def decl(fs, vis):
    one = lambda n, t: ("#[try_span] " if t[0] == "O" else "") + (f"{vis}{n}: {t}" if n else f"{vis}{t}")
    b = ", ".join(one(*f) for f in fs)
    return f" {{ {b} }}" if fs[0][0] else f"({b})"


def part(e, t):
    return f"{e}.try_sp()" if t[0] == "O" else f"Some({e}.sp())"


def whole(ps):
    s = "seq![" + ", ".join(ps) + "]"
    return f"across({s})"


src = """// written by tools/gen_gspan.py
use laps::span::{Span, Spanned, TrySpan};

pub struct F1(Span);
impl Spanned for F1 { fn span(&self) -> Span { self.0.clone() } }
pub struct F2(Span);
impl Spanned for F2 { fn span(&self) -> Span { self.0.clone() } }
pub struct O1(Option<Span>);
impl TrySpan for O1 { fn try_span(&self) -> Option<Span> { self.0.clone() } }
pub struct O2(Option<Span>);
impl TrySpan for O2 { fn try_span(&self) -> Option<Span> { self.0.clone() } }
"""
inc = "// written by tools/gen_gspan.py\n"
for name, kind, data in D:
    k, g = kind.split("<")[0], "<T>" if "<" in kind else ""
    w = " where T: Spanned" if g else ""
    if k == "struct":
        d = decl(data, "pub ")
        src += f"\n#[derive(Spanned)]\npub struct {name}{g}" + (f"{w}{d}\n" if d.startswith(" ") else f"{d}{w};\n")
        sp = whole([part(f"self.{n if n else i}", t) for i, (n, t) in enumerate(data)])
        wf = " && ".join([f"self.{n if n else i}.wf()" for i, (n, t) in enumerate(data) if t == "T"] or ["true"])
        n_max = len(data)
    else:
        src += f"\n#[derive(Spanned)]\npub enum {name}{g}{w} {{\n" + "".join(f"  {v}{decl(fs, '')},\n" for v, fs in data) + "}\n"
        def pat(fs):
            return "{ " + ", ".join(f"{n if n else i}: x{i}" for i, (n, _) in enumerate(fs)) + " }"
        sp = "match self { " + " ".join(f"{name}::{v} {pat(fs)} => {whole([part(f'x{i}', t) for i, (_, t) in enumerate(fs)])}," for v, fs in data) + " }"
        wf = "match self { " + " ".join(f"{name}::{v} {pat(fs)} => " + " && ".join([f"x{i}.wf()" for i, (_, t) in enumerate(fs) if t == "T"] or ["true"]) + "," for v, fs in data) + " }"
        n_max = max(len(fs) for _, fs in data)
    inc += f"//@ item gen mod s >> {k} {name}\n//@ end\n"
    inc += f"//@ item gen mod s >> impl laps::span::Spanned for {name} props=C26\n//@ ghost\n"
    inc += f"  open spec fn sp(&self) -> Span {{ {sp} }}\n  open spec fn wf(&self) -> bool {{ {wf} }}\n"
    inc += f"//@ fn span\n//@ entry\n    proof {{ reveal_with_fuel(first_from, {n_max + 1}); reveal_with_fuel(last_to, {n_max + 1}); }}\n//@ end\n"
for path, text in (("gen/src/s.rs", src), ("contracts/gspan.inc.rs", inc)):
    with open(os.path.join(HERE, path), "w") as f:
        f.write(text)
