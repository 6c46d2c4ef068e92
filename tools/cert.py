"""Certificates: which number the generated code gives to which state of the reference automaton.

Computed from the code the macro generated, on every run; nothing here is
trusted: the numbers go into the text as specification functions, and the
verifier has to prove that the generated code behaves as they say."""
import re


def fn_of(src, mod, ty, name):
    return src.find("gen", f"mod {mod} >> impl laps::lexer::Tokenize for {ty} >> fn next_token >> fn {name}")


def num(t):
    return int(re.sub(r"(usize|u8|u16|u32|u64|u128)$", "", t))


def char(t, byte):
    """The number of a character or byte literal."""
    if byte:
        return num(t)
    b = t[1:-1]
    if b.startswith("\\u{"):
        return int(b[3:-1], 16)
    if b.startswith("\\"):
        return {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, "'": 39, '"': 34}[b[1]]
    return ord(b)


def parts(src, mod, ty, byte):
    """(table, number of states, initial state, ranges) as the generated code has them."""
    t = fn_of(src, mod, ty, "table").inner
    table = [num(t[i].t) for i in range(len(t)) if t[i].k == "num"]
    # the only number a step needs is the number of states
    ns = {num(x.t) for x in fn_of(src, mod, ty, "is_accept").inner if x.k == "num"}
    if len(ns) != 1:
        raise ValueError("number of states")
    n = ns.pop()
    m = [x.t for x in fn_of(src, mod, ty, "next_token_impl").inner]
    i = m.index("state")
    init = num(m[i + 2])
    e = fn_of(src, mod, ty, "equiv_id").inner
    ranges, used = [], 0
    for i in range(len(e)):
        if e[i].t == "..=":
            # a range and the class it stands for; the range of the check that comes first stands for none
            l, r = char(e[i - 1].t, byte), char(e[i + 1].t, byte)
            j = next(j for j in range(i, len(e)) if e[j].t in ("Some", "None"))
            used += 2
            if e[j].t == "Some":
                ranges.append((l, r, num(e[j + 2].t)))
                used += 1
    if used != sum(x.k in ("num", "char", "str", "lit") for x in e):
        raise ValueError("classes")
    if not table or len(table) % n or any(k >= len(table) // n for _, _, k in ranges):
        raise ValueError("table")
    return table, n, init, ranges


def states(src, mod, ty, mode, *words):
    """Words `State=text`: a word that leads to the state of the reference automaton."""
    byte = mode == "u8"
    table, n, init, ranges = parts(src, mod, ty, byte)
    out = {}
    for w in words:
        q, _, text = w.partition("=")
        s = init
        for c in text.encode("latin-1").decode("unicode_escape"):
            k = next((k for l, r, k in ranges if l <= ord(c) <= r), None)
            s = table[k * n + s] if k is not None and s < n else n
        out[q] = s
    def lit(c):
        return f"{c}u8" if byte else f"'\\u{{{c:x}}}'"
    return (f"pub open spec fn num(q: Q) -> usize {{\n  match q {{ " + ", ".join(f"Q::{q} => {s}" for q, s in out.items()) + " }\n}\n"
            + "pub open spec fn state_of(n: usize) -> Q {\n" + "\n".join(f"  if n == {s} {{ Q::{q} }} else" for q, s in out.items()) + f" {{ Q::{next(iter(out))} }}\n}}\n"
            + f"pub open spec fn count() -> usize {{ {n} }}\n"
            + "pub open spec fn is_state(n: usize) -> bool { n < " + str(n) + " }\n"
            + f"pub open spec fn class_of(c: {'u8' if byte else 'char'}) -> Option<usize> {{\n" + "\n".join(f"  if {lit(l)} <= c && c <= {lit(r)} {{ Some({k}) }} else" for l, r, k in ranges) + " { None }\n}\n"
            + f"pub open spec fn entry(i: int) -> int {{\n" + "\n".join(f"  if i == {i} {{ {x} }} else" for i, x in enumerate(table)) + f" {{ {n} }}\n}}\n"
            + f"pub open spec fn table_is(t: Seq<u8>) -> bool {{ t.len() == {len(table)}" + "".join(f" && t[{i}] == {x}" for i, x in enumerate(table)) + " }\n")
