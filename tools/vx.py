"""Extracts functions from /repo, gives them their contracts, runs the verifier.

A unit is a file contracts/<unit>.rs: Verus text with directive lines

  //@ rewrite NAME :: PATTERN ==> REPLACEMENT      mechanical desugaring, everywhere in the unit
  //@ assume TEXT                                  a statement for the list of assumptions
  //@ expand FILE MACRO K                          expands the K-th use of a macro_rules macro of FILE
  //@ inline FILE MACRO                            expands the uses of a macro_rules macro in expressions
  //@ printing                                     formats, written or printed, become appends to a text
  //@ item FILE KEY [only] [props=..]              starts an extracted item (impl, trait, struct, enum, fn)
  //@ ghost                                        text placed inside the item
  //@ fn NAME [props=C01,C02] [ret=r]              contract of a function of the item
  //@ loop K | loopbody K | loopend K | entry      invariants, and proof text at places of the function
  //@ drop NAME..                                  functions of the item left out
  //@ end

Everything else of the text is copied.  Function bodies come from /repo's
current sources, with comments and attributes dropped, cfgs resolved (features
`macros` and `logger` on) and the desugarings applied.
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import cert
from rustlex import (Item, LexError, Tok, close, flat, items, lex, match, parse_pat, rewrite, skip_elem, strip_attrs, text, CLOSE, OPEN)

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = os.path.join(HERE, "contracts")
FEATS = {"macros", "logger"}
CHEATS = re.compile(r"\b(assume_specification|external_body|external_fn_specification|external_type_specification|external_trait_specification|admit\s*\(|assume\s*\(|axiom fn|external\b)")


class Lost(Exception):
    """A function or construct the unit relies on is not there any more."""


GEN_LOCK = threading.Lock()
GEN = {}


def generated():
    """What rustc expands the declarations of /verif/gen to, with the macros of /repo's working tree."""
    with GEN_LOCK:
        if "text" not in GEN:
            d = os.path.join(HERE, "gen")
            if REPO != "/repo":  # trying a copy of the repository
                shutil.copytree(d, REPO + "/target/gen", ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
                d = REPO + "/target/gen"
                t = open(d + "/Cargo.toml").read().replace('"/repo"', '"' + REPO + '"')
                open(d + "/Cargo.toml", "w").write(t)
            env = dict(os.environ, HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                       CARGO_INCREMENTAL="0", RUSTC_BOOTSTRAP="1", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
            for k in ("CARGO_TARGET_DIR", "RUSTFLAGS"):
                env.pop(k, None)
            r = subprocess.run(["cargo", "rustc", "--offline", "-q", "--lib", "--target-dir", os.path.join(d, "target"), "--", "-Zunpretty=expanded"],
                               cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            GEN["text"] = r.stdout if r.returncode == 0 else None
            GEN["err"] = r.stderr
        if GEN["text"] is None:
            raise Lost("the declarations of /verif/gen do not expand:\n" + GEN["err"][-2000:])
        return GEN["text"]


def no_items(body):
    """The statements of a function, without the items declared in it."""
    out, i = [], 0
    start = True
    while i < len(body):
        t = body[i]
        if start and t.k == "id" and t.t in ("use", "type", "struct", "enum", "fn", "impl"):
            while body[i].t not in (";", "{"):
                i = close(body, i) + 1 if body[i].t in ("(", "[") else i + 1
            if body[i].t == "{" and t.t == "use":
                while body[i].t != ";":
                    i = close(body, i) + 1 if body[i].t in OPEN else i + 1
            i = close(body, i) + 1 if body[i].t == "{" else i + 1
            continue
        j = close(body, i) if t.t in OPEN else i
        out += body[i:j + 1]
        start = body[j].t in (";", "}")
        i = j + 1
    return out


def nested(body):
    """The items declared in a function."""
    out, i = [], 0
    start = True
    while i < len(body):
        t = body[i]
        if start and t.k == "id" and t.t in ("use", "type", "struct", "enum", "fn", "impl"):
            s = i
            while body[i].t not in (";", "{"):
                i = close(body, i) + 1 if body[i].t in ("(", "[") else i + 1
            if body[i].t == "{" and t.t == "use":
                while body[i].t != ";":
                    i = close(body, i) + 1 if body[i].t in OPEN else i + 1
            i = close(body, i) + 1 if body[i].t == "{" else i + 1
            if t.t != "use":
                out += body[s:i]
            continue
        j = close(body, i) if t.t in OPEN else i
        start = body[j].t in (";", "}")
        i = j + 1
    return out


class Sources:
    def __init__(self, feats=FEATS):
        self.cache = {}
        self.extra = {}
        self.feats = feats

    def derives(self, f, name):
        """Names in the derive attributes of a type."""
        s = open(os.path.join(REPO, f), encoding="utf-8").read()
        m = re.search(r"((?:#\[[^\n]*\]\s*|///[^\n]*\n\s*)*)(?:pub(?:\([^)]*\))?\s+)?(?:struct|enum)\s+" + re.escape(name) + r"\b", s)
        return {x.strip().split("::")[-1] for d in re.findall(r"#\[derive\(([^)]*)\)\]", m.group(1) if m else "") for x in d.split(",")}

    def items(self, f):
        if f not in self.cache:
            try:
                s = generated() if f == "gen" else open(os.path.join(REPO, f), encoding="utf-8").read()
                self.cache[f] = items(strip_attrs(lex(s), self.feats))
            except (OSError, LexError, IndexError, ValueError) as e:
                raise Lost(f"{f}: {e}")
        return self.cache[f]

    def macro(self, f, name):
        for it in self.items(f):
            if it.key == f"macro_rules {name}":
                return it
        raise Lost(f"{f}: no macro {name}")

    def inline(self, ts, f, name, used):
        """Expands the uses of a macro in expressions."""
        mac = self.macro(f, name).inner
        out, i = [], 0
        while i < len(ts):
            if not (ts[i].t == name and i + 2 < len(ts) and ts[i + 1].t == "!" and ts[i + 2].t in OPEN):
                out.append(ts[i])
                i += 1
                continue
            e = close(ts, i + 2)
            env, j = None, 0
            while j < len(mac) and mac[j].t in OPEN:
                c = close(mac, j)
                b = next(x for x in range(c + 1, len(mac)) if mac[x].t in OPEN)
                try:
                    env = bind(mac[j + 1:c], ts[i + 3:e])
                except IndexError:
                    env = None
                if env is not None:
                    new = [t.copy() for t in subst(mac[b + 1:close(mac, b)], env)]
                    for t in new:
                        t.line = ts[i].line
                    out += new
                    n = f"use of {name}! in an expression to its expansion"
                    used[n] = used.get(n, 0) + 1
                    break
                j = close(mac, b) + 1
                if j < len(mac) and mac[j].t == ";":
                    j += 1
            if env is None:
                raise Lost(f"{f}: a use of {name}! matches no arm")
            i = e + 1
        return out

    def expand(self, f, name, k):
        """Items of the K-th use `name!( .. )` of a macro with one simple arm."""
        mac = self.macro(f, name).inner
        ts = strip_attrs(lex(open(os.path.join(REPO, f), encoding="utf-8").read()), self.feats)
        uses = [i for i in range(len(ts) - 2) if ts[i].t == name and ts[i + 1].t == "!" and ts[i + 2].t in OPEN]
        if k >= len(uses):
            raise Lost(f"{f}: no use {k} of {name}!")
        u = uses[k]
        args = ts[u + 3:close(ts, u + 2)]
        i = 0
        while i < len(mac) and mac[i].t in OPEN:
            c = close(mac, i)
            b = next(x for x in range(c + 1, len(mac)) if mac[x].t in OPEN)
            e = close(mac, b)
            try:
                env = bind(mac[i + 1:c], args)
            except IndexError:
                env = None
            if env is not None:
                return items(strip_attrs(subst(mac[b + 1:e], env), self.feats))
            i = e + 1
            if i < len(mac) and mac[i].t == ";":
                i += 1
        raise Lost(f"{f}: use {k} of {name}! matches no arm")

    def find(self, f, key):
        src = self.extra[f] if f in self.extra else self.items(f)
        while " >> " in key:
            outer, key = key.split(" >> ", 1)
            o = next((it for it in src if it.key == outer), None)
            if o is None:
                raise Lost(f"{f}: no item `{outer}`")
            src = items(nested(o.inner) if o.kind == "fn" else o.inner)
        k, n = (key.rsplit("#", 1) + ["0"])[:2] if "#" in key else (key, "0")
        hits = [it for it in src if it.key == k]
        if len(hits) <= int(n):
            raise Lost(f"{f}: no item `{key}`")
        return hits[int(n)]


def bind(pat, args):
    """Matches macro arguments against an arm: fragments, punctuation and repetitions.

    Gives {name: tokens}; a name inside a repetition gives a list of such."""
    def frag(f, ts, j, stop):
        if j >= len(ts):
            return None
        if f in ("ident", "literal", "lifetime", "vis"):
            return j + 1 if ts[j].k in ("id", "num", "str", "char", "life") or f != "ident" else None
        if f == "tt":
            return close(ts, j) + 1 if ts[j].t in OPEN else j + 1
        e = j
        while e < len(ts) and ts[e].t != stop and not (f == "expr" and ts[e].t == ","):
            e = close(ts, e) + 1 if ts[e].t in OPEN else e + 1
        return e if e > j else None

    def go(pat, ts):
        env, i, j = {}, 0, 0
        while i < len(pat):
            if pat[i].t == "$" and pat[i + 1].k == "id":
                name, f = pat[i + 1].t, pat[i + 3].t
                i += 4
                e = frag(f, ts, j, pat[i].t if i < len(pat) else None)
                if e is None:
                    return None
                env[name] = ts[j:e]
                j = e
            elif pat[i].t == "$" and pat[i + 1].t == "(":
                c = close(pat, i + 1)
                sub = pat[i + 2:c]
                k = c + 1
                sep = None
                if pat[k].t not in ("*", "+", "?"):
                    sep = pat[k].t
                    k += 1
                i = k + 1
                rest = pat[i:]
                reps = []
                while j < len(ts) and (not rest or not (rest[0].t == ts[j].t and go(rest, ts[j:]) is not None)):
                    # the longest stretch this repetition takes
                    hit = None
                    for e in range(j + 1, len(ts) + 1):
                        if e < len(ts) and sep is not None and ts[e].t != sep and not (rest and rest[0].t == ts[e].t):
                            continue
                        try:
                            r = go(sub, ts[j:e])
                        except IndexError:
                            r = None
                        if r is not None:
                            hit = (e, r)
                            break
                    if hit is None:
                        break
                    j = hit[0]
                    reps.append(hit[1])
                    if sep is not None and j < len(ts) and ts[j].t == sep and j + 1 < len(ts):
                        j += 1
                for n in {n for r in reps for n in r} | {sub[x + 1].t for x in range(len(sub) - 1) if sub[x].t == "$" and sub[x + 1].k == "id"}:
                    env[n] = ("rep", [r[n] for r in reps])
            else:
                if j >= len(ts) or ts[j].t != pat[i].t:
                    return None
                i, j = i + 1, j + 1
        return env if j == len(ts) else None
    return go(pat, args)


def subst(body, env):
    out, i = [], 0
    while i < len(body):
        if body[i].t == "$" and i + 1 < len(body) and body[i + 1].k == "id":
            n = body[i + 1].t
            if n == "crate":
                c = body[i + 1].copy()
                c.pre = body[i].pre
                out.append(c)
            elif n in env and not isinstance(env[n], tuple):
                sub = [t.copy() for t in env[n]]
                if sub:
                    sub[0].pre = body[i].pre
                out += sub
            else:
                raise Lost(f"macro fragment ${n}")
            i += 2
        elif body[i].t == "$" and i + 1 < len(body) and body[i + 1].t == "(":
            c = close(body, i + 1)
            sub = body[i + 2:c]
            k = c + 1
            sep = None
            if body[k].t not in ("*", "+", "?"):
                sep = body[k]
                k += 1
            names = [sub[x + 1].t for x in range(len(sub) - 1) if sub[x].t == "$" and sub[x + 1].k == "id" and isinstance(env.get(sub[x + 1].t), tuple)]
            if not names:
                raise Lost("macro repetition without a repeated fragment")
            for x in range(len(env[names[0]][1])):
                e = dict(env)
                for n in names:
                    e[n] = env[n][1][x]
                if x and sep is not None:
                    out.append(sep.copy())
                part = subst(sub, e)
                if part and not part[0].pre:
                    part[0].pre = " "
                out += part
            i = k + 1
        elif body[i].t in OPEN:
            c = close(body, i)
            out.append(body[i].copy())
            out += subst(body[i + 1:c], env)
            out.append(body[c].copy())
            i = c + 1
        else:
            out.append(body[i].copy())
            i += 1
    return out


# ---------------------------------------------------------------- templates

class FnSpec:
    def __init__(self, name, opts):
        self.name, self.opts = name, opts
        self.contract, self.loops, self.bodies, self.ends, self.entry, self.afters = "", {}, {}, {}, "", []


class ItemSpec:
    def __init__(self, file, key, opts):
        self.file, self.key, self.opts = file, key, opts
        self.fns, self.ghost, self.drop, self.header = {}, "", [], None
        self.free = None
        self.proved = None


def parse_unit(name):
    p = os.path.join(CONTRACTS, name + ".rs")
    parts, rules, assumes, expands, feats, modes = [], [], [], [], set(FEATS), set()
    item = fn = None
    sink = ("text", None)
    buf = []
    proved_in = []  # the functions of an included file that another unit proves: only their contracts are taken

    def flush():
        nonlocal buf
        t = "".join(buf)
        buf = []
        if not t:
            return
        kind, arg = sink
        if kind == "text":
            parts.append(t)
        elif kind == "ghost":
            item.ghost += t
        elif kind == "contract":
            fn.contract += t
        elif kind == "loop":
            fn.loops[arg] = fn.loops.get(arg, "") + t
        elif kind == "loopbody":
            fn.bodies[arg] = fn.bodies.get(arg, "") + t
        elif kind == "loopend":
            fn.ends[arg] = fn.ends.get(arg, "") + t
        elif kind == "entry":
            fn.entry += t
        elif kind == "after":
            fn.afters.append((arg, t))

    def read(p, subst={}):
        nonlocal item, fn, sink
        for line in open(p):
            line = re.sub(r"@([A-Z]+)@", lambda m: subst[m.group(1)], line)
            m = re.match(r"\s*//@\s*(\w+)\s*(.*?)\s*$", line)
            if not m:
                if item is not None and sink[0] == "text" and not line.strip():
                    continue
                if proved_in and re.match(r"\s*(pub )?(broadcast )?proof fn ", line):
                    buf.append("#[verifier::external_body] // proved\n")
                buf.append(line)
                continue
            d, rest = m.groups()
            if d == "include":
                flush()
                ws = rest.split()
                kv = dict(w.split("=", 1) for w in ws[1:])
                imp = kv.pop("proved", None)
                if imp:
                    proved_in.append(imp)
                read(os.path.join(CONTRACTS, ws[0]), kv)
                flush()
                if imp:
                    proved_in.pop()
            elif d == "rewrite":
                n, r = rest.split(" :: ", 1)
                a, b = r.split("==>", 1)
                rules.append((n.strip(), parse_pat(a), parse_pat(b)))
            elif d == "features":
                feats.clear()
                feats.update(rest.split())
            elif d == "assume":
                assumes.append(rest)
            elif d == "certificate":
                # text computed from the extracted code (tools/cert.py); nothing in it is trusted, the verifier checks it
                flush()
                parts.append(tuple(rest.split()))
            elif d == "printing":
                modes.add("printing")
            elif d == "inline":
                f, mac = rest.split()
                rules.append((f"use of {mac}! in an expression to its expansion", (f, mac), None))
            elif d == "expand":
                flush()
                f, mac, k = rest.split()
                expands.append((f, mac, int(k)))
            elif d == "item":
                flush()
                opts = dict(re.findall(r"\b(\w+)=(\S+)", rest))
                r2 = re.sub(r"\b\w+=\S+", "", rest).split(None, 1)
                item = ItemSpec(r2[0], r2[1].strip(), opts)
                item.proved = proved_in[-1] if proved_in else None
                parts.append(item)
                fn, sink = None, ("text", None)
            elif d == "fn":
                flush()
                ws = rest.split()
                fn = FnSpec(ws[0], dict(w.split("=", 1) for w in ws[1:]))
                item.fns[ws[0]] = fn
                sink = ("contract", None)
            elif d in ("loop", "loopbody", "loopend"):
                flush()
                sink = (d, int(rest))
            elif d in ("ghost", "entry"):
                flush()
                sink = (d, None)
            elif d == "after":
                flush()
                sink = (d, parse_pat(rest))
            elif d == "header":
                item.header = rest
            elif d == "free":
                # the only function taken, as a free function with this signature, `self` renamed to `self_`
                item.free = rest
            elif d == "drop":
                item.drop += rest.split()
            elif d == "end":
                flush()
                item, fn, sink = None, None, ("text", None)
            else:
                raise SystemExit(f"{p}: unknown directive {d}")

    read(p)
    flush()
    return parts, rules, assumes, expands, feats, modes


# ---------------------------------------------------------------- emission

def fn_parts(ts):
    """Splits the tokens of a function: (signature before return, return type, where, body or None)."""
    i = next(k for k, t in enumerate(ts) if t.t == "fn")
    j = i + 2
    if ts[j].t == "<":
        d = 0
        while True:
            if ts[j].t == "<":
                d += 1
            elif ts[j].t == ">":
                d -= 1
            elif ts[j].t == ">>":
                d -= 2
            j += 1
            if d <= 0:
                break
    pc = close(ts, j)
    k = pc + 1
    ret = []
    if k < len(ts) and ts[k].t == "->":
        k += 1
        s = k
        while k < len(ts) and ts[k].t not in ("where", "{", ";"):
            k = close(ts, k) + 1 if ts[k].t in ("(", "[") else k + 1
        ret = ts[s:k]
    s = k
    while k < len(ts) and ts[k].t not in ("{", ";"):
        k = close(ts, k) + 1 if ts[k].t in ("(", "[") else k + 1
    where = ts[s:k]
    body = ts[k + 1:close(ts, k)] if k < len(ts) and ts[k].t == "{" else None
    return ts[:pc + 1], ret, where, body, ts[j + 1:pc]


def pub_fields(kind, ts):
    """Fields of a structure are made public (specifications mention them)."""
    if kind in ("struct", "enum", "type", "const") and ts[0].t == kind:
        ts = [Tok("id", "pub", ts[0].line, ts[0].pre)] + ts
        ts[1].pre = " "
    if kind != "struct":
        return ts
    b = next((i for i, t in enumerate(ts) if t.t in ("{", "(")), None)
    if b is None:
        return ts
    out, d, start, i = ts[:b + 1], 0, True, b + 1
    e = close(ts, b)
    while i < e:
        t = ts[i]
        if start and t.t != "pub":
            out.append(Tok("id", "pub", t.line, t.pre))
            t.pre = " "
        if start and t.t == "pub" and ts[i + 1].t == "(":
            out.append(t)
            i = close(ts, i + 1) + 1
            start = False
            continue
        start = False
        out.append(t)
        if t.t in OPEN or t.t == "<":
            d += 1
        elif t.t in CLOSE or t.t == ">":
            d -= 1
        elif t.t == "," and d == 0:
            start = True
        i += 1
    return out + ts[e:]


def mut_self(ts, used):
    """`mut self` as parameter becomes `self` and `let mut self_ = self;`."""
    for i in range(len(ts) - 2):
        if ts[i].t == "(" and ts[i + 1].t == "mut" and ts[i + 2].t == "self":
            b = next((k for k in range(i, len(ts)) if ts[k].t == "{"), None)
            if b is None or ts[i + 3].t not in (",", ")"):
                return ts
            used["`mut self` parameter to a local variable"] = used.get("`mut self` parameter to a local variable", 0) + 1
            new = ts[:i + 1] + ts[i + 2:b + 1]
            new += lex(" let mut self_ = self;")
            for t in ts[b + 1:]:
                if t.t == "self":
                    t.t = "self_"
            return new + ts[b + 1:]
        if ts[i].t == "{":
            break
    return ts


def loops_of(body):
    """(index of keyword, index of its opening brace) of each loop, in order."""
    out = []
    for i, t in enumerate(body):
        if t.t in ("loop", "while", "for") and t.k == "id" and not (t.t == "for" and i + 1 < len(body) and body[i + 1].t == "<"):
            j = i + 1
            while j < len(body) and body[j].t != "{":
                j = close(body, j) + 1 if body[j].t in ("(", "[") else j + 1
            if j < len(body):
                out.append((i, j))
    return out


def tail_breaks(body, used):
    """`loop { .. break E; .. }` as the value of the function: `break E` becomes `return E`."""
    ls = loops_of(body)
    for i, j in ls:
        if body[i].t != "loop":
            continue
        e = close(body, j)
        if e != len(body) - 1:
            continue
        inner = [(a, close(body, b)) for a, b in ls if j < a < e]
        for k in range(j + 1, e):
            if body[k].t == "break" and not any(a <= k <= b for a, b in inner) and body[k + 1].t not in (";", "}"):
                body[k] = Tok("id", "return", body[k].line, body[k].pre)
                used["`break` of the value of a tail loop to `return`"] = used.get("`break` of the value of a tail loop to `return`", 0) + 1
    return body


def for_continues(body, used):
    """In a for loop, `if C { continue; } REST` becomes `if C { } else { REST }`."""
    done = False
    while not done:
        done = True
        for i, j in loops_of(body):
            if body[i].t != "for":
                continue
            e = close(body, j)
            k = j + 1
            while k < e:
                if body[k].t == "if" and (k == j + 1 or body[k - 1].t in (";", "}")):
                    b = k
                    while body[b].t != "{":
                        b = close(body, b) + 1 if body[b].t in OPEN else b + 1
                    c = close(body, b)
                    if [t.t for t in body[c - 2:c]] == ["continue", ";"] and (c - 3 == b or body[c - 3].t in (";", "}")) and body[c + 1].t != "else":
                        body = body[:c - 2] + lex(" } else { ") + body[c + 1:e] + lex(" }") + body[e:]
                        n = "`if C { S continue; } REST` in a for loop to `if C { S } else { REST }`"
                        used[n] = used.get(n, 0) + 1
                        done = False
                        break
                k = close(body, k) + 1 if body[k].t in OPEN else k + 1
            if not done:
                break
    return body


def let_breaks(body, used):
    """`let P = loop { .. break E; .. };`: the value of the loop is kept in a variable."""
    i = 0
    while i < len(body):
        if body[i].t == "loop" and i > 1 and body[i - 1].t == "=":
            s = i - 1
            while s >= 0 and body[s].t not in ("let", ";", "{", "}"):
                s -= 1
            e = close(body, i + 1)
            if s >= 0 and body[s].t == "let" and e + 1 < len(body) and body[e + 1].t == ";":
                inner = [(a, close(body, b)) for a, b in loops_of(body) if i + 1 < a < e]
                out, k = [], i
                while k <= e:
                    if body[k].t == "break" and not any(a <= k <= b for a, b in inner) and body[k + 1].t not in (";", "}", ","):
                        x = k + 1
                        while body[x].t not in (";", "}", ","):
                            x = close(body, x) + 1 if body[x].t in OPEN else x + 1
                        out += lex(" { brk_ = Some(") + body[k + 1:x] + lex("); break; }")
                        k = x
                    else:
                        out.append(body[k])
                        k += 1
                body = body[:s] + lex(" let mut brk_ = None; ") + out + lex(" ") + body[s:i] + lex(" brk_.unwrap()") + body[e + 1:]
                n = "value of a loop kept in a variable"
                used[n] = used.get(n, 0) + 1
                i = s
        i += 1
    return body


def arms_of(ts):
    """Arms of a match body: (pattern, guard or None, value)."""
    out, i = [], 0
    while i < len(ts):
        s = i
        while ts[i].t != "=>":
            i = close(ts, i) + 1 if ts[i].t in OPEN else i + 1
        head = ts[s:i]
        g = next((k for k, t in enumerate(head) if t.t == "if"), None)
        i += 1
        s = i
        if ts[i].t == "{":
            i = close(ts, i) + 1
            if i < len(ts) and ts[i].t not in (",",) and ts[i].t in (".", "?"):
                while i < len(ts) and ts[i].t != ",":
                    i = close(ts, i) + 1 if ts[i].t in OPEN else i + 1
        else:
            while i < len(ts) and ts[i].t != ",":
                i = close(ts, i) + 1 if ts[i].t in OPEN else i + 1
        out.append((head[:g] if g is not None else head, head[g + 1:] if g is not None else None, ts[s:i]))
        if i < len(ts) and ts[i].t == ",":
            i += 1
    return out


GUARDS = "guards of match arms tested before the match"


def match_guards(body, used, n=0):
    """Guards of match arms: the value is kept, the guard tested on references to it."""
    i = 0
    while i < len(body):
        if body[i].t == "match":
            j = i + 1
            while body[j].t != "{":
                j = close(body, j) + 1 if body[j].t in OPEN else j + 1
            e = close(body, j)
            arms = arms_of(body[j + 1:e])
            g = next((k for k, a in enumerate(arms) if a[1] is not None), None)
            if g is not None:
                p, cond, val = arms[g]
                byref = body[i + 1].t == "&"  # the names are references already
                bound = {t.t for k, t in enumerate(p) if t.k == "id" and t.t[0].islower() and t.t not in ("ref", "mut", "_") and not (k + 1 < len(p) and p[k + 1].t in ("::", "(", "{"))}
                c2, k = [], 0
                while k < len(cond):
                    t = cond[k]
                    if byref:
                        c2.append(t); k += 1
                        continue
                    if t.t == "&" and k + 1 < len(cond) and cond[k + 1].t in bound and (k == 0 or cond[k - 1].k not in ("id", "num") and cond[k - 1].t not in (")", "]")):
                        c2.append(cond[k + 1].copy()); k += 2
                        continue
                    if t.k == "id" and t.t in bound and not (k and cond[k - 1].t == "."):
                        c2 += lex(f" (*{t.t})") if not (k + 1 < len(cond) and cond[k + 1].t == ".") else [t]
                    else:
                        c2.append(t)
                    k += 1
                used[GUARDS] = used.get(GUARDS, 0) + 1
                first = [t for a in arms[:g] for t in a[0] + lex(" => false, ")]
                rest = [t for k, a in enumerate(arms) if k != g for t in a[0] + (lex(" if ") + a[1] if a[1] is not None else []) + lex(" => ") + a[2] + lex(", ")]
                new = (lex(" { let m_ = ") + body[i + 1:j] + lex("; let g_ = match m_ { " if byref else "; let g_ = match &m_ { ") + [t.copy() for t in first] + [t.copy() for t in p] + lex(" => ") + c2
                       + lex(", _ => false }; if g_ { match m_ { ") + p + lex(" => ") + val + lex(", _ => unreached_() } } else { match m_ { ") + rest + lex(" } } } "))
                body = body[:i] + new + body[e + 1:]
        i += 1
    return body


def local_names(params, body):
    env = {}
    n = 0
    d = 0
    start = True
    for i, t in enumerate(params):
        if t.t in OPEN or t.t == "<":
            d += 1
        elif t.t in CLOSE or t.t == ">":
            d -= 1
        if d == 0 and t.t == ":" and params[i - 1].k == "id":
            env[f"p{n}"] = params[i - 1].t
            n += 1
    n = 0
    for i, t in enumerate(body or []):
        if t.t in ("let", "for") and t.k == "id":
            j = i + 1
            end = ("=", ":", ";") if t.t == "let" else ("in",)
            while j < len(body) and body[j].t not in end:
                b = body[j]
                if b.k == "id" and b.t not in ("mut", "ref", "Some", "Ok", "Err", "None", "po_") and not b.t[0].isupper() and body[j + 1].t not in ("(", "::", "{"):
                    env[f"let{n}"] = b.t
                    n += 1
                j += 1
    return env


def fill(s, env):
    return re.sub(r"\$(let\d+|p\d+)", lambda m: env.get(m.group(1), m.group(0)), s)


def shape(body):
    """Loop kinds and names called: what has to stay for a failed obligation to be definite."""
    ls = [body[i].t for i, _ in loops_of(body)]
    calls = sorted({body[i].t for i in range(len(body) - 1) if body[i].k == "id" and body[i + 1].t in ("(", "!", "::") and body[i].t not in ("if", "while", "match", "for", "in", "return", "loop", "let", "else")})
    return {"loops": ls, "calls": calls}


def templates(ts, used):
    """`write!(f, "a{}b", x)` and `format!(..)` with plain placeholders become a sequence of appends."""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.t in ("write", "format") and t.k == "id" and i + 2 < len(ts) and ts[i + 1].t == "!" and ts[i + 2].t == "(":
            c = close(ts, i + 2)
            args, cur, j = [], [], i + 3
            while j < c:
                e = close(ts, j) + 1 if ts[j].t in OPEN else j + 1
                if ts[j].t == ",":
                    args.append(cur)
                    cur = []
                else:
                    cur += ts[j:e]
                j = e
            if cur:
                args.append(cur)
            to = text(args.pop(0)).strip() if t.t == "write" else "o_"
            if args and len(args[0]) == 1 and args[0][0].k == "str" and args[0][0].t.startswith('"'):
                ps = re.split(r"\{(\w*)\}", args[0][0].t[1:-1].replace("{{", "\0").replace("}}", "\1"))
                rest = args[1:]
                code, ok = [], True
                for k, p in enumerate(ps):
                    if k % 2 == 0:
                        ok = ok and "{" not in p and "}" not in p
                        p = p.replace("\0", "{").replace("\1", "}")
                        if p:
                            code.append(f'lit_({to}, "{p}")')
                    elif p.isdigit() and int(p) < len(args) - 1:
                        code.append(f"show_(&({text(args[1 + int(p)]).strip()}), {to})")
                        rest = []
                    elif p:
                        code.append(f"show_(&({p}), {to})")
                    elif rest:
                        code.append(f"show_(&({text(rest.pop(0)).strip()}), {to})")
                    else:
                        ok = False
                if ok and not rest:
                    used[f"{t.t}! template to a sequence of appends"] = used.get(f"{t.t}! template to a sequence of appends", 0) + 1
                    if t.t == "write":
                        s = "{ " + "".join(x + "?; " for x in code) + "core::result::Result::<(), fmt::Error>::Ok(()) }"
                    else:
                        s = "{ let mut o_ = Formatter::new(); " + "".join("sure_" + x.replace(", o_)", ", &mut o_)").replace("lit_(o_,", "lit_(&mut o_,") + "; " for x in code) + "o_.done() }"
                    new = lex(s)
                    for x in new:
                        x.line = t.line
                    new[0].pre = t.pre
                    out += new
                    i = c + 1
                    continue
        out.append(t)
        i += 1
    return out


def printing(ts, used):
    """`write!`, `writeln!`, `say!`, `say_line!` (printing to stderr) and `format!` become appends to a text."""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if not (t.t in ("write", "writeln", "say", "say_line", "format") and t.k == "id" and i + 2 < len(ts) and ts[i + 1].t == "!" and ts[i + 2].t == "("):
            out.append(t)
            i += 1
            continue
        c = close(ts, i + 2)
        args, cur, j = [], [], i + 3
        while j < c:
            e = close(ts, j) + 1 if ts[j].t in OPEN else j + 1
            if ts[j].t == ",":
                args.append(cur)
                cur = []
            else:
                cur += ts[j:e]
            j = e
        if cur:
            args.append(cur)
        to = text(args.pop(0)).strip() if t.t.startswith("write") else "po_" if t.t == "format" else "out_"
        code = []
        # a literal is appended character by character, so that its division into pieces does not matter
        put = lambda p: [f"{to}.put_('{c if c != chr(39) else chr(92) + c}');" for c in re.findall(r"\\.|[^\\]", p)]
        if args:
            f = args.pop(0)
            if len(f) != 1 or f[0].k != "str" or not f[0].t.startswith('"'):
                raise Lost(f"line {t.line}: a format that is not a literal")
            pos, named = [], {}
            for a in args:
                if len(a) > 2 and a[0].k == "id" and a[1].t == "=" and a[2].t != "=":
                    named[a[0].t] = text(printing(a[2:], used)).strip()
                else:
                    pos.append(text(printing(a, used)).strip())
            val = lambda n: pos[int(n)] if n.isdigit() else named.get(n, n)
            n = 0
            for k, p in enumerate(re.split(r"(\{[^{}]*\})", f[0].t[1:-1].replace("{{", "\0").replace("}}", "\1"))):
                if k % 2 == 0:
                    if "{" in p or "}" in p:
                        raise Lost(f"line {t.line}: format {f[0].t}")
                    p = p.replace("\0", "{").replace("\1", "}")
                    code += put(p)
                    continue
                m = re.fullmatch(r"\{(\w*)(?::(?:([^{}])?([<>^]))?(?:(\d+)|(\w+)\$)?)?\}", p)
                if not m:
                    raise Lost(f"line {t.line}: format {f[0].t}")
                name, fill_, align, wn, wv = m.groups()
                if not name:
                    name, n = str(n), n + 1
                if name.isdigit() and int(name) >= len(pos):
                    raise Lost(f"line {t.line}: format {f[0].t}")
                x = f"&({val(name)})"
                if wn is None and wv is None:
                    code += put(val(name)[1:-1]) if re.fullmatch(r'"[^"\\\\]*"', val(name)) else [f"{to}.show_({x});"]
                elif val(name) == '""':
                    code.append(f"{to}.fill_({wn or val(wv)}, '{fill_ or ' '}');")
                else:
                    code.append(f"{to}.pad_({x}, {wn or val(wv)}, '{fill_ or ' '}', {dict([('<', 0), ('>', 1), ('^', 2), (None, 3)])[align]});")
        if t.t in ("writeln", "say_line"):
            code += put("\\n")
        used[f"{t.t}! template to a sequence of appends"] = used.get(f"{t.t}! template to a sequence of appends", 0) + 1
        tail = {"write": "core::result::Result::<(), fmt::Error>::Ok(())", "writeln": "core::result::Result::<(), fmt::Error>::Ok(())", "format": "po_"}.get(t.t, "")
        new = lex(("({ " if t.t.startswith("write") else "{ ") + ("let mut po_ = Paper::new_(); " if t.t == "format" else "") + " ".join(code) + " " + tail + (" })" if t.t.startswith("write") else " }"))
        for x in new:
            x.line = t.line
        new[0].pre = t.pre
        out += new
        i = c + 1
    return out


class Unit:
    def __init__(self, name):
        self.name = name
        self.parts, self.rules, self.assumes, self.expands, feats, self.modes = parse_unit(name)
        self.inlines = [r[1] for r in self.rules if r[2] is None]
        self.rules = [r for r in self.rules if r[2] is not None]
        self.src = Sources(feats)
        self.used = {}
        self.fns = []          # dicts: id, file, name, props, l0, l1, assert_line
        self.shapes = {}
        self.new_helpers = []
        self.lost = None

    def emit(self, vacuity=False):
        for f, m, k in self.expands:
            self.src.extra[f"{f}!{m}{k}"] = self.src.expand(f, m, k)
        out = []
        self.fns, self.used, self.shapes, self.new_helpers = [], {}, {}, []
        self.asserts = {}
        self.imported = []

        def put(s):
            out.append(s)

        def line():
            return sum(s.count("\n") for s in out) + 1

        def emit_fn(item, it, f, spec):
            toks = [t.copy() for t in f.toks]
            for f_, m_ in self.inlines:
                toks = self.src.inline(toks, f_, m_, self.used)
            toks = rewrite(mut_self(toks, self.used), self.rules, self.used)
            toks = printing(toks, self.used) if "printing" in self.modes else templates(toks, self.used)
            sig, ret, where, body, params = fn_parts(toks)
            env = local_names(params, body)
            ident = f"{item.file}: {it.key}::{f.key.split()[-1]}" if it is not f else f"{item.file}: {f.key}"
            if item.proved:
                # the contract only; the body is checked against it in the other unit
                put(f"\n// from {item.file}:{f.toks[0].line}, proved in unit {item.proved}\n")
                if body is not None:
                    put("#[verifier::external_body] // proved\n")
                put(text(sig).lstrip())
                if ret:
                    put(f" -> ({spec.opts.get('ret', 'r') if spec else 'r'}: {text(ret).strip()})")
                if where:
                    w = text(where).rstrip()
                    put(w + ("" if w.endswith(",") else ","))
                put("\n")
                if spec:
                    put(fill(spec.contract, env))
                put(";\n" if body is None else "{ unimplemented!() }\n")
                self.imported.append(f"{ident} (proved in unit {item.proved})")
                return
            put(f"\n// from {item.file}:{f.toks[0].line}\n")
            l0 = line()
            if spec and "attr" in spec.opts:
                put("".join(f"#[verifier::{a}]\n" for a in spec.opts["attr"].split("+")))
            put(text(sig).lstrip())
            if ret:
                r = spec.opts.get("ret", "r") if spec else "r"
                put(f" -> ({r}: {text(ret).strip()})")
            if where:
                w = text(where).rstrip()
                put(w + ("" if w.endswith(",") else ","))
            put("\n")
            if spec:
                put(fill(spec.contract, env))
            if body is None:
                put(";\n")
                return
            if item.file == "gen":
                body = no_items(body)
            self.shapes[ident] = shape(body)
            body = match_guards(body, self.used)
            body = for_continues(let_breaks(tail_breaks(body, self.used), self.used), self.used)
            put("{\n")
            entry = fill(spec.entry, env) if spec and spec.entry else ""
            hides = re.match(r"\s*(hide\([^)]*\);\s*)*", entry).group(0)
            put(hides)
            if vacuity:
                self.asserts[line()] = ident
                put("proof { assert(false); }\n")
            put(entry[len(hides):] + "\n" if entry else "")
            ls = loops_of(body)
            if spec:
                if any(k >= len(ls) for k in list(spec.loops) + list(spec.bodies) + list(spec.ends)):
                    raise Lost(f"{ident}: a loop is missing")
                ins = {}
                for n, (i, j) in enumerate(ls):
                    b = "\n" + fill(spec.loops.get(n, ""), env)
                    if body[i].t == "for" and f"it{n}" in b:
                        k = next(k for k in range(i, j) if body[k].t == "in")
                        ins.setdefault(k, []).append(("post", f" it{n}:"))
                    # ghost iterator name of a for loop
                    ins.setdefault(j, []).append(("pre", b))
                    if n in spec.bodies:
                        ins.setdefault(j, []).append(("post", "\n" + fill(spec.bodies[n], env)))
                    if n in spec.ends:
                        ins.setdefault(close(body, j), []).append(("pre", "\n" + fill(spec.ends[n], env)))
                for pat, t in spec.afters:
                    for i in range(len(body)):
                        r = match(pat, body, i)
                        if r:
                            ins.setdefault(r[0] - 1, []).append(("post", "\n" + fill(t, env)))
                            break
            else:
                ins = {}
            buf = []
            for i, t in enumerate(body):
                for w, s in ins.get(i, []):
                    if w == "pre":
                        buf.append(s)
                buf.append(t.pre + t.t)
                for w, s in ins.get(i, []):
                    if w == "post":
                        buf.append(s)
            put("".join(buf))
            put("\n}\n")
            props = spec.opts.get("props") if spec else None
            props = (props or item.opts.get("props") or "").split(",")
            self.fns.append({"id": ident, "props": [p for p in props if p], "l0": l0, "l1": line(), "line": f.toks[0].line})

        for part in self.parts:
            if isinstance(part, str):
                put(part)
                continue
            if isinstance(part, tuple):
                try:
                    put(getattr(cert, part[0])(self.src, *part[1:]))
                except (KeyError, IndexError, ValueError, AttributeError, TypeError, StopIteration) as e:
                    raise Lost(f"no certificate {' '.join(part)}: {type(e).__name__} {e}")
                continue
            it = self.src.find(part.file, part.key)
            if it.kind in ("struct", "enum", "type", "const"):
                if "derive" in part.opts:
                    want = set(part.opts["derive"].split("+"))
                    if not want <= self.src.derives(part.file.split("!")[0], it.key.split()[-1]) | {"Structural"}:
                        raise Lost(f"{part.file}: {it.key} does not derive {want}")
                    put("#[derive(" + ", ".join(sorted(want)) + ")]")
                put(f"\n// from {part.file}:{it.toks[0].line}\n" + "".join(f"#[verifier::{a}]\n" for a in part.opts.get("attr", "").split("+") if a) + text(pub_fields(it.kind, rewrite([t.copy() for t in it.toks], self.rules, self.used))).lstrip() + "\n")
                continue
            if it.kind == "fn":
                emit_fn(part, it, it, part.fns.get(it.key.split()[-1]))
                continue
            if part.free:
                n = next(iter(part.fns))
                m = next((m for m in items(it.inner) if m.kind == "fn" and m.key.split()[-1] == n), None)
                if m is None:
                    raise Lost(f"{part.file}: {it.key} has no {n}")
                b = next(i for i, t in enumerate(m.toks) if t.t == "{")
                for t in m.toks[b:]:
                    if t.t == "self":
                        t.t = "self_"
                m = Item("fn", m.key, lex(part.free + " ") + m.toks[b:], (len(lex(part.free + " ")), len(lex(part.free + " ")) + len(m.toks) - b - 1))
                for t in m.toks:
                    t.line = it.toks[0].line
                emit_fn(part, it, m, part.fns[n])
                continue
            put(f"\n// from {part.file}:{it.toks[0].line}\n")
            h = part.header or text(rewrite([t.copy() for t in it.header], self.rules, self.used)).strip()
            put(h + " {\n" + part.ghost)
            seen = set()
            ms = items(it.inner)
            if "only" in part.opts:
                # the functions listed and the ones of this item they name
                bodies = {m.key.split()[-1]: {t.t for t, u in zip(m.toks, m.toks[1:]) if u.t in ("(", "::")} for m in ms if m.kind == "fn"}
                want, todo = set(), list(part.fns)
                while todo:
                    n = todo.pop()
                    if n not in want and n in bodies:
                        want.add(n)
                        todo += [x for x in bodies if x in bodies[n]]
                ms = [m for m in ms if m.kind != "fn" or m.key.split()[-1] in want]
            for m in ms:
                n = m.key.split()[-1] if m.kind == "fn" else m.key
                if m.kind != "fn":
                    if n not in part.drop:
                        put("  " + text(rewrite([t.copy() for t in m.toks], self.rules, self.used)).strip() + "\n")
                    continue
                if n in part.fns:
                    seen.add(n)
                    emit_fn(part, it, m, part.fns[n])
                elif n in part.drop:
                    continue
                else:
                    self.new_helpers.append(f"{part.file}: {it.key}::{n}")
                    emit_fn(part, it, m, None)
            put("}\n")
            missing = set(part.fns) - seen
            if missing:
                raise Lost(f"{part.file}: {it.key} has no {', '.join(sorted(missing))}")
        s = "".join(out)
        return s


VENV = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS")}
VENV.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup")


def run_verus(path, rlimit, seed, reach=False):
    """All functions in one solver process; when that does not go through, every function in one of its own."""
    if reach:
        r = run_verus1(path, rlimit, 0, 60, 0, [])
        return r if not r["lost"] else run_verus1(path, rlimit, 0, 200, 0, ["-V", "spinoff-all"])
    r = run_verus1(path, rlimit, seed, 60, 4, [])
    if r["ok"] or (r["lost"] and "out of time" not in r["lost"]):
        return r
    r2 = run_verus1(path, rlimit, seed, 240, 4, ["-V", "spinoff-all"])
    r2["wall"] += r["wall"]
    return r2


def run_verus1(path, rlimit, seed, timeout, multiple, opts):
    cmd = ["verus", path] + opts + ["--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", str(multiple), "--rlimit", str(rlimit)]
    if seed:
        cmd += ["--smt-option", f"smt.random_seed={seed}"]
    t = time.time()
    pr = subprocess.Popen(cmd, env=VENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = pr.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)
        pr.communicate()
        return {"ok": False, "lost": "the verifier ran out of time", "diags": [], "json": None, "wall": time.time() - t, "cmd": " ".join(cmd)}
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        j = json.loads(out)
    except ValueError:
        j = None
    res = {"diags": diags, "json": j, "wall": time.time() - t, "cmd": " ".join(cmd), "lost": None, "ok": False}
    vr = (j or {}).get("verification-results")
    if not vr or vr.get("encountered-vir-error") or (not vr.get("success") and vr.get("errors", 0) == 0):
        errs = [d["rendered"] for d in diags if d.get("level") == "error"] or [err[-2000:]]
        res["lost"] = "the verifier does not take the extracted text:\n" + "".join(errs)[:6000]
    else:
        res["ok"] = bool(vr.get("success"))
    return res


def breakdown(j):
    out = []
    for m in ((j or {}).get("times-ms") or {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out.append({"function": f["function"], "mode": f.get("mode:", f.get("mode")), "ms": round(f["time-micros"] / 1000, 2), "ok": f["success"]})
    return out


def owners(unit, d):
    ls = []
    for s in d.get("spans", []):
        ls += [s["line_start"]]
    hit = [f for f in unit.fns if any(f["l0"] <= l <= f["l1"] for l in ls)]
    return hit


def check_unit(name, tier, seed):
    """Runs one unit: dict with obligations, failures, undecided, ..."""
    work = os.path.join(HERE, "work")
    os.makedirs(work, exist_ok=True)
    res = {"unit": name, "lost": None, "failed": [], "undecided": [], "obligations": [], "fns": [], "assumptions": [], "output": "", "wall": 0.0, "solver_ms": 0.0, "vacuous": [], "definite": True, "cmd": "", "desugared": {}}
    u = Unit(name)
    try:
        src = u.emit()
        fns, used, shapes, helpers = u.fns, u.used, u.shapes, u.new_helpers
        v = Unit(name)
        vsrc = v.emit(vacuity=True)
    except (Lost, LexError, IndexError, StopIteration) as e:
        res["lost"] = f"{type(e).__name__}: {e}"
        return res
    # the name of the file is the name of the crate, which solver queries mention: the same on every run
    wd = os.path.join(work, f"{name}.{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    p, pv = os.path.join(wd, f"{name}.rs"), os.path.join(wd, f"{name}_reach.rs")
    open(p, "w").write(src)
    open(pv, "w").write(vsrc)
    rl = 10 if tier == "quick" else 120
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_verus, p, rl, 0 if tier == "quick" else seed)
        b = ex.submit(run_verus, pv, 5, 0, True)
        r, rv = a.result(), b.result()
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(wd)
    res.update(wall=r["wall"], cmd=r["cmd"], fns=fns, desugared=used, imported=u.imported)
    bd = breakdown(r["json"])
    res["obligations"] = bd
    res["solver_ms"] = sum(x["ms"] for x in bd)
    for i, l in enumerate(src.splitlines(), 1):
        if l.endswith("// proved"):
            continue
        l = l.split("//")[0]
        if CHEATS.search(l):
            res["assumptions"].append(f"{name}: {l.strip()}")
    res["assumptions"] += u.assumes
    if r["lost"]:
        res["lost"] = r["lost"]
        return res
    want = set(v.asserts)
    got = set()
    for d in rv["diags"]:
        if d.get("level") == "error":
            for s in d.get("spans", []):
                got.add(s["line_start"])
    res["vacuous"] = [v.asserts[l] for l in want - got] if not rv["lost"] else ["(the reachability run failed: " + rv["lost"][:300] + ")"]
    rec = {}
    sp = os.path.join(CONTRACTS, name + ".shape.json")
    if os.path.exists(sp):
        rec = json.load(open(sp))
    res["shapes"] = shapes
    for d in r["diags"]:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        own = owners(u, d)
        msg = d["message"]
        rlim = "rlimit" in msg.lower() or "resource limit" in msg.lower()
        place = ", ".join(f"{f['id']}" for f in own) or "lemma of the unit"
        clause = ""
        for s in d.get("spans", []):
            if s.get("text"):
                clause += " | " + s["text"][0]["text"].strip()[:160]
        entry = {"msg": f"{name}: {place}: {msg}{clause}", "fns": [f["id"] for f in own], "props": sorted({p for f in own for p in f["props"]}), "rendered": d.get("rendered", "")}
        if rlim:
            res["undecided"].append(entry)
        else:
            # an obligation is definite when the functions around it have kept their structure
            entry["definite"] = bool(own) and not helpers and all(rec.get(f["id"]) == shapes.get(f["id"]) for f in own)
            res["failed"].append(entry)
    return res


def prove(prop, tier, seed):
    from registry import PROPS
    units = PROPS[prop]["units"]
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(lambda n: check_unit(n, tier, seed), units))
    failed, undecided, assumptions, out = [], [], [], ""
    definite = False
    cov = {"obligations": 0, "discharged": 0, "units": []}
    for r in rs:
        mine = lambda e: not e["props"] or prop in e["props"]
        if r["lost"]:
            undecided.append(f"{r['unit']}: {r['lost'][:1500]}")
        if r["vacuous"]:
            undecided.append(f"{r['unit']}: unreachable under the contract: {', '.join(r['vacuous'])}")
        fs = [e for e in r["failed"] if mine(e)]
        failed += [e["msg"] for e in fs]
        out += "".join(e["rendered"] for e in fs)
        definite = definite or any(e["definite"] for e in fs)
        us = [e for e in r["undecided"] if mine(e)]
        undecided += [e["msg"] for e in us]
        n = len(r["obligations"])
        ok = sum(1 for o in r["obligations"] if o["ok"])
        cov["obligations"] += n
        cov["discharged"] += 0 if r["lost"] else ok
        assumptions += r["assumptions"]
        cov["units"].append({"unit": r["unit"], "functions_under_contract": [f"{f['id']} (line {f['line']})" for f in r["fns"] if not f["props"] or prop in f["props"]],
                             "function_queries": [f"{o['function']} [{o['mode']}] {o['ms']} ms{'' if o['ok'] else ' FAILED'}" for o in r["obligations"]],
                             "solver_ms": round(r["solver_ms"], 1), "wall_s": round(r["wall"], 2), "back_end": "Verus / Z3", "desugarings_applied": r["desugared"], "contracts_proved_in_another_unit": r.get("imported", []),
                             "reachability": "every precondition is satisfiable at function entry" if not r["vacuous"] and not r["lost"] else r["vacuous"], "lost": r["lost"]})
    if cov["obligations"] == 0 and not undecided:
        undecided.append("no obligation was generated")
    cov["checker_cmd"] = "; ".join(r["cmd"] for r in rs if r["cmd"]) or "verus"
    cov["trusted_base"] = ["Verus 0.2026.09.13 and its vstd specifications", "Z3 as shipped with Verus", "tools/vx.py and tools/rustlex.py (extraction)"]
    cov["undecided"] = undecided
    cov["not_discharged"] = failed
    return {"failed": failed, "undecided": undecided, "definite": definite, "coverage": cov, "assumptions": assumptions, "output": out[:20000]}


def main():
    """vx.py UNIT.. [--record]: runs units, prints what is not discharged."""
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    for d in os.listdir(os.path.join(HERE, "work")) if os.path.isdir(os.path.join(HERE, "work")) else []:
        if re.search(r"\.\d+$", d):
            shutil.rmtree(os.path.join(HERE, "work", d))
    os.environ["VERIF_KEEP"] = "1"
    bad = 0
    for n in names:
        r = check_unit(n, "quick", 1)
        ok = sum(1 for o in r["obligations"] if o["ok"])
        print(f"{n}: {ok}/{len(r['obligations'])} functions, {r['wall']:.1f} s, lost={bool(r['lost'])}")
        if r["lost"]:
            print(r["lost"])
        for e in r["failed"] + r["undecided"]:
            print(e["rendered"] or e["msg"])
        if r["vacuous"]:
            print("vacuous:", r["vacuous"])
        slow = sorted(r["obligations"], key=lambda o: -o["ms"])[:3]
        print("   slowest:", ", ".join(f"{o['function']} {o['ms']} ms" for o in slow))
        bad |= bool(r["lost"] or r["failed"] or r["undecided"] or r["vacuous"])
        if "--record" in sys.argv and not bad:
            json.dump(r["shapes"], open(os.path.join(CONTRACTS, n + ".shape.json"), "w"), indent=1, sort_keys=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
