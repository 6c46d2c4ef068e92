"""A small Rust lexer: enough to cut items and functions out of a source file."""
import re

_TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<raw>b?c?r(?P<h>\#*)")
|(?P<str>b?c?"(?:[^"\\]|\\.)*")
|(?P<char>b?'(?:[^'\\\n]|\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.))')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<op><<=|>>=|\.\.\.|\.\.=|->|=>|::|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)


class Tok:
    __slots__ = ("k", "t", "line", "pre")

    def __init__(self, k, t, line, pre=" "):
        self.k, self.t, self.line, self.pre = k, t, line, pre

    def __repr__(self):
        return self.t

    def copy(self):
        return Tok(self.k, self.t, self.line, self.pre)


class LexError(Exception):
    pass


def lex(s):
    out, i, line, pre = [], 0, 1, ""
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            raise LexError(f"line {line}: {s[i:i+20]!r}")
        k, t = m.lastgroup, m.group(0)
        if m.group("raw"):
            k = "str"
            e = s.index('"' + m.group("h"), m.end())
            t = s[i:e + 1 + len(m.group("h"))]
        elif k == "bc":
            d, j = 1, i + 2
            while d:
                a, b = s.find("/*", j), s.find("*/", j)
                if b < 0:
                    raise LexError("unclosed comment")
                if 0 <= a < b:
                    d, j = d + 1, a + 2
                else:
                    d, j = d - 1, b + 2
            t = s[i:j]
        if k in ("ws", "lc", "bc"):
            pre += t if k == "ws" else (" " if k == "bc" else "")
        else:
            out.append(Tok(k, t, line, pre))
            pre = ""
        line += t.count("\n")
        i += len(t)
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def close(ts, i):
    """Index of the token closing the bracket at i."""
    d = 0
    for j in range(i, len(ts)):
        if ts[j].t in OPEN:
            d += 1
        elif ts[j].t in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise LexError(f"unclosed bracket at line {ts[i].line}")


def text(ts):
    return "".join(t.pre + t.t for t in ts)


def flat(ts):
    return " ".join(t.t for t in ts)


def cfg_true(ts, feats):
    """Evaluates the tokens inside #[cfg( .. )]."""
    h = ts[0].t
    if h == "feature":
        return ts[2].t.strip('"') in feats
    if h == "not":
        return not cfg_true(ts[2:-1], feats)
    if h in ("all", "any"):
        parts, cur, d = [], [], 0
        for t in ts[2:-1]:
            if t.t in OPEN:
                d += 1
            elif t.t in CLOSE:
                d -= 1
            if t.t == "," and d == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            parts.append(cur)
        r = [cfg_true(p, feats) for p in parts]
        return all(r) if h == "all" else any(r)
    return h not in ("test", "doctest", "doc", "kani")


def skip_elem(ts, i):
    """Index after the item, statement, field or expression that starts at i."""
    d = 0
    j = i
    while j < len(ts):
        t = ts[j].t
        if t in OPEN:
            c = close(ts, j)
            if t == "{":
                nxt = ts[c + 1].t if c + 1 < len(ts) else ""
                if nxt not in (".", "?", ",", ";", "else"):
                    return c + 1
            j = c + 1
            continue
        if t in CLOSE:
            return j
        if t in (";", ","):
            return j + 1
        j += 1
    return j


def strip_attrs(ts, feats):
    """Drops attributes and doc comments, and what a cfg switches off."""
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.t == "#" and i + 1 < len(ts) and (ts[i + 1].t == "[" or (ts[i + 1].t == "!" and ts[i + 2].t == "[")):
            b = i + 1 if ts[i + 1].t == "[" else i + 2
            c = close(ts, b)
            if ts[b + 1].t == "cfg" and not cfg_true(ts[b + 3:c - 1], feats):
                # skip following attributes as well
                j = c + 1
                while ts[j].t == "#" and ts[j + 1].t == "[":
                    j = close(ts, j + 1) + 1
                i = skip_elem(ts, j)
                continue
            i = c + 1
            if i < len(ts) and "\n" in t.pre:
                ts[i].pre = t.pre
            continue
        out.append(t)
        i += 1
    return out


def no_generics(ts):
    """Tokens with <..> groups dropped (for header comparison)."""
    out, d, i = [], 0, 0
    for t in ts:
        if t.t == "<":
            d += 1
        elif t.t == ">" and d:
            d -= 1
        elif t.t == ">>" and d:
            d = max(0, d - 2)
        elif d == 0:
            out.append(t)
    return out


KINDS = ("struct", "enum", "trait", "impl", "fn", "mod", "macro_rules", "use", "type", "const", "static", "union", "extern")


class Item:
    """An item: kind, key (header without generics), tokens, body span."""
    def __init__(self, kind, key, toks, body):
        self.kind, self.key, self.toks, self.body = kind, key, toks, body

    @property
    def header(self):
        return self.toks[:self.body[0]] if self.body else self.toks

    @property
    def inner(self):
        return self.toks[self.body[0] + 1:self.body[1]]


def items(ts):
    """Splits a token list into items (attributes already stripped)."""
    out, i = [], 0
    while i < len(ts):
        s = i
        j = i
        while j < len(ts) and not (ts[j].k == "id" and ts[j].t in KINDS):
            if ts[j].t == "(":
                j = close(ts, j)
            elif ts[j].t in (";",):
                break
            j += 1
        if j >= len(ts):
            break
        kind = ts[j].t
        if kind == "const" and j + 1 < len(ts) and ts[j + 1].t == "fn":
            kind, j = "fn", j + 1
        if kind == "extern" and ts[j + 1].k == "str" and ts[j + 2].t == "fn":
            kind, j = "fn", j + 2
        if ts[j].t == ";":
            i = j + 1
            continue
        # find the end
        e, body = j, None
        while e < len(ts):
            t = ts[e].t
            if t == "{":
                if kind in ("use", "const", "static", "type"):
                    e = close(ts, e) + 1
                    continue
                body = (e - s, close(ts, e) - s)
                e = body[1] + s
                if kind == "macro_rules":
                    pass
                break
            if t in ("(", "["):
                e = close(ts, e) + 1
                continue
            if t == ";":
                break
            e += 1
        toks = ts[s:e + 1]
        hdr = ts[j:(s + body[0]) if body else e]
        # key: without where clause, generics
        h = no_generics(hdr)
        names = []
        for t in h:
            if t.t == "where" or t.t in (":", "(", "=", "{", "->"):
                break
            if t.t == "!" and kind != "macro_rules":
                break
            names.append(t.t)
        key = " ".join(names).replace(" ::", "::").replace(":: ", "::").replace("macro_rules !", "macro_rules")
        out.append(Item(kind, key, toks, body))
        i = e + 1
    return out


# ---------------------------------------------------------------- rewriting

def parse_pat(s):
    return [t for t in _merge_meta(lex(s))]


def _merge_meta(ts):
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == "$" and i + 1 < len(ts) and ts[i + 1].k == "id":
            k = "meta"
            n = ts[i + 1].t
            out.append(Tok(k, n, ts[i].line, ts[i].pre))
            i += 2
        else:
            out.append(ts[i])
            i += 1
    return out


def match(pat, ts, i):
    """Matches pat at ts[i]; metas take balanced, shortest sequences (names starting with i_ take one identifier, with l_ one literal)."""
    def go(p, j, env):
        if p == len(pat):
            return j, env
        q = pat[p]
        if q.k == "meta":
            if q.t.startswith("i_"):
                if j < len(ts) and ts[j].k == "id" and (q.t not in env or flat(env[q.t]) == ts[j].t):
                    e = dict(env)
                    e[q.t] = [ts[j]]
                    return go(p + 1, j + 1, e)
                return None
            if q.t.startswith("l_"):
                if j < len(ts) and ts[j].k in ("str", "num", "char"):
                    return go(p + 1, j + 1, {**env, q.t: [ts[j]]})
                return None
            e = j
            while True:
                sub = ts[j:e]
                if q.t in env:
                    if flat(env[q.t]) == flat(sub):
                        r = go(p + 1, e, env)
                        if r:
                            return r
                elif e > j or q.t.startswith("o_"):
                    r = go(p + 1, e, {**env, q.t: sub})
                    if r:
                        return r
                if e >= len(ts) or ts[e].t in CLOSE or (ts[e].t == ";" and not q.t.startswith("s_")):
                    return None
                e = close(ts, e) + 1 if ts[e].t in OPEN else e + 1
        if j < len(ts) and ts[j].t == q.t:
            return go(p + 1, j + 1, env)
        return None
    return go(0, i, {})


def rewrite(ts, rules, used):
    """Applies (name, pattern, replacement) rules left to right, innermost last."""
    for name, pat, rep in rules:
        i = 0
        n = 0
        while i < len(ts):
            r = match(pat, ts, i)
            if r:
                j, env = r
                new = []
                for q in rep:
                    if q.k == "meta" and q.t in env:
                        sub = [t.copy() for t in env[q.t]]
                        if sub:
                            sub[0].pre = q.pre
                        new += sub
                    else:
                        c = q.copy()
                        c.line = ts[i].line
                        new.append(c)
                if new:
                    new[0].pre = ts[i].pre
                ts = ts[:i] + new + ts[j:]
                used[name] = used.get(name, 0) + 1
                n += 1
                if n > 200:
                    break
                i += 1
            else:
                i += 1
    return ts
