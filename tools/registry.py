"""What each property is decided with."""
import json, os
_P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
TITLES = {d["id"]: d["title"] for d in (json.loads(l) for l in open(_P) if l.strip())}
_D = {}
for ps, d in [
    ("C01 C02 C03 C04 C05 C06", ("drv-regex", "drv-regex")),
    ("C07 C08", ("drv-lexers", "drv-lexers")),
    ("C09 C10 C11 C12 C13", ("drv-core", "drv-inputs")),
    ("C14 C15", ("drv-core", "drv-lits")),
    ("C16 C17 C18", ("drv-core", "drv-tokens")),
    ("C19 C20", ("drv-core", "drv-seqs")),
    ("C21 C22", ("drv-core", "drv-parse")),
    ("C23", ("drv-core", "drv-tast")),
    ("C24", ("drv-core", "drv-kind")),
    ("C26", ("drv-core", "drv-spanned")),
    ("C25 C27 C28 C29", ("drv-core", "drv-spans")),
]:
    for p in ps.split():
        _D[p] = d
PROPS = {p: {"title": t, "drivers": [_D[p]] + ([("drv-nologger", "drv-nologger")] if p == "C28" else []), "level": "exploration"} for p, t in TITLES.items()}

def units(props, us):
    for p in props.split():
        PROPS[p]["units"] = us.split()
        PROPS[p]["level"] = "proof"
        PROPS[p]["technique"] = "deductive verification (Verus) of extracted functions against contracts; bounded executable contracts beside it"


units("C16 C17 C18", "token")
units("C19 C20", "ast")
units("C21", "ast gparse")
units("C22", "gparse")
units("C23", "gtoken")
units("C24", "gkind")
units("C26", "gspan")
units("C27", "spans")
units("C28", "spans spans_nolog excerpt")
units("C29", "excerpt")
units("C25", "composite")
units("C09 C10", "reader")
units("C11", "reader spans")
units("C12", "input reader")
units("C13", "input")
units("C14 C15", "lits")
units("C03", "matcher dfatable build")
units("C06", "matcher dfatable build")
units("C05", "symbols")
units("C07", "glexer")
units("C08", "glexer width")
units("C01 C02", "mirhir mirsym mirset mirrebuild miropt nfa fa closure powerset minimize rebuild dfanew dfatable symbols matcher build")
units("C04", "mirhir mirsym mirset mirrebuild miropt nfa fa closure powerset minimize rebuild dfanew dfatable symbols matcher build")
