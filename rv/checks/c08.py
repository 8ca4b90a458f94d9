"""C08: transforming and splitting preserve all text that was not matched"""
from rv import env as m
from rv.checks.c07 import NAMES, _top, compare, texts
from rv.gen import G
from rv.model import Builder, Fail, N, OutOfModel, Ref, view
from rv.real import at, attempt, draw_style, plain_top

ID = "C08"
RULE = (
    "a random expression with actions that rewrite, drop, multiply, or turn tokens into other types is used to transform and to split texts made of "
    "its matches, near matches, whitespace and noise (with and without separators, with limits); the output is compared with one rebuilt from the "
    "reference scan: every unmatched character kept in order, every match replaced by its tokens. Non-trivial: a match with unmatched text on both sides."
)
ASSUME = ["whitespace at the very end of a match is taken from the real scan (C07 compares the rest of the span)"]
NEED = {"matches replaced": 8000, "pieces": 20000, "splits cut by a limit": 600, "characters conserved": 60000}



def flat(t):
    out = []
    for x in t:
        out.extend(flat(x) if isinstance(x, list) else [x])
    return out


ACTS = {
    "keep": lambda t: None,
    "up": lambda t: [x.upper() if isinstance(x, str) else x for x in flat(t)],
    "drop": lambda t: [],
    "empty": lambda t: [""],
    "twice": lambda t: flat(t) + flat(t),
    "num": lambda t: [len(t)],
    "zero": lambda t: [0],
    "angle": lambda t: ["<"] + flat(t) + [">"],
    "space": lambda t: [" "],
}
OPTS = {
    "acts": dict(acts=sorted(ACTS), terms=["lit", "lit", "lit2", "word", "char", "kw", "re", "clit", "notin"], combs=["and", "first", "act", "act", "oom", "group", "name", "opt", "suppress", "combine", "many", "or"]),
    "null": dict(acts=sorted(ACTS), stop=True, terms=["lit", "lit2", "word", "char", "strend", "linestart", "lineend", "wstart", "wend", "kw"], combs=["opt", "zom", "not", "ahead", "first", "and", "act", "act", "group", "skipto"]),
    "seps": dict(terms=["lit", "lit", "lit2", "char", "kw", "clit"], combs=["first", "firstlit", "and", "group", "oom", "name"], alpha="ab"),
}


def plan(tier):
    k = 6 if tier == "quick" else 120
    return [("acts", 10 * k, 70), ("null", 7 * k, 70), ("seps", 7 * k, 70)]


def gen(kind, rng):
    g = G(rng, **OPTS[kind])
    sp = g.spec(rng.randint(0, 2))
    if kind != "seps" and rng.random() < 0.6 and sp[0] not in ("ref", "let"):
        sp = ["act", sp, rng.choice(sorted(ACTS))]
    sp = plain_top(sp)
    return {"spec": sp, "style": draw_style(rng), "texts": texts(sp, rng, 4), "limit": rng.randint(0, 3)}


def text_of(v):
    return "".join(text_of(x) if isinstance(x, list) else str(x) for x in v)


def judge(case, obs):
    sp = case["spec"]
    real_acts = {k: (lambda f: lambda t: f(view(t)))(f) for k, f in ACTS.items()}
    out = attempt(lambda: Builder(case["style"], acts=real_acts).b(sp))
    if out[0] != "ok":
        obs.violate("build", repr(out))
        return
    e = out[1]
    for s in case["texts"]:
        ref = Ref(s, acts=ACTS, budget=6000)
        want = []
        pos = 0
        try:
            while pos <= len(s):
                start = ref.ws.skip(s, pos)
                try:
                    r = ref.ev(sp, start, ref.ws)
                except Fail:
                    pos = start + 1
                    continue
                want.append((r, start))
                pos = r.end if r.end > start else start + 1
        except (OutOfModel, RecursionError):
            obs.hit("undefined for the model")
            continue
        spans = attempt(lambda: [(t, a, b) for t, a, b in e.scan_string(s)])
        if spans[0] == "deep":
            continue
        if spans[0] != "ok" or [(a, at(s, b)) for _, a, b in spans[1]] != [(a, at(s, n.end)) for n, a in want]:
            obs.violate("scan", "text=%r real=%r reference=%r" % (s, spans[1:], [(n.view(), a, n.end) for n, a in want]))
            return
        spans = [(a, b) for _, a, b in spans[1]]

        # TRANSFORM
        expect = ""
        last = 0
        for (n, _), (a, b) in zip(want, spans):
            expect += s[last:a] + text_of(n.view())
            obs.hit("characters conserved", a - last)
            last = b
        expect += s[last:]
        obs.hit("characters conserved", len(s) - last)
        obs.hit("matches replaced", len(want))
        got = attempt(lambda: e.transform_string(s))
        if got[0] != "deep" and got != ("ok", expect):
            obs.violate("transform", "text=%r\n real=%r\n reference=%r spans=%r" % (s, got, expect, spans))
            return
        if any(0 < a and b < len(s) and b > a for a, b in spans):
            obs.mark()
            obs.distinct("transformed texts", expect)

        # SPLIT
        for limit in (None, case["limit"]):
            cut = spans if limit is None else spans[:limit]
            for seps in (False, True):
                pieces = []
                last = 0
                for (n, _), (a, b) in zip(want, cut):
                    pieces.append(s[last:a])
                    if seps:
                        pieces.append(("sep", _top(n)))
                    last = b
                pieces.append(s[last:])
                kw = {}
                if limit is not None:
                    kw["maxsplit"] = limit
                if seps:
                    kw["include_separators"] = True
                got = attempt(lambda: [("sep", view(x)) if isinstance(x, m.ParseResults) else x for x in e.split(s, **kw)])
                if got[0] == "deep":
                    continue
                if got != ("ok", pieces):
                    obs.violate("split", "text=%r %r\n real=%r\n reference=%r" % (s, kw, got, pieces))
                    return
                obs.hit("pieces", len(pieces))
                if limit is not None and limit < len(spans):
                    obs.hit("splits cut by a limit")
