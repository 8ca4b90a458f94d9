"""C25: operators and shorthand mean the classes and methods they stand for"""
import io
import os
import random
import tempfile

from rv import env as m
from rv.gen import G, inputs, mutate
from rv.model import Builder, kinds_in, view
from rv.real import at, attempt, draw_style, named_plain, spec_names, map_spec

ID = "C25"
RULE = (
    "operators (+ - | ^ & ~ * [] / () ... with elements, text or classes on either side), shorthand methods (suppress, replace_with, sub, clear_parse_action, matches, parse_file, search_string, set_parser_names) "
    "and text given where an element is expected (every constructor), in whitespace contexts with Literal, Keyword or CaselessLiteral for text, are compared on random texts with the class or method they stand for, "
    "built from separately made operands: same acceptance, extent, tokens, names and values. Non-trivial: the text was accepted."
)
ASSUME = [
    "the elements named by the documentation of each operator (+ And, | MatchFirst, ^ Or, & MatchAll, ~ NotAny, * and [] Many, ... SkipTo named _skipped) are right themselves, other properties judge those",
    "& of & nests",
]
NEED = {"pairs": 3000, "compared": 25000, "accepted": 8000, "refused": 4000, "text for an element": 1500, "repetitions": 500, "skips": 150, "entry points": 300}
TEXTS = ["a", "b", "ab", "if", "=", ",", "(", "x1", "AB", ".*", "\\"]
TERMS = ["lit", "lit2", "word", "char", "kw", "notin", "re"]
COMBS = ["and", "first", "or", "opt", "group", "zom", "name", "suppress", "combine"]


def plan(tier):
    k = 3 if tier == "quick" else 40
    return [(kind, 6 * k, 90) for kind in ("binary", "repeat", "given", "method", "skip", "chain")]


OPS = {"+": "And", "|": "MatchFirst", "^": "Or", "&": "MatchAll", "-": "And"}
REPEATS = {
    "x*n": (lambda x, n, k: x * n, lambda n, k: (n, n)),
    "n*x": (lambda x, n, k: n * x, lambda n, k: (n, n)),
    "x[n]": (lambda x, n, k: x[n], lambda n, k: (n, n)),
    "x*(n,)": (lambda x, n, k: x * (n,), lambda n, k: (n, None)),
    "x*(n,None)": (lambda x, n, k: x * (n, None), lambda n, k: (n, None)),
    "x*(n,...)": (lambda x, n, k: x * (n, ...), lambda n, k: (n, None)),
    "x[n,...]": (lambda x, n, k: x[n, ...], lambda n, k: (n, None)),
    "x[n:]": (lambda x, n, k: x[n:], lambda n, k: (n, None)),
    "x[n:...]": (lambda x, n, k: x[n:...], lambda n, k: (n, None)),
    "x*(None,n)": (lambda x, n, k: x * (None, n + k), lambda n, k: (0, n + k)),
    "x*(...,n)": (lambda x, n, k: x * (..., n + k), lambda n, k: (0, n + k)),
    "x[...,n]": (lambda x, n, k: x[..., n + k], lambda n, k: (0, n + k)),
    "x[:n]": (lambda x, n, k: x[: n + k], lambda n, k: (0, n + k)),
    "x*(n,k)": (lambda x, n, k: x * (n, n + k), lambda n, k: (n, n + k)),
    "x[n:k]": (lambda x, n, k: x[n : n + k], lambda n, k: (n, n + k)),
    "x[n,k]": (lambda x, n, k: x[n, n + k], lambda n, k: (n, n + k)),
    "(n,k)*x": (lambda x, n, k: (n, n + k) * x, lambda n, k: (n, n + k)),
    "x*...": (lambda x, n, k: x * ..., lambda n, k: (0, None)),
    "x[...]": (lambda x, n, k: x[...], lambda n, k: (0, None)),
    "x[:]": (lambda x, n, k: x[:], lambda n, k: (0, None)),
    "x*(None,None)": (lambda x, n, k: x * (None, None), lambda n, k: (0, None)),
    "exact": (lambda x, n, k: m.Many(x, exact=n), lambda n, k: (n, n)),
    "ZeroOrMore": (lambda x, n, k: m.ZeroOrMore(x), lambda n, k: (0, None)),
    "OneOrMore": (lambda x, n, k: m.OneOrMore(x), lambda n, k: (1, None)),
    "Optional": (lambda x, n, k: m.Optional(x), lambda n, k: (0, 1)),
}
# text where an element is expected: (given the element or its text, another element)
GIVEN = {
    "Group": lambda t, x: m.Group(t) + x,
    "Optional": lambda t, x: m.Optional(t) + x,
    "default": lambda t, x: m.Optional(t, default="none") + x,
    "ZeroOrMore": lambda t, x: m.ZeroOrMore(t) + x,
    "OneOrMore": lambda t, x: m.OneOrMore(t) + x,
    "Many": lambda t, x: m.Many(t, min_match=1, max_match=2) + x,
    "stop": lambda t, x: m.OneOrMore(m.Word("abif=,"), stop_on=t) + m.Optional(x),
    "stop0": lambda t, x: m.ZeroOrMore(m.Char("abif=,"), stop_on=t) + m.Optional(x),
    "Combine": lambda t, x: m.Combine(t) + x,
    "FollowedBy": lambda t, x: m.FollowedBy(t) + m.AnyChar() + x,
    "NotAny": lambda t, x: m.NotAny(t) + m.AnyChar() + x,
    "PrecededBy": lambda t, x: m.Word("abifx=") + m.PrecededBy(t) + x,
    "SkipTo": lambda t, x: m.SkipTo(t) + m.Optional(x),
    "include": lambda t, x: m.SkipTo(t, include=True) + m.Optional(x),
    "fail_on": lambda t, x: m.SkipTo(m.Literal(";"), fail_on=t) + m.Optional(x),
    "ignore": lambda t, x: m.SkipTo(x, ignore=t) + m.Optional(x),
    "And": lambda t, x: m.And([x, t]),
    "And first": lambda t, x: m.And([t, x]),
    "MatchFirst": lambda t, x: m.MatchFirst([t, x]),
    "Or": lambda t, x: m.Or([x, t]),
    "MatchAll": lambda t, x: m.MatchAll([x, t]),
    "Forward": lambda t, x: m.Forward(t) + x,
    "<<": lambda t, x: _define(m.Forward(), t) + x,
    "<<=": lambda t, x: _idefine(m.Forward(), t) + x,
    "delimited item": lambda t, x: m.delimited_list(t),
    "counted": lambda t, x: m.helpers.counted_array(t),
    "orig": lambda t, x: m.helpers.originalTextFor(t) + x,
    "located": lambda t, x: m.helpers.located_expr(t) + x,
}
LITERAL_ALWAYS = {
    "Suppress": lambda t, x: m.Suppress(t) + x,
    "delimiter": lambda t, x: m.delimited_list(m.Word("ab"), separator=t) + m.Optional(x),
}


def _define(f, t):
    f << t
    return f


def _idefine(f, t):
    f <<= t
    return f


def _parts(x):
    return m.And([x("p"), m.Optional(m.AnyChar()("q"))])


def _filled(t):
    return "<%s|%s%s>%s" % (t["p"], t["q"], t["1"], t["p"])


METHODS = {
    # shorthand, what it stands for
    "suppress": (lambda x: x.suppress(), lambda x: m.Suppress(x)),
    "call": (lambda x: x("n"), lambda x: x.set_token_name("n")),
    "call empty": (lambda x: x(""), lambda x: x),
    "/ function": (lambda x: x / _twice, lambda x: x.add_parse_action(_twice)),
    "/ / ": (lambda x: x / _twice / _count, lambda x: x.add_parse_action(_twice, _count)),
    "/ constant": (lambda x: x / 7, lambda x: x.add_parse_action(lambda t: 7)),
    "/ text": (lambda x: x / "text", lambda x: x.add_parse_action(lambda t: "text")),
    "/ str": (lambda x: m.Combine(x) / str, lambda x: m.Combine(x).add_parse_action(lambda t: str(t))),
    "/ len": (lambda x: x / len, lambda x: x.add_parse_action(lambda t: len(t))),
    "/ list": (lambda x: x / list, lambda x: x.add_parse_action(lambda t: list(t))),
    "replace": (lambda x: x.replace_with("<>"), lambda x: x.add_parse_action(lambda t: "<>")),
    "sub": (lambda x: x.sub("<>"), lambda x: x.replace_with("<>")),
    "replace names": (lambda x: _parts(x).replace_with("<\\g<p>|\\g<q>\\1>\\g<p>"), lambda x: _parts(x).add_parse_action(_filled)),
    "sub names": (lambda x: _parts(x).sub("\\q,\\g<p> "), lambda x: _parts(x).add_parse_action(lambda t: "%s,%s " % (t["q"], t["p"]))),
    "clear": (lambda x: (m.And([x, m.Empty()]) / _twice).clear_parse_action(), lambda x: m.And([x, m.Empty()])),
    "clear is a copy": (lambda x: _after(x / _twice, lambda y: y.clear_parse_action()), lambda x: x.add_parse_action(_twice)),
    "~": (lambda x: ~x + m.AnyChar(), lambda x: m.NotAny(x) + m.AnyChar()),
    "~~": (lambda x: ~~x + m.AnyChar(), lambda x: m.NotAny(m.NotAny(x)) + m.AnyChar()),
    "class operand": (lambda x: x + m.StringEnd, lambda x: x + m.StringEnd()),
    "class alternative": (lambda x: x | m.AnyChar, lambda x: x | m.AnyChar()),
    "class given": (lambda x: m.And([m.StringStart, x]), lambda x: m.And([m.StringStart(), x])),
    "group twice": (lambda x: m.Group(m.Group(x)), lambda x: m.Group(m.And([m.Group(x)]))),
    "many conditions": (lambda x: x.add_condition(_long, _even), lambda x: x.add_condition(_long).add_condition(_even)),
    "FollowedBy is LookAhead": (lambda x: m.FollowedBy(x) + m.AnyChar(), lambda x: m.LookAhead(x) + m.AnyChar()),
    "set_parser_name": (lambda x: x.copy().set_parser_name("P"), lambda x: x),
    "ungroup": (lambda x: m.Group(m.helpers.ungroup(m.Group(x))), lambda x: m.Group(x)),
}
METHODS = {k: v for k, v in METHODS.items() if all(hasattr(m, n) for n in ("LookAhead",)) or "LookAhead" not in k}


def _twice(t):
    return [y for y in t for _ in (0, 1)]


def _count(t):
    return len(t)


def _long(t):
    return len(list(t)) >= 1


def _even(t):
    return len(str(t)) % 2 == 0


def _after(x, f):
    f(x)
    return x


def gen(kind, rng):
    g = G(rng, terms=TERMS, combs=COMBS)
    ops = [g.spec(rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([2, 2, 3, 4]) if kind == "chain" else 2)]
    case = {"kind": kind, "specs": ops, "literal": rng.choice(["std", "std", "kw", "clit"]), "white": rng.choice([None, None, "", " "]), "seed": rng.getrandbits(40)}
    if kind == "repeat":
        # what a default gives when repeated is not defined
        case["specs"] = ops = [map_spec(sp, lambda y: ["opt", y[1], None] if y[0] == "opt" else y) for sp in ops]
    sep = rng.choice(["", " ", " "])
    bits = [x for sp in ops for x in inputs(sp, rng, 3)]
    if kind == "binary":
        case["op"] = rng.choice("+|^&-")
        case["text"] = rng.choice(["left", "right", "none"])
        case["t"] = rng.choice(TEXTS)
    elif kind == "repeat":
        case["form"] = rng.choice(sorted(REPEATS))
        case["n"], case["k"] = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 2])
        case["tail"] = rng.random() < 0.5
    elif kind == "given":
        case["form"] = rng.choice(sorted(GIVEN) + sorted(LITERAL_ALWAYS))
        case["t"] = rng.choice(TEXTS)
    elif kind == "method":
        case["form"] = rng.choice(sorted(METHODS) + ["entry"] * 4 + ["names"])
    elif kind == "skip":
        case["form"] = rng.choice(["x+...+y", "...+y", "x+...+t", "...+t", "text+...+y", "x+...+y+...+t", "named", "(x|...)+y", "t+(x|...)+y", "(x|...)+t"])
        case["t"] = rng.choice(TEXTS)
    else:
        case["ops"] = rng.choice(["+", "|", "^", "+-"])
    t = case.get("t", "")
    texts = []
    for _ in range(10):
        parts = [rng.choice(bits + [t, t]) for _ in range(rng.randint(1, 5))]
        if kind in ("repeat", "chain") and rng.random() < 0.6:
            parts = [x for x in (rng.choice(bits[:3] or [""]) for _ in range(rng.randint(0, 6)))]
        if kind == "given":
            parts = rng.choice([[t, rng.choice(bits)], [t] * rng.randint(1, 3) + [rng.choice(bits)], [rng.choice(bits), t], [rng.choice("ab=,if"), t, rng.choice(bits)], ["2", t, t], [t, ",", t], ["ab", t, "b"], parts + [";"]])
        if kind == "binary":
            parts = rng.choice([[t, rng.choice(bits)], [rng.choice(bits), t], parts])
        s = sep.join(parts)
        if rng.random() < 0.15:
            s = mutate(s, rng)
        texts.append([s[:60], rng.random() < 0.3])
    case["inputs"] = texts
    return case


class Context(object):
    """whitespace and what text stands for"""

    def __init__(self, case):
        self.case = case

    def __enter__(self):
        w = self.case["white"]
        self.ws = m.whitespaces.Whitespace() if w is None else m.whitespaces.Whitespace(w)
        inner = self.ws.__enter__()
        self.L = {"std": m.Literal, "kw": m.Keyword, "clit": m.CaselessLiteral}[self.case["literal"]]
        if self.case["literal"] != "std":
            inner.set_literal(self.L)
        return self

    def __exit__(self, *a):
        self.ws.__exit__(None, None, None)


def pair(case, c):
    """-> the shorthand, what it stands for (made of operands made again)"""
    rng = random.Random(case["seed"])
    style = draw_style(rng)
    x = lambda i=0: Builder(style).b(case["specs"][i])
    L, t, kind, form = c.L, case.get("t"), case["kind"], case.get("form")
    if kind == "binary":
        op = case["op"]
        a, b = (t, x(0)) if case["text"] == "left" else (x(0), t) if case["text"] == "right" else (x(0), x(1))
        short = {"+": lambda: a + b, "|": lambda: a | b, "^": lambda: a ^ b, "&": lambda: a & b, "-": lambda: a - b}[op]()
        a, b = (L(t), x(0)) if case["text"] == "left" else (x(0), L(t)) if case["text"] == "right" else (x(0), x(1))
        long = {"+": lambda: m.And([a, b]), "|": lambda: m.MatchFirst([a, b]), "^": lambda: m.Or([a, b]), "&": lambda: m.MatchAll([a, b]), "-": lambda: m.And([a, m.And.SyntaxErrorGuard(), b])}[op]()
        return short, long
    if kind == "repeat":
        f, limits = REPEATS[form]
        n, k = case["n"], case["k"]
        lo, hi = limits(n, k)
        kw = {"min_match": lo}
        if hi is not None:
            kw["max_match"] = hi
        short, long = f(x(0), n, k), m.Many(x(0), **kw)
        if case["tail"]:
            return m.And([short, x(1)]), m.And([long, x(1)])
        return short, long
    if kind == "given":
        if form in LITERAL_ALWAYS:
            return LITERAL_ALWAYS[form](t, x(0)), LITERAL_ALWAYS[form](m.Literal(t), x(0))
        return GIVEN[form](t, x(0)), GIVEN[form](L(t), x(0))
    if kind == "method":
        f, g = METHODS[form]
        return f(x(0)), g(x(0))
    if kind == "skip":
        sk = lambda y: m.SkipTo(y)("_skipped")
        if form == "x+...+y":
            return x(0) + ... + x(1), m.And([x(0), sk(x(1)), x(1)])
        if form == "...+y":
            return ... + x(1), m.And([sk(x(1)), x(1)])
        if form == "x+...+t":
            return x(0) + ... + t, m.And([x(0), sk(L(t)), L(t)])
        if form == "...+t":
            return ... + L(t), m.And([sk(L(t)), L(t)])
        if form == "text+...+y":
            return m.And([t, ..., x(1)]), m.And([L(t), sk(x(1)), x(1)])
        if form == "(x|...)+y":
            return (x(0) | ...) + x(1), m.And([m.Optional(x(0)), sk(x(1)), x(1)])
        if form == "t+(x|...)+y":
            return L(t) + ((x(0) | ...) + x(1)), m.And([L(t), m.Optional(x(0)), sk(x(1)), x(1)])
        if form == "(x|...)+t":
            return (x(0) | ...) + t, m.And([m.Optional(x(0)), sk(L(t)), L(t)])
        if form == "named":
            return m.Group(x(0) + ... + x(1))("g"), m.Group(m.And([x(0), sk(x(1)), x(1)]))("g")
        return x(0) + ... + x(1) + ... + L(t), m.And([x(0), sk(x(1)), x(1), sk(L(t)), L(t)])
    n = len(case["specs"])
    ops = case["ops"]
    acc = x(0)
    for i in range(1, n):
        if ops == "+":
            acc = acc + x(i)
        elif ops == "|":
            acc = acc | x(i)
        elif ops == "^":
            acc = acc ^ x(i)
        else:
            acc = acc + x(i) if i % 2 else acc - x(i)
    kids = [x(i) for i in range(n)]
    if ops == "+-":
        kids = [kids[0]] + [y for i, k in enumerate(kids[1:], 1) for y in ([k] if i % 2 else [m.And.SyntaxErrorGuard(), k])]
    return acc, {"+": m.And, "|": m.MatchFirst, "^": m.Or, "+-": m.And}[ops](kids)


def outcome(e, s, pa, names):
    out = attempt(lambda: e.parse_string(s, parse_all=pa))
    if out[0] == "ok":
        r = out[1]
        seen = attempt(lambda: (at(s, r.end), view(r), named_plain(r, names), [repr(v) for v in r]))
        return ("ok", seen)
    if out[0] == "fail":
        return ("fail",)
    return out


def entry(case, c, obs):
    """ways to ask"""
    style = draw_style(random.Random(case["seed"]))
    e = Builder(style).b(case["specs"][0])
    names = sorted(spec_names(case["specs"][0]))
    p = attempt(lambda: e.finalize())
    if p[0] != "ok":
        return
    p = p[1]
    for s, pa in case["inputs"]:
        want = outcome(p, s, pa, names)
        obs.hit("entry points")
        obs.hit("compared")
        if want[0] == "ok":
            obs.mark()
            obs.hit("accepted")
        else:
            obs.hit("refused")
        class P(object):
            def __init__(self, f):
                self.parse_string = f

        ways = {
            "parse": e.parse,
            "parse_string": e.parse_string,
            "positional": lambda s, parse_all: e.parse_string(s, parse_all),
            "parser.parse": p.parse,
            "parse_file": lambda s, parse_all: e.parse_file(io.StringIO(s), parse_all=parse_all),
        }
        if len(s) % 4 == 1 and s.isascii() and "\r" not in s:
            def by_name(s, parse_all):
                d = tempfile.mkdtemp(prefix="c25-")
                path = os.path.join(d, "text")
                try:
                    with open(path, "w", newline="") as f:
                        f.write(s)
                    return e.parse_file(path, parse_all)
                finally:
                    os.remove(path)
                    os.rmdir(d)

            ways["file by name"] = by_name
        for n, f in ways.items():
            got = outcome(P(f), s, pa, names)
            if got != want:
                return obs.violate("entry", "%s(%r, parse_all=%s) gives %r, a Parser gives %r" % (n, s, pa, got, want))
        got = attempt(lambda: e.matches(s, parse_all=pa))
        if want[0] in ("ok", "fail") and got != ("ok", want[0] == "ok"):
            return obs.violate("entry", "matches(%r, parse_all=%s) gives %r, parsing %r" % (s, pa, got, want))
        if want[0] in ("ok", "fail") and pa:
            got = attempt(lambda: e.matches(s))
            if got != ("ok", want[0] == "ok"):
                return obs.violate("entry", "matches(%r) gives %r, parsing all %r" % (s, got, want))
        found = attempt(lambda: [view(t) for t, _, _ in e.scan_string(s, max_matches=4)])
        search = attempt(lambda: [view(t) for t in e.search_string(s, max_matches=4).tokens])
        if found[0] == "ok" and search[0] == "ok" and len(found[1]) != len(search[1]):
            return obs.violate("entry", "scan_string(%r) finds %r, search_string %r" % (s, found, search))


def parser_names(case, c, obs):
    from mo_parsing.core import set_parser_names

    alpha = Builder({}).b(case["specs"][0])
    Beta = m.Word("ab")
    gamma_ = m.Word("ab").set_parser_name("other")
    number = 3
    before = alpha.parser_name
    set_parser_names()
    obs.hit("compared")
    got = (alpha.parser_name, Beta.parser_name, gamma_.parser_name)
    if got != (before or "alpha", "beta", "other"):
        obs.violate("names", "set_parser_names gives %r" % (got,))
    return number


def errorstop(case, obs):
    """`a - b`: once a has matched, a failure of b is not backtracked over (doc of And.SyntaxErrorGuard)"""
    a, b, c, between = case["texts"]
    guarded = m.Literal(a) - m.Literal(b)
    e = guarded | (m.Literal(a) + m.Literal(c))
    r = attempt(lambda: e.parse_string(a + between + c))
    obs.hit("error stops")
    if r[0] != "fail":
        obs.violate("error stop", "(%r - %r) | (%r + %r) on %r: the failure after - was backtracked over: %r" % (a, b, a, c, a + between + c, view(r[1]) if r[0] == "ok" else r))


def judge(case, obs):
    if case.get("kind") == "errorstop":
        return errorstop(case, obs)
    with Context(case) as c:
        if case.get("form") == "entry":
            return entry(case, c, obs)
        if case.get("form") == "names":
            return parser_names(case, c, obs)
        try:
            both = attempt(lambda: pair(case, c))
            if both[0] != "ok":
                # the same for both?  (names used twice, lookbehind repeated ...)
                obs.hit("refused at build")
                why = str(both[-1])
                if "already set" in why or "can only look behind" in why or "not supported" in why or "dis-ambiguate" in why:
                    return
                return obs.violate("build", "%s %s: %r" % (case["kind"], case.get("form") or case.get("op"), both))
            short, long = both[1]
        except m.RecursiveGrammarException:
            return
        names = sorted(set().union(*[spec_names(sp) for sp in case["specs"]]) | {"n", "g", "_skipped", "locn_start", "locn_end", "value"})
        obs.hit("pairs")
        what = case["kind"]
        if what == "given" or case.get("text", "none") != "none":
            obs.hit("text for an element")
        if what == "repeat":
            if attempt(lambda: Builder({}).b(case["specs"][0]).parse_string(""))[0] != "fail":
                # what is kept of a repeated element that matches nothing is not defined
                return obs.hit("empty operand")
            obs.hit("repetitions")
        if what == "skip":
            obs.hit("skips")
        for s, pa in case["inputs"]:
            a, b = outcome(short, s, pa, names), outcome(long, s, pa, names)
            if "deep" in (a[0], b[0]):
                continue
            obs.hit("compared")
            if a != b:
                return obs.violate("shorthand", "%s %s, %r (parse_all=%s): shorthand %s\n gives %r\n it stands for %s\n gives %r" % (what, case.get("form") or case.get("op") or case.get("ops"), s, pa, short, a, long, b))
            if a[0] == "ok":
                obs.mark()
                obs.hit("accepted")
            else:
                obs.hit("refused")
        obs.distinct("shorthand", (what, case.get("form") or case.get("op") or case.get("ops"), case.get("text"), case["literal"]))
