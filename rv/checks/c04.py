"""C04: using an expression never changes it, nor anything built from or with it"""
import random

from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, view
from rv.monitor import Hang
from rv.real import at, attempt, named_plain, plain_top

ID = "C04"
RULE = (
    "a random history over a pool of shared expressions: composing in every documented way, naming, copying, adding actions and conditions, "
    "naming the parser, finalizing, streamlining, parsing, scanning, transforming, splitting, rendering; after every step outcomes of pooled "
    "expressions are re-taken and must equal those of the same expression built afresh from its recipe and used only for that. "
    "Non-trivial: the history composed shared expressions and the pool accepted some probe."
)
ASSUME = ["Forward definition, Many.stop_on, append, setFailAction are documented in-place operations and are not in the histories"]
NEED = {"fingerprints re-taken": 20000, "operation kinds": 24, "fingerprints with acceptance": 3000}
NAMES = ["x", "y", "z"]

LEAF = dict(rec=True, terms=["lit", "lit2", "kw", "word", "char", "clit", "re", "notin", "any"], combs=["and", "first", "firstlit", "opt", "group", "many", "name", "or", "zom", "let"])
BIN = ["pend", "pend2", "and", "alt", "xor", "all", "andlist", "altlist", "skip", "stop", "lookpair", "delim", "thenskip"]
UN = ["many", "opt", "oom", "zom", "group", "suppress", "name", "act", "act2", "const", "cond", "copy", "skipto", "combine", "strl", "strr", "slice", "mul", "addpa", "setname", "clear", "forward", "ell", "replace"]
USE = ["parse", "finalize", "streamline", "scan", "search", "transform", "split", "matches", "str", "pname", "regex", "halfscan", "alternatives"]


def plan(tier):
    k = 3 if tier == "quick" else 60
    return [("history", 32 * k, 14), ("actions", 8 * k, 14)]


def gen(kind, rng):
    pool = []
    for _ in range(rng.randint(2, 4)):
        g = G(rng, **LEAF)
        sp = plain_top(g.spec(rng.randint(0, 2)))
        pool.append(sp)
    steps = []
    n = len(pool)
    probes = []
    for sp in pool:
        probes += inputs(sp, rng, 3)
    base = len(pool)
    for _ in range(rng.randint(6, 16)):
        c = rng.random()

        def pick():  # the first ones often, the newest often
            return rng.randrange(base) if rng.random() < 0.45 else rng.randrange(n)

        if c < 0.35:
            steps.append([rng.choice(BIN), pick(), pick(), rng.randint(0, 9)])
            n += 1
        elif c < 0.72:
            op = rng.choice(UN if kind == "history" else ["name", "act", "act2", "cond", "const", "addpa", "copy", "setname", "clear", "group", "suppress"])
            steps.append([op, pick(), None, rng.randint(0, 9)])
            n += 1
        else:
            steps.append([rng.choice(USE), pick(), None, rng.randint(0, 9)])
    extra = ["x", "a", "", "a,b", "ab a", "(a)"]
    for _ in range(5):
        a, b = rng.choice(probes or [""]), rng.choice(probes or [""])
        extra.append((a + rng.choice(["", " ", ","]) + b)[:24])
    probes = sorted(set((probes + extra)))
    rng.shuffle(probes)
    return {"pool": pool, "steps": steps, "probes": probes[:9]}


def upper(t):
    return [x.upper() if isinstance(x, str) else x for x in t]


def count(t):
    return len(t)


def few(t):
    return len(t) < 2


def short(t, i, s):
    return t[0] != "a"


def make(op, a, b, k):
    """the documented way to make a new expression out of old ones"""
    if op == "and":
        return a + b
    if op == "alt":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "all":
        return m.Group(a) & m.Group(b)
    if op == "andlist":
        return m.And([a, b, a] if k < 5 else [a, b])
    if op == "altlist":
        return m.MatchFirst([m.Literal("zz"), a, b, m.Literal("yy")] if k < 5 else [a, b])
    if op == "skip":
        return a + ... + b
    if op == "pend":  # a place held by '...' inside an expression, used twice
        p = m.Literal("x") + (a + ...)
        return (p + b) | (p + m.Literal(";"))
    if op == "pend2":
        p = m.Literal("x") + (a + ...)
        return (p + m.Literal(";")) | (p + b)
    if op == "thenskip":
        return a + m.SkipTo(b) + b
    if op == "stop":
        return m.ZeroOrMore(a, stop_on=m.Literal("x"))
    if op == "lookpair":
        return ~a + b
    if op == "delim":
        return m.delimited_list(a)
    if op == "many":
        return m.Many(a, min_match=k % 3, max_match=(k % 3) + 1)
    if op == "opt":
        return m.Optional(a) if k < 5 else m.Optional(a, default="D")
    if op == "oom":
        return m.OneOrMore(a)
    if op == "zom":
        return m.ZeroOrMore(a)
    if op == "group":
        return m.Group(a)
    if op == "suppress":
        return a.suppress() if k < 5 else m.Suppress(a)
    if op == "name":
        return a(NAMES[k % 3])
    if op == "setname":
        return a.set_token_name(NAMES[k % 3])
    if op == "act":
        return a / upper
    if op == "act2":
        return a.add_parse_action(upper, count)
    if op == "addpa":
        return a.add_parse_action(lambda t: None, callDuringTry=k < 5)
    if op == "const":
        return a / 7
    if op == "cond":
        return a.add_condition(few if k < 5 else short)
    if op == "clear":
        return a.clear_parse_action()
    if op == "copy":
        return a.copy()
    if op == "skipto":
        return m.SkipTo(a, include=k < 5)
    if op == "combine":
        return m.Combine(a)
    if op == "strl":
        return "x" + a if k < 5 else "x" | a
    if op == "strr":
        return a + "x" if k < 5 else a | "x"
    if op == "slice":
        return a[1:] if k < 3 else (a[...] if k < 6 else a[0:2])
    if op == "mul":
        return a * (k % 3 + 1) if k < 5 else a * (0, 2)
    if op == "ell":
        return a + ... + m.Literal("x")
    if op == "replace":
        return a.replace_with("R")
    if op == "forward":
        f = m.Forward()
        f << a
        return f
    raise Exception(op)


def outcomes(e, probes, limit=8.0):
    """
    what e does with every probe, as part of something else (a group at the very top is presented without its nesting,
    so the wrapper keeps that apart) and by itself
    """
    out = []
    w = m.Group(e)
    for j, (s, pa) in enumerate(probes):

        def go():
            r = w.parse_string(s, parse_all=pa)
            return ("ok", at(s, r.end), view(r), named_plain(r, NAMES))

        def alone():
            return ("ok", at(s, e.parse_string(s, parse_all=pa).end))

        one = []
        for f in [go] if j else [go, alone]:
            o = attempt(f, limit)
            if o[0] == "ok":
                one.append(o[1])
            elif o[0] == "fail":
                one.append(("fail",))
            elif o[0] == "exc":
                one.append(("exc", o[1]))
            else:
                one.append(o)
        out.append(one)
    return out


def deep(a, b):
    return any(x[0] == "deep" for x in a + b)


def judge(case, obs):
    probes = [(s, i % 3 == 0) for i, s in enumerate(case["probes"])]
    recipes = [("leaf", sp) for sp in case["pool"]]

    def fresh(i):
        r = recipes[i]
        if r[0] == "leaf":
            return Builder({}).b(r[1])
        op, a, b, k = r
        return make(op, fresh(a), None if b is None else fresh(b), k)

    def size(i):
        r = recipes[i]
        return 1 if r[0] == "leaf" else 1 + size(r[1]) + (size(r[2]) if r[2] is not None else 0)

    def first(e):
        try:
            return outcomes(e, probes, 0.5)
        except Hang:
            return None

    pool = []
    prints = []
    for i in range(len(recipes)):
        x = attempt(lambda: fresh(i))
        if x[0] != "ok":
            return
        pool.append(x[1])
        y = fresh(i)
        f = first(y)
        if f is None:
            obs.hit("too slow to study")
            return
        prints.append(f)
    composed = 0
    trace = []
    for op, a, b, k in case["steps"]:
        if a >= len(pool) or (b is not None and b >= len(pool)):
            continue
        if op in ("alt", "altlist", "xor") and pool[a] is pool[b]:
            continue  # one alternative twice is that alternative itself: names and actions then go to it
        trace.append([op, a, b, k])
        if op in BIN or op in UN:
            recipes.append((op, a, b, k))
            i = len(recipes) - 1
            if size(i) > 24:
                recipes.pop()
                trace.pop()
                continue
            want = attempt(lambda: fresh(i))
            got = attempt(lambda: make(op, pool[a], None if b is None else pool[b], k))
            if want[0] != got[0]:
                obs.violate("build", "%s of shared expressions gave %r, of fresh ones %r; history=%r" % (op, got, want, trace))
                return
            if want[0] != "ok":
                recipes.pop()
                trace.pop()
                obs.hit("refused by both")
                continue
            f = first(want[1])
            if f is None:
                obs.hit("too slow to study")
                return
            pool.append(got[1])
            prints.append(f)
            composed += 1
        else:
            e = pool[a]
            s = probes[k % len(probes)][0]
            r = random.Random(k)
            todo = {
                "parse": lambda: e.parse_string(s),
                "finalize": lambda: e.finalize().parse(s),
                "streamline": lambda: e.streamline(),
                "scan": lambda: list(e.scan_string(s)),
                "halfscan": lambda: next(iter(e.scan_string(s)), None),
                "search": lambda: e.search_string(s),
                "transform": lambda: e.transform_string(s),
                "split": lambda: list(e.split(s)),
                "matches": lambda: e.matches(s),
                "str": lambda: (str(e), repr(e), e == e, hash(e)),
                "pname": lambda: e.set_parser_name("P%d" % k),
                "regex": lambda: e.__regex__(),
                "alternatives": lambda: (m.MatchFirst([e, "q", "w"]).streamline(), m.Or([e, "q"]).streamline()),
            }[op]
            attempt(todo)
        obs.distinct("operation kinds", op)
        obs.hit("steps")
        # every expression alive is as it was
        for i in range(len(pool)):
            if i not in (a, b, len(pool) - 1) and (i + len(trace)) % 3:
                continue
            part = probes[:3] if i != a else probes[:6]
            for (s, pa), want, got in zip(part, prints[i], outcomes(pool[i], part)):
                obs.hit("fingerprints re-taken")
                if deep(got, want):
                    continue
                if got != want:
                    obs.violate("changed", "after %r expression %d (%r) parsed %r (parse_all=%r)\n now=%r\n fresh=%r" % (trace, i, recipes[i], s, pa, got, want))
                    return
                if want[0][0] == "ok" and want[0][1]:
                    obs.hit("fingerprints with acceptance")
                    if composed:
                        obs.mark()
    for i in range(len(pool)):
        for (s, pa), want, got in zip(probes, prints[i], outcomes(pool[i], probes)):
            obs.hit("fingerprints re-taken")
            if got != want and not deep(got, want):
                obs.violate("changed", "at the end of %r expression %d (%r) parsed %r\n now=%r\n fresh=%r" % (trace, i, recipes[i], s, got, want))
                return
    obs.distinct("histories of operations", [t[0] for t in trace])
