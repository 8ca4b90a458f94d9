"""C12: names give access to exactly the tokens matched under them"""
from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, Fail, N, OutOfModel, Ref
from rv.real import attempt, build, draw_style, plain, plain_top, spec_names

ID = "C12"
RULE = (
    "random grammars with names on terminals, sequences, choices, repetitions, groups, references and lookahead parse accepted texts; at every level of the "
    "result (the top and every group below it) every name of the grammar and one never given is asked for by item, in, get, keys, items and values, and the "
    "answers are compared with the reference's attribution of names over its own parse tree and with one another. Non-trivial: some name had a value."
)
ASSUME = ["a name inside another name or group is reached through it, not from outside (the library's documented nesting)", "empty tokens and empty groups count as absent for in and get, as exists() of mo_dots defines"]
NEED = {"names with a value": 20000, "names with several values": 2000, "names inside groups": 2000, "absent names": 20000, "hidden names": 1000, "told which": 1500}
NAMED = ["name", "name", "name", "name"]
OPTS = {
    "flat": dict(terms=["lit", "lit", "lit2", "word", "char", "kw"], combs=NAMED + ["and", "and", "first", "opt", "oom", "zom", "many"]),
    "deep": dict(terms=["lit", "lit2", "word", "char"], combs=NAMED + ["group", "group", "group", "and", "and", "oom", "opt", "zom", "first"]),
    "rec": dict(terms=["lit", "lit2", "word", "char"], combs=NAMED + ["let", "let", "group", "and", "and", "first", "opt", "oom"]),
    "wide": dict(stop=True, terms=G.TERMS, combs=NAMED + G.COMBS + ["all", "let", "ahead", "combine", "firstlit"]),
}
NONE = m.mo_parsing.results.NO_RESULTS
NEVER = "never given"


def plan(tier):
    k = 4 if tier == "quick" else 100
    return [("flat", 6 * k, 90), ("deep", 8 * k, 90), ("rec", 8 * k, 90), ("wide", 8 * k, 90), ("which", 3 * k, 90)]


def gen(kind, rng):
    if kind == "which":
        g = G(rng, terms=["lit", "lit2", "word", "char", "kw", "re"], combs=["and", "oom", "group", "many"])
        n = rng.randint(2, 4)
        kids = [g.solid(rng.choice([0, 0, 1])) for _ in range(n)]
        case = {"kids": kids, "names": [rng.choice([None, "n%d" % i, "n%d" % i, "n%d" % i]) for i in range(n)], "choice": rng.choice(["first", "or"]), "style": draw_style(rng), "pre": rng.choice(["none", "finalize", "streamline"])}
        case["inputs"] = [[s, False] for k in kids for s in inputs(k, rng, 2)]
        return case
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(2, 4)))
    if rng.random() < 0.25:
        # the same name in more places
        names = sorted(spec_names(sp))
        if names:
            sp = ["and", [sp, ["opt", ["group", ["name", ["lit", "a"], rng.choice(names)]], None], ["opt", ["name", ["lit", "b"], rng.choice(names)], None]]]
    if sp[0] in ("let", "ref", "name") or rng.random() < 0.2:
        # what a reference to a group gives at the very top is decided elsewhere
        sp = ["and", [sp, ["empty"]]]
    pre = rng.choice(["none", "none", "finalize", "streamline", "copy"])
    return {"spec": sp, "style": draw_style(rng), "pre": pre, "inputs": [[s, rng.random() < 0.3] for s in inputs(sp, rng, 7)]}


def flat(values):
    """plain tokens of what is found by name; groups nest"""
    out = []
    for v in values:
        if not isinstance(v, N):
            out.append(v)
        elif v.ann:
            continue
        elif v.group:
            out.append(v.view())
        else:
            out.extend(v.view())
    return out


def spread(values):
    """the same for the real thing"""
    out = []
    for v in values:
        if not isinstance(v, m.ParseResults):
            out.append(v)
        elif isinstance(v, m.Annotation):
            continue
        elif isinstance(v.type, m.Group):
            out.append(plain(v))
        else:
            out.extend(plain(x) for x in v)
    return out


def listed(values):
    """values as items() lists them: here a lookahead shows what it saw"""
    out = []
    for v in values:
        if isinstance(v, m.Annotation):
            out.extend(spread(v.tokens))
        elif isinstance(v, m.ParseResults) and len(v.tokens) == 1 and isinstance(v.tokens[0], m.Annotation) and not v.tokens[0].name:
            out.extend(spread(v.tokens[0].tokens))
        else:
            out.extend(spread([v]))
    return out


def pieces(node):
    """(children shown, in order) of a reference node"""
    for k in node.kids:
        if not isinstance(k, N):
            yield k
        elif k.ann:
            continue
        elif k.group:
            yield k
        else:
            yield from pieces(k)


def which(case, obs):
    """get_name() tells which of the alternatives it was"""
    kids = [["name", k, n] if n else k for k, n in zip(case["kids"], case["names"])]
    e = build(Builder(case["style"]), [case["choice"], kids], case["pre"])
    for s, _ in case["inputs"]:
        got = attempt(lambda: e.parse_string(s))
        if got[0] != "ok":
            continue
        lengths = []
        for k, n in zip(case["kids"], case["names"]):
            try:
                r = Ref(s)
                lengths.append((r.ev(["and", [k, ["empty"]]], r.ws.skip(s, 0), r.ws).end, n))
            except Fail:
                pass
        if not lengths:
            return obs.violate("which", "%r matched, no alternative does" % s)
        name = (lengths[0] if case["choice"] == "first" else max(lengths, key=lambda p: p[0]))[1]
        said = attempt(got[1].get_name)
        if said != ("ok", name or ""):
            return obs.violate("which", "%r on %r: get_name() gives %r, it was %r" % (kids, s, said, name))
        obs.hit("told which")
        obs.mark()


def level(r, node, names, obs, depth):
    """-> what is wrong"""
    said = attempt(r.get_name)
    if said[0] != "ok" or not isinstance(said[1], str) or r.name and said[1] != r.name or said[1] and said[1] not in spec_all and said[1] != r.name:
        return "get_name() gives %r" % (said,)
    keys = list(r.keys())
    items = list(r.items())
    if keys != [k for k, _ in items] or len(set(keys)) != len(keys):
        return "keys %r items %r" % (keys, items)
    if [plain(v) for v in r.values()] != [plain(v) for _, v in items]:
        return "values %r items %r" % (list(r.values()), items)
    items = dict(items)
    visible = node.names()
    for k in keys:
        if k not in visible and listed(items[k]):
            return "%r is among the keys, reference shows %r" % (k, visible)
    for n in names:
        vals = node.by_name(n)
        v = r[n]
        if not vals:
            if v is not NONE and (not isinstance(v, m.ParseResults) or spread([v])):
                return "[%r] gives %r, nothing has that name here" % (n, plain(v))
            # matched under the name, then suppressed, is also said to be in
            if v is NONE:
                if v or list(v):
                    return "[%r] of an absent name is %r" % (n, v)
                if n in r or r.get(n) is not None or r.get(n, NEVER) != NEVER:
                    return "%r: in=%r get=%r, nothing has that name here" % (n, n in r, r.get(n, NEVER))
            obs.hit("absent names")
            if n in spec_all:
                obs.hit("hidden names")
            continue
        want = flat(vals)
        if len(vals) == 1:
            x = vals[0]
            w = x.view() if isinstance(x, N) else x
            if plain(v) != w:
                return "[%r] gives %r, reference %r" % (n, plain(v), w)
        else:
            if spread(v.tokens if isinstance(v, m.ParseResults) else [v]) != want or plain(v) != want:
                return "[%r] gives %r, reference %r" % (n, plain(v), want)
            obs.hit("names with several values")
        obs.hit("names with a value")
        if depth:
            obs.hit("names inside groups")
        obs.mark()
        empty = not want or (len(vals) == 1 and (w == "" or w == []))
        if not empty:
            if n not in r:
                return "[%r] gives %r, in says no" % (n, plain(v))
            if plain(r.get(n)) != plain(v) or plain(r.get(n, NEVER)) != plain(v):
                return "[%r] gives %r, get gives %r" % (n, plain(v), r.get(n))
            if n not in items:
                return "[%r] gives %r, keys are %r" % (n, plain(v), keys)
        if n in items and listed(items[n]) != want:
            return "items give %r for %r, reference %r" % (plain(items[n]), n, want)
    ours, theirs = list(r), list(pieces(node))
    if len(ours) != len(theirs):
        return "tokens %r, reference %r" % (plain(r), node.view())
    for a, b in zip(ours, theirs):
        if isinstance(b, N) != isinstance(a, m.ParseResults):
            return "tokens %r, reference %r" % (plain(r), node.view())
        if isinstance(b, N):
            bad = level(a, b, names, obs, depth + 1)
            if bad:
                return "in group %r: %s" % (plain(a), bad)
    return None


spec_all = set()


def judge(case, obs):
    if "choice" in case:
        return which(case, obs)
    sp = case["spec"]
    names = sorted(spec_names(sp))
    spec_all.clear()
    spec_all.update(names)
    e = attempt(lambda: build(Builder(case["style"]), sp, case["pre"]))
    if e[0] != "ok":
        obs.hit("refused at build")
        return
    for s, pa in case["inputs"]:
        try:
            node = Ref(s, budget=3000).parse(sp, pa)
        except (Fail, OutOfModel, RecursionError):
            continue
        got = attempt(lambda: e[1].parse_string(s, parse_all=pa))
        if got[0] == "deep":
            continue
        if got[0] != "ok":
            obs.violate("rejected", "input=%r parse_all=%r %r" % (s, pa, got))
            return
        if node.name:
            node = N("top", node.start, node.end, [node])
        bad = attempt(lambda: level(got[1], node, names + [NEVER], obs, 0))
        if bad[0] == "deep":
            continue
        if bad[0] != "ok" or bad[1]:
            obs.violate("names", "input=%r parse_all=%r %s" % (s, pa, bad[1:] if bad[0] != "ok" else bad[1]))
            return
        obs.distinct("named trees", repr([(n, flat(node.by_name(n))) for n in names]))
