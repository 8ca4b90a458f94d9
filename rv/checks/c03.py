"""C03: optimisation, build style and entry point never change what a grammar means"""
import io
import random

from rv import env as m
from rv.gen import G, inputs, _has
from rv.model import Builder, Fail, OutOfModel, Ref, view
from rv.real import at, attempt, build, draw_style, map_spec, named_plain, plain_top, spec_names

ID = "C03"
RULE = (
    "one random grammar is built and run by a plain route (classes, no preparation) and by routes that must not matter: operators, finalize, "
    "streamline, copies, parser names everywhere, silent parse actions everywhere (which disables merging), never-matching alternatives added, "
    "alternatives nested, and every parsing entry point; outcome, tokens, names and end must agree on derived, mutated and random inputs. "
    "Non-trivial: an input was accepted with text consumed."
)
ASSUME = ["agreement of routes is the oracle; C01 and C02 decide whether the common answer is right"]
NEED = {"agreed on acceptance": 5000, "agreed on refusal": 5000, "route kinds": 12, "dispatch tables compared": 1, "choices made by hand": 5000}

PUN = "+-*/.^$?|()[]{}\\'\""
OPTS = {
    "choice": dict(terms=["lit", "lit2", "lit2", "kw", "clit", "ckw", "word", "char", "re", "notin", "any", "strend"], combs=["firstlit", "firstlit", "firstlit", "first", "or", "and", "opt", "group", "skipto", "not", "ahead", "let", "zom", "name", "suppress", "combine"], alpha="ab"),
    "meta": dict(terms=["lit", "lit2", "lit2", "kw", "clit", "word", "char", "notin"], combs=["firstlit", "first", "and", "opt", "zom", "not", "skipto", "name", "group"], alpha="aB", punct=PUN, stop=True),
    "case": dict(terms=["clit", "ckw", "lit2", "kw", "word", "char"], combs=["firstlit", "firstlit", "first", "and", "opt"], alpha="aAbB"),
    "odd": dict(terms=["lit", "lit", "lit2", "lit2", "kw", "word", "char", "notin"], combs=["firstlit", "firstlit", "firstlit", "first", "and", "opt", "group"], alpha="kK\u212aS\u017fß\u0130\u01c5\u03c2µ"),
    "names": dict(combs=["name", "name", "and", "first", "zom", "oom", "many", "opt", "group", "let", "all", "suppress", "or"]),
    "wide": dict(stop=True, terms=G.TERMS + ["white", "wstart", "wend", "strstart", "empty", "nomatch"], combs=G.COMBS + ["all", "behind", "let", "let", "firstlit", "firstlit", "ws"]),
}
ROUTES = ["op", "finalize", "streamline", "copy", "twice", "pname", "noop", "nomatch", "lit-pad", "nest", "mixed", "parse", "matches", "file", "parser", "copied-kids", "streamlined-kids"]


def plan(tier):
    k = 2 if tier == "quick" else 60
    return [("choice", 8 * k, 90), ("meta", 6 * k, 90), ("case", 4 * k, 90), ("odd", 3 * k, 90), ("names", 4 * k, 90), ("wide", 6 * k, 90), ("led", 6 * k, 90)]


def led(rng):
    """a choice of sequences, each with something optional or zero-length in front of its text"""
    g = G(rng, terms=["lit", "lit2", "word", "char", "kw", "re", "notin", "any"], combs=["and", "first", "opt", "group"])
    marks = list("ab01=;,#!@")
    rng.shuffle(marks)

    def lead(d=1):
        x = rng.choice([lambda: g.consuming_term(), lambda: g.consuming_term(), lambda: ["group", g.consuming_term()], lambda: ["lit", rng.choice(marks)], lambda: ["and", [g.consuming_term(), ["lit", rng.choice(marks)]]]])()
        k = rng.randrange(9)
        if k < 3:
            return ["opt", x, None]
        if k < 5:
            return ["zom", x, None]
        if k == 5:
            return ["ahead", x]
        if k == 6:
            return ["not", x]
        if k == 7:
            return ["many", x, 0, 2, None]
        return ["and", [lead(d - 1), lead(d - 1)]] if d else ["opt", x, "D"]

    kids = []
    for _ in range(rng.choice([2, 3, 4, 4, 5, 7])):
        mark = ["lit", rng.choice(marks) + rng.choice(["", "", "2", "=b"])]
        r = rng.random()
        if r < 0.55:
            kids.append(["and", [lead() for _ in range(rng.choice([1, 1, 2]))] + [mark] + ([g.consuming_term()] if rng.random() < 0.3 else [])])
        elif r < 0.9:
            kids.append(["and", [mark, g.consuming_term()]] if rng.random() < 0.5 else mark)
        else:
            kids.append(g.consuming_term())
        if rng.random() < 0.15:
            kids[-1] = rng.choice([["group", kids[-1]], ["name", kids[-1], "n"], ["noop", kids[-1]], ["opt", kids[-1], None]])
    return [rng.choice(["first", "first", "or"]), kids]


def gen(kind, rng):
    if kind == "led":
        sp = led(rng)
        ins = [[s, rng.random() < 0.2] for k in sp[1] for s in inputs(k, rng, 3)]
        return {"spec": sp, "style": draw_style(rng), "routes": rng.sample(ROUTES, 2), "seed": rng.randrange(10**9), "inputs": ins}
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(1, 3)))
    extra = "abAB" + PUN + " \n" if kind == "meta" else "abc01,;( \nAB"
    ins = [[s, rng.random() < 0.4] for s in inputs(sp, rng, 7, extra)]
    return {"spec": sp, "style": draw_style(rng), "routes": rng.sample(ROUTES, 6), "seed": rng.randrange(10**9), "inputs": ins}


SAFE = ("lit", "clit", "kw", "ckw", "word", "char", "notin", "any", "re", "close", "and", "first", "or", "all", "group", "many", "opt", "zom", "oom", "not", "ahead", "skipto", "name", "suppress", "combine")


def _repeats(x):
    while x[0] in ("noop", "name", "pname", "copy"):
        x = x[1]
    return x[0] in ("many", "zom", "oom")


def decorate(sp, rng, what):
    """an equivalent spec"""

    def bare(x):
        if x[0] == "noop" and _repeats(x):
            return bare(x[1])
        if x[0] in ("name", "pname", "copy"):
            return [x[0], bare(x[1])] + x[2:]
        return x

    def one(x):
        if what == "noop" and x[0] == "all":
            # a repetition given an action is one piece of an any-order, instead of many; that is documented, and not judged here
            x = ["all", [bare(k) for k in x[1]]] + x[2:]
        if what == "noop" and x[0] in SAFE and rng.random() < 0.5:
            return ["noop", x]
        if what == "pname" and x[0] in SAFE and rng.random() < 0.5:
            return ["pname", x, "N%d" % rng.randint(0, 9)]
        if what == "copied-kids" and x[0] in SAFE and rng.random() < 0.6:
            return ["copy", x]
        if what == "streamlined-kids" and x[0] in SAFE and rng.random() < 0.6:
            return ["streamlined", x]
        if what == "nomatch" and x[0] in ("first", "or"):
            kids = list(x[1])
            kids.insert(rng.randint(0, len(kids)), ["nomatch"])
            return [x[0], kids]
        if what == "lit-pad" and x[0] in ("first", "or"):
            kids = list(x[1])
            for _ in range(rng.randint(1, 5)):
                never = rng.choice([["lit", "\x01" + rng.choice("abAB,;")], ["kw", "\x02" + rng.choice("ab"), None], ["char", "\x03\x04", ""], ["and", [["lit", "\x01"], ["lit", "a"]]]])
                kids.insert(rng.randint(0, len(kids)), never)
            return [x[0], kids]
        if what == "nest" and x[0] == "first" and len(x[1]) > 2:
            cut = rng.randint(1, len(x[1]) - 1)
            a, b = x[1][:cut], x[1][cut:]
            return ["first", ([["first", a]] if len(a) > 1 else a) + ([["first", b]] if len(b) > 1 else b)]
        return x

    return map_spec(sp, one)


class XBuilder(Builder):
    def b_streamlined(self, sp):
        return self.b(sp[1]).streamline()


def clean(sp):
    """shapes documented to be different: an option or repetition directly inside & is recognised by its class"""
    return sp


def outcome(call, s, names):
    out = attempt(call)
    if out[0] == "ok":
        r = out[1]
        return ("ok", at(s, r.end), view(r), named_plain(r, names))
    if out[0] == "fail":
        return ("fail",)
    return out


def judge(case, obs):
    sp = case["spec"]
    names = sorted(spec_names(sp))
    base = attempt(lambda: build(Builder({}), sp))
    if base[0] != "ok":
        # documented refusals (names twice) must be the same for everyone; C01 decides about the others
        obs.hit("refused at build")
        return
    base = base[1]
    expected = {}
    for s, pa in case["inputs"]:
        try:
            Ref(s, budget=3000).parse(sp, pa)
        except Fail:
            pass
        except (OutOfModel, RecursionError):
            continue
        expected[s, pa] = outcome(lambda: base.parse_string(s, parse_all=pa), s, names)
    rng = random.Random(case["seed"])
    if case["kind"] == "led":
        # the alternatives, tried by hand
        kids = [build(Builder({}), k) for k in sp[1]]
        for (s, pa), want in expected.items():
            if pa or s != s.lstrip():
                continue
            ends = [x.end for out in [attempt(lambda: k.parse_string(s)) for k in kids] if out[0] == "ok" for x in [out[1]]]
            obs.hit("choices made by hand")
            mine = at(s, (ends[0] if sp[0] == "first" else max(ends))) if ends else None
            if mine != (want[1] if want[0] == "ok" else None):
                return obs.violate("choice", "input=%r ends at %r, its alternatives tried one by one end at %r" % (s, want, ends))
    for route in case["routes"]:
        style = {}
        pre = "none"
        spec = sp
        builder = XBuilder
        if route in ("op", "mixed"):
            style = case["style"]
            style["op"] = True
        if route in ("finalize", "streamline", "copy", "twice"):
            pre = route
        if route in ("noop", "pname", "nomatch", "lit-pad", "nest", "copied-kids", "streamlined-kids"):
            spec = decorate(sp, rng, route)
        if route == "mixed":
            spec = decorate(decorate(decorate(sp, rng, "pname"), rng, "nest"), rng, "lit-pad")
            pre = rng.choice(["finalize", "streamline", "copy"])
        alt = attempt(lambda: build(builder(style), spec, pre))
        if alt[0] != "ok":
            obs.violate("route " + route, "refused by one route only: %r" % (alt,))
            return
        alt = alt[1]
        obs.distinct("route kinds", route)
        if route in ("lit-pad", "mixed"):
            obs.hit("dispatch tables compared")
        for (s, pa), want in expected.items():
            if route == "parse":
                got = outcome(lambda: alt.parse(s, pa), s, names)
            elif route == "file":
                got = outcome(lambda: alt.parse_file(io.StringIO(s), parse_all=pa), s, names)
            elif route == "parser":
                got = outcome(lambda: m.Parser(alt).parse(s, parse_all=pa), s, names)
            elif route == "matches":
                x = attempt(lambda: alt.matches(s, parse_all=pa))
                if want[0] in ("ok", "fail") and x != ("ok", want[0] == "ok"):
                    obs.violate("matches", "input=%r parse_all=%r matches()=%r parse=%r" % (s, pa, x, want))
                    return
                got = want
            else:
                got = outcome(lambda: alt.parse_string(s, parse_all=pa), s, names)
            if "deep" in (got[0], want[0]):
                continue
            if got != want:
                obs.violate("route " + route, "input=%r parse_all=%r\n plain=%r\n %s=%r\n spec=%r" % (s, pa, want, route, got, spec))
                return
            if want[0] == "ok":
                obs.hit("agreed on acceptance")
                if want[1] > 0:
                    obs.mark()
                obs.distinct("outcomes", want)
            else:
                obs.hit("agreed on refusal")
