"""C11: failures are reported as located parse exceptions"""
import itertools
import json
import random

from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, Fail, OutOfModel, Ref, sub_specs
from rv.monitor import Hang
from rv.real import at, attempt, draw_style, map_spec, plain_top

ID = "C11"
RULE = (
    "random grammars (terminals and some composites named) are given derived, mutated, multi-line and hostile texts; every rejection is monitored: "
    "it is a parse exception about that text, its location is inside it, line number, column, line and marked line are those of the location, message and "
    "representation render and agree with it, as does every cause below it; the location equals the furthest position where the reference was refused, the "
    "message names an element the reference tried there, and fail actions are called where the reference refuses their element. "
    "Non-trivial: the reported location is not the start of the text."
)
ASSUME = [
    "locations are compared modulo whitespace; grammars with lookbehind are only monitored for consistency, since which of the two positions to report is not specified",
    "documented arguments of fail actions are recognised by type, not by position",
]
NEED = {"locations equal to the furthest refusal": 5000, "named what was expected": 4000, "second line or later": 500, "fail actions": 1500, "causes inspected": 20000}
TERMS = ["lit", "lit", "lit2", "char", "word", "kw", "clit", "notin"]
OPTS = {
    "far": dict(terms=TERMS, combs=["and", "and", "first", "or", "opt", "zom", "oom", "many", "group", "suppress"]),
    "alts": dict(terms=TERMS, combs=["firstlit", "firstlit", "first", "or", "and", "and", "opt", "oom"]),
    "mixed": dict(terms=G.TERMS, combs=["and", "and", "first", "firstlit", "or", "many", "opt", "not", "ahead", "skipto", "combine", "all", "name", "group", "let"]),
    "wide": dict(stop=True, terms=G.TERMS + ["white", "wstart", "wend", "strstart", "empty", "nomatch"], combs=G.COMBS + ["all", "behind", "let", "firstlit", "ws"]),
    "fail": dict(terms=TERMS, combs=["and", "and", "and", "many", "oom", "zom", "opt", "group", "suppress", "first", "or"]),
}
HOSTILE = ["\x00", "\r", "\r\n", "\u2028", "\U0001f600", "\ud800", '"', "\\", "\t", "{", "%s", "{0}", "\x85", "\n\n", "\n"]


def plan(tier):
    k = 3 if tier == "quick" else 80
    return [("far", 8 * k, 90), ("alts", 6 * k, 90), ("mixed", 8 * k, 90), ("wide", 6 * k, 90), ("fail", 6 * k, 90)]


def gen(kind, rng):
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(1, 3)))
    n = [0]
    # keywords and boundaries are named already, and preferred to what has no name
    bare = ("lit", "char", "word")
    part, also = rng.choice([(1, 0.1), (1, 0.1), (1, 0), (0.5, 0), (0, 0.4)]) if kind != "fail" else (0.3, 0.2)

    def name(x):
        if not list(sub_specs(x)):
            p = part if x[0] in bare else 0 if x[0] == "ref" else 1
        elif x[0] in ("and", "first", "or", "many", "group", "oom"):
            p = also if kind != "mixed" else 0
        else:
            p = 0
        if rng.random() < p:
            n[0] += 1
            return ["pname", x, "T%dT" % n[0]]
        return x

    if kind != "wide":
        sp = map_spec(sp, name)
    ins = []
    for s in inputs(sp, rng, 7):
        if rng.random() < 0.3:
            s = "".join("\n" if c == " " and rng.random() < 0.5 else c for c in s)
        if kind == "wide":
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                i = rng.randint(0, len(s))
                s = s[:i] + rng.choice(HOSTILE) + s[i:]
        ins.append([s, rng.random() < 0.6])
    return {"spec": sp, "style": draw_style(rng), "inputs": ins}


def named(sp):
    out = [sp[2]] if sp[0] == "pname" else []
    for k in sub_specs(sp):
        out.extend(named(k))
    return out


class FRef(Ref):
    """also remembers which named elements were being tried at each refusal, and every refusal of a named element"""

    def __init__(self, *a, **k):
        Ref.__init__(self, *a, **k)
        self.names = []
        self.refused = {}
        self.around = {}
        self.calls = []

    def fail(self, i):
        if not self.mute:
            pos = at(self.s, i)
            # a name must be told if nothing of it was found, the names around it may be
            self.refused.setdefault(pos, set()).add(tuple(n for n, start in self.names if at(self.s, start) == pos))
            self.around.setdefault(pos, set()).update(n for n, start in self.names)
        Ref.fail(self, i)

    def _many(self, e, mn, mx, stop, i, ws):
        try:
            return Ref._many(self, e, mn, mx, stop, i, ws)
        except Fail:
            # what is to be repeated is expected where the text ends, though nothing was tried there
            if len(self.s) in self.refused:
                self.refused[len(self.s)].add(tuple(named(e)) or ())
            raise

    def x_pname(self, sp, i, ws):
        self.names.append((sp[2], i))
        try:
            return self.ev(sp[1], i, ws)
        except Fail:
            self.calls.append((sp[2], i))
            raise
        finally:
            self.names.pop()

    def parse(self, spec, parse_all=False, skip_lead=True):
        node = Ref.parse(self, spec, False, skip_lead)
        if parse_all:
            end = self.ws.skip(self.s, node.end)
            if self.s[end:].replace("\r\n", "\n").strip("\n"):
                self.names = [("StringEnd", end)]
                self.fail(end)
        return node


class FBuilder(Builder):
    def __init__(self, style, calls):
        Builder.__init__(self, style)
        self.calls = calls

    def b_pname(self, sp):
        def heard(*args):
            self.calls.append((sp[2], args))

        return self.b(sp[1]).set_parser_name(sp[2]).setFailAction(heard)


def consistent(e, s, obs, top=True):
    """-> what is wrong, or None"""
    loc = e.loc
    if not isinstance(loc, int) or not 0 <= loc <= len(s):
        return "location %r is outside the text" % (loc,)
    if e.string != s:
        return "is about another text %r" % (e.string,)
    before = s[:loc]
    lineno = len(before.split("\n"))
    tail = before.split("\n")[-1]
    line = tail + s[loc:].split("\n")[0]
    if (e.lineno, e.column, e.col) != (lineno, len(tail) + 1, len(tail) + 1):
        return "location %d is line %d column %d, reported %r" % (loc, lineno, len(tail) + 1, (e.lineno, e.column, e.col))
    if e.line != line:
        return "location %d is in line %r, reported %r" % (loc, line, e.line)
    if e.mark_inputline("<@>") != (tail + "<@>" + line[len(tail) :]).strip():
        return "marked line %r" % (e.mark_inputline("<@>"),)
    if e.mark_inputline() != (tail + ">!<" + line[len(tail) :]).strip():
        return "marked line %r" % (e.mark_inputline(),)
    where = "(at char %d), (line:%d, col:%d)" % (loc, lineno, len(tail) + 1)
    message = e.message
    if not message.endswith(where):
        return "message %r does not end in %s" % (message, where)
    if top:
        for text in (str(e), repr(e)):
            if where not in text:
                return "rendered as %r without %s" % (text, where)
        if loc >= len(s):
            if "found end of text" not in str(e):
                return "end of text not told: %r" % str(e)
        else:
            around = str(e)[: -len(where)].rstrip()
            if json.loads(around[around.rindex(', found "') + 8 :]) != s[loc : loc + 10]:
                return "found text: %r" % str(e)
        if str(e)[3:9] not in e or m.ParseException not in e or "\x01no such\x01" in e:
            return "membership"
        for name in ("lineno", "col", "line"):
            if name not in dir(e):
                return "dir() misses " + name
        if lineno > 1:
            obs.hit("second line or later")
    return None


def walk(e, limit=60):
    todo = [(e, e)]
    while todo and limit:
        x, parent = todo.pop()
        limit -= 1
        yield x, parent
        todo.extend((c, x) for c in list(x.causes)[:6] if isinstance(c, m.ParseException))


def judge(case, obs):
    sp = case["spec"]
    kind = case["kind"]
    calls = []
    e = attempt(lambda: (FBuilder(case["style"], calls) if kind == "fail" else Builder(case["style"])).b(sp))
    if e[0] == "deep":
        return
    if e[0] != "ok":
        # documented refusals of a grammar are not failures of a parse
        obs.hit("refused at build")
        return
    e = e[1]
    refused = attempt(lambda: e.finalize())
    if refused[0] != "ok":
        obs.hit("refused at build")
        return
    for s, pa in case["inputs"]:
        ref = FRef(s, budget=3000)
        modelled = kind != "wide"
        ok = None
        try:
            ref.parse(sp, pa)
            ok = True
        except Fail:
            ok = False
        except (OutOfModel, RecursionError):
            modelled = False
            if ref.budget < 0:
                continue
        del calls[:]
        got = attempt(lambda: e.parse_string(s, parse_all=pa))
        heard = list(calls)
        if got[0] == "deep":
            continue
        if got[0] == "exc":
            obs.violate("type", "input=%r parse_all=%r raised %s: %s" % (s, pa, got[1], got[2]))
            return
        if kind == "fail" and ok is not None:
            for name, args in heard:
                locs = [a for a in args if type(a) is int]
                errs = [a for a in args if isinstance(a, m.ParseException)]
                if len(args) != 4 or len(locs) != 1 or len(errs) != 1 or s not in [a for a in args if isinstance(a, str)]:
                    obs.violate("fail action", "input=%r arguments %r" % (s, args))
                    return
                if at(s, locs[0]) < len(s) and (name, at(s, locs[0])) not in [(n, at(s, i)) for n, i in ref.calls]:
                    obs.violate("fail action", "input=%r %s called for location %d, reference refuses it at %r" % (s, name, locs[0], ref.calls))
                    return
                obs.hit("fail actions")
            if not any(k in str(sp) for k in ("'first'", "'or'", "1, 1, None]")):
                # nothing can be left out; whether another is tried in whitespace at the very end depends on unspecified ends
                want = [(n, at(s, i)) for n, i in ref.calls if at(s, i) < len(s)]
                real = [(n, at(s, [a for a in args if type(a) is int][0])) for n, args in heard]
                real = [(n, i) for n, i in real if i < len(s)]
                if want != real:
                    obs.violate("fail action", "input=%r called %r, reference %r" % (s, real, want))
                    return
        if got[0] == "ok":
            continue
        err = got[1]
        try:
            for x, parent in walk(err):
                bad = consistent(x, s, obs, top=x is err)
                obs.hit("causes inspected")
                if bad:
                    obs.violate("consistency", "input=%r parse_all=%r %s: %s" % (s, pa, "exception" if x is err else "cause", bad))
                    return
                if x is not parent and x.loc > parent.loc:
                    obs.violate("consistency", "input=%r cause at %d is beyond its exception at %d" % (s, x.loc, parent.loc))
                    return
            texts = (str(err), repr(err), err.loc)
        except (Hang, RecursionError):
            raise
        except Exception as bad:
            obs.violate("rendering", "input=%r parse_all=%r %s: %s" % (s, pa, type(bad).__name__, bad))
            return
        if len(s) < 25 and hash_free_choice(s):
            again = attempt(lambda: e.parse_string(s, parse_all=pa))
            if again[0] != "fail" or (str(again[1]), again[1].loc) != (texts[0], texts[2]):
                obs.violate("repeat", "input=%r first %r then %r" % (s, texts[0], again))
                return
        obs.distinct("messages", texts[0])
        if err.loc > 0:
            obs.mark()
        if not modelled or ok is not False:
            continue
        if at(s, err.loc) != at(s, ref.far):
            obs.violate("location", "input=%r parse_all=%r reported %d, reference could not get past %d\n%s" % (s, pa, err.loc, ref.far, texts[0]))
            return
        obs.hit("locations equal to the furthest refusal")
        tried = ref.refused.get(at(s, ref.far), set())
        if tried and () not in tried and kind != "mixed":
            names = set(itertools.chain(*tried)) | ref.around[at(s, ref.far)]
            if not any(n in texts[0] for n in names):
                obs.violate("expected", "input=%r parse_all=%r tried at %d: %r\n%s" % (s, pa, ref.far, sorted(names), texts[0]))
                return
            obs.hit("named what was expected")


def hash_free_choice(s):
    return sum(map(ord, s)) % 3 == 0
