"""C05: whitespace and ignored text are skipped where, and only where, the settings say"""
import random
import re

from rv import env as m
from rv.gen import G, derive, mutate
from rv.model import Builder, Fail, OutOfModel, Ref, mkws, view
from rv.monitor import Hang
from rv.real import at, attempt, draw_style

ID = "C05"
RULE = (
    "mixed: two or three grammars are built under different whitespace settings (characters, ignore expressions given as patterns, literals, "
    "alternatives, comment helpers), with further settings nested inside, then run in random interleaved order on shared and separate text "
    "objects, with scans left half done and parses started inside actions; every outcome is compared with the reference interpreter. "
    "changing: characters and ignored patterns change in the middle of a block, the same text objects are parsed before and after each change. "
    "padding: a text derived from the grammar is padded differently between tokens, tokens must not move. "
    "Non-trivial: skippable text was skipped in an accepted input."
)
ASSUME = ["what is skippable at the end of a match is not compared (absent optional elements may own it)", "settings are made before the elements under them are built"]
NEED = {"accepted": 5000, "rejected": 1500, "padded agree": 1000, "half done scans": 100, "parses inside actions": 100, "settings": 15, "parses after a change": 5000}

CONFS = [
    {"chars": " \t\n\r"},
    {"chars": " \t\n\r"},
    {"chars": ""},
    {"chars": " "},
    {"chars": "\t "},
    {"chars": "_"},
    {"chars": "-]^"},
    {"chars": " ~.\\"},
    {"chars": " \n", "ignore": [["re", r"#[^\n]*"]]},
    {"chars": " ", "ignore": [["re", r"#[^\n]*\n"], ["re", r"\{[^}]*\}"]]},
    {"chars": "", "ignore": [["lit", "~"]]},
    {"chars": " ", "ignore": [["lit", "."], ["lit", "~~"]]},
    {"chars": " \t", "ignore": [["cstyle"]]},
    {"chars": " \n", "ignore": [["first", ["--", "%"]]]},
    {"chars": "\n", "ignore": [["python"]]},
    {"chars": " \n", "ignore": [["dbl"], ["quoted"]]},
    {"chars": " ", "ignore": [["word", "!?"]]},
    {"chars": "", "ignore": [["char", "-_"], ["re", "<[^>]*>"]]},
]
PAT = {"cstyle": r"/\*(?:.*?)\*/", "python": r"<!--[\s\S]*?-->", "dbl": r"//[^\n]*", "quoted": r'"[^"\n]*"'}
SAMPLES = {"cstyle": ["/**/", "/* a * / b */"], "python": ["<!---->", "<!-- a\n-->"], "dbl": ["//\n", "// a\n"], "quoted": ['""', '"a b"']}


def pattern(ig):
    k = ig[0]
    if k == "re":
        return ig[1]
    if k == "lit":
        return re.escape(ig[1])
    if k == "first":
        return "|".join(map(re.escape, ig[1]))
    if k in ("word",):
        return "[" + re.escape(ig[1]) + "]+"
    if k == "char":
        return "[" + re.escape(ig[1]) + "]"
    return PAT[k]


def element(ig):
    k = ig[0]
    if k == "re":
        return m.Regex(ig[1])
    if k == "lit":
        return m.Literal(ig[1])
    if k == "first":
        return m.MatchFirst([m.Literal(x) for x in ig[1]])
    if k == "word":
        return m.Word(ig[1])
    if k == "char":
        return m.Char(ig[1])
    if k == "cstyle":
        return m.helpers.cStyleComment
    if k == "python":
        return m.helpers.html_comment
    if k == "dbl":
        return m.Regex(r"//[^\n]*")
    return m.QuotedString('"')


def sample(ig, rng):
    k = ig[0]
    if k == "re":
        return {"#": ["#\n", "# a\n", "#,1\n"], "\\": ["{}", "{ a\n;}"], "<": ["<>", "<a ->"]}[ig[1][0]][rng.randint(0, 1)]
    if k == "lit":
        return ig[1]
    if k == "first":
        return rng.choice(ig[1])
    if k in ("word", "char"):
        return rng.choice(ig[1])
    return rng.choice(SAMPLES[k])


def rws(conf):
    return mkws({"chars": conf["chars"], "ignore": [pattern(i) for i in conf.get("ignore", ())]})


class B(Builder):
    def context(self, conf):
        return _Ctx(conf)


class _Ctx(object):
    def __init__(self, conf):
        self.w = m.Whitespace(conf["chars"])
        self.conf = conf

    def __enter__(self):
        c = self.w.__enter__()
        igs = [element(i) for i in self.conf.get("ignore", ())]
        if len(igs) == 2 and self.conf["chars"] == " ":
            c.add_ignore(*igs)
        else:
            for i in igs:
                c.add_ignore(i)
        return c

    def __exit__(self, *a):
        return self.w.__exit__(*a)


class R(Ref):
    def x_ws(self, sp, i, ws):
        return self.ev(sp[2], i, rws(sp[1]))


    def x_many(self, sp, i, ws):
        if sp[2] == sp[3] == 1 and sp[4] is None:
            return self.ev(sp[1], i, ws)  # exactly one is the expression itself
        return Ref.x_many(self, sp, i, ws)


class GW(G):
    def spec(self, depth):
        if depth > 0 and self.rng.random() < self.wsp:
            saved = self.refs
            self.refs = []
            out = ["ws", self.rng.choice(CONFS), ["and", [self.solid(depth - 1), self.spec(depth - 1)]]]
            self.refs = saved
            return out
        return G.spec(self, depth)


TERMS = ["lit", "lit", "lit2", "word", "char", "kw", "clit", "notin", "any", "re", "strend", "lineend"]
COMBS = ["and", "and", "and", "first", "firstlit", "or", "many", "opt", "zom", "oom", "group", "suppress", "not", "ahead", "skipto", "combine", "let", "all"]
PTERMS = ["lit", "lit", "lit2", "word", "char", "kw", "clit"]
PCOMBS = ["and", "and", "and", "first", "opt", "zom", "oom", "group", "suppress", "many", "let"]


def plan(tier):
    k = 3 if tier == "quick" else 60
    return [("mixed", 16 * k, 60), ("padding", 8 * k, 120), ("changing", 4 * k, 120)]


def pad(conf, rng, least=0):
    out = ""
    for _ in range(rng.randint(least, 3)):
        igs = conf.get("ignore", ())
        if igs and (not conf["chars"] or rng.random() < 0.5):
            out += sample(rng.choice(igs), rng)
        elif conf["chars"]:
            out += rng.choice(conf["chars"])
    return out


def strings(sp):
    if isinstance(sp, str):
        yield sp
    elif isinstance(sp, list):
        for x in sp[1:] if sp and isinstance(sp[0], str) else sp:
            yield from strings(x)
    elif isinstance(sp, dict):
        for x in sp.values():
            yield from strings(x)


def gen(kind, rng):
    if kind == "changing":
        # NO ALTERNATIVES: THEIR FIRST CHARACTERS ARE TAKEN WHEN THEY ARE BUILT
        g = GW(rng, terms=[t for t in PTERMS if t != "kw"], combs=["and", "and", "opt", "zom", "oom", "group", "suppress", "many"], alpha="abc", punct=",;(")
        g.wsp = 0
        sp = ["and", [g.solid(rng.randint(0, 1)), g.spec(rng.randint(1, 2)), ["empty"]]]
        steps = [rng.choice(CONFS)]
        for _ in range(rng.randint(1, 4)):
            last = dict(steps[-1])
            if rng.random() < 0.4:
                last["chars"] = rng.choice(CONFS)["chars"]
            else:
                more = rng.choice([c for c in CONFS if c.get("ignore")])["ignore"]
                last["ignore"] = last.get("ignore", []) + [i for i in more if i not in last.get("ignore", [])]
            steps.append(last)
        texts = []
        for c in steps:
            for _ in range(3):
                texts.append(pad(c, rng) + derive(sp, rng, sep=lambda: pad(c, rng)))
        return {"steps": steps, "spec": sp, "style": draw_style(rng), "texts": texts}
    if kind == "padding":
        conf = rng.choice([c for c in CONFS if c["chars"] or c.get("ignore")])
        ident = "_" in conf["chars"] or any("_" in str(i) for i in conf.get("ignore", ()))
        g = GW(rng, terms=[t for t in PTERMS if not (ident and t == "kw")], combs=PCOMBS, alpha="abc", punct=",;(", rec=True)
        g.wsp = 0
        sp = ["and", [g.spec(rng.randint(1, 3)), ["empty"]]]
        skipped = set(conf["chars"] + "".join(str(i[1:]) for i in conf.get("ignore", ())) + "/*<>#\"")
        if any(c in skipped and not c.isalnum() for t in strings(sp) for c in t if c not in ",;("):
            return None  # padding could be read as a token
        return {"conf": conf, "spec": sp, "style": draw_style(rng), "seed": rng.randrange(10**9)}
    grams = []
    texts = []
    for _ in range(rng.randint(2, 3)):
        conf = rng.choice(CONFS)
        g = GW(rng, terms=TERMS, combs=COMBS, stop=True, punct=",;(")
        g.wsp = rng.choice([0, 0.15, 0.3])
        sp = ["and", [g.spec(rng.randint(1, 3)), ["empty"]]]
        grams.append({"conf": conf, "spec": sp, "style": draw_style(rng)})
        for _ in range(4):
            s = derive(sp, rng, sep=lambda: pad(conf, rng)) if rng.random() < 0.6 else derive(sp, rng, sep=lambda: pad(rng.choice(CONFS), rng))
            if rng.random() < 0.4:
                s = mutate(s, rng, "abc01,;( \n#~.-_")
            s = pad(conf, rng) + s + (pad(conf, rng) if rng.random() < 0.4 else "")
            texts.append(s[:60])
    rng.shuffle(texts)
    order = [[rng.randrange(len(grams)), rng.randrange(len(texts)), rng.choice(["parse", "parse", "parse", "all", "fresh", "half", "inside", "fin"])] for _ in range(26)]
    return {"grams": grams, "texts": texts, "order": order, "seed": rng.randrange(10**6)}


def top(conf, s, sp, parse_all):
    ref = R(s, ws=rws(conf), budget=4000)
    return ref.parse(sp, parse_all)


def confs_of(sp, acc):
    from rv.model import sub_specs

    if sp[0] == "ws":
        acc.append(sp[1])
    for k in sub_specs(sp):
        confs_of(k, acc)
    return acc


def judge(case, obs):
    if case["kind"] == "padding":
        return padding(case, obs)
    if case["kind"] == "changing":
        return changing(case, obs)
    built = []
    for g in case["grams"]:

        def go():
            b = B(g["style"])
            with b.context(g["conf"]):
                return b.b(g["spec"])

        out = attempt(go)
        if out[0] != "ok":
            obs.violate("build", "%r" % (out,))
            return
        e = out[1]
        confs = confs_of(g["spec"], [g["conf"]])
        for c in confs:
            obs.distinct("settings", c)
        built.append((e, g, merged(confs)))
    want_cache = {}
    half = []

    def want(gi, ti, pa):
        key = (gi, ti, pa)
        if key not in want_cache:
            g, s = case["grams"][gi], case["texts"][ti]
            try:
                n = top(g["conf"], s, g["spec"], pa)
                want_cache[key] = ("ok", built[gi][2].skip(s, n.end), n.view())
            except Fail:
                want_cache[key] = ("fail",)
            except (OutOfModel, RecursionError):
                want_cache[key] = None
        return want_cache[key]

    def real(e, norm, s, pa):
        def go():
            r = e.parse_string(s, parse_all=pa)
            return (norm.skip(s, r.end), view(r))

        out = attempt(go)
        if out[0] == "ok":
            return ("ok",) + out[1]
        if out[0] == "fail":
            return ("fail",)
        return out

    def check(gi, ti, pa, e, s, how):
        w = want(gi, ti, pa)
        if w is None:
            obs.hit("undefined for the model")
            return True
        got = real(e, built[gi][2], s, pa)
        if got[0] == "deep":
            return True
        if got != w:
            obs.violate("skip", "%s grammar %d on text %d %r (parse_all=%s)\n real=%r\n reference=%r" % (how, gi, ti, case["texts"][ti], pa, got, w))
            return False
        if w[0] == "ok":
            obs.hit("accepted")
            s = case["texts"][ti]
            if any(c in s for c in " \t\n_-#~.{/<!") and w[2]:
                obs.mark()
        else:
            obs.hit("rejected")
        return True

    rng = random.Random(case["seed"])
    for gi, ti, how in case["order"]:
        e, g, norm = built[gi]
        s = case["texts"][ti]
        if how == "half":

            def start():
                it = iter(e.scan_string(s))
                next(it, None)
                return it

            if want(gi, ti, False) is not None:
                try:
                    out = attempt(start, 2)
                except Hang:  # an exponential grammar at a later position; C07 judges scans
                    continue
                if out[0] == "ok":
                    half.append(out[1])
                    obs.hit("half done scans")
            continue
        if how == "inside":
            # a parse of another text started by an action of a parse
            oi, oj = rng.randrange(len(built)), rng.randrange(len(case["texts"]))
            if want(oi, oj, False) is None or want(gi, ti, False) is None:
                continue
            inner = []

            def act(t, i, x):
                inner.append(real(built[oi][0], built[oi][2], case["texts"][oj], False))

            with_act = attempt(lambda: e.add_parse_action(act))
            if with_act[0] != "ok":
                obs.violate("build", repr(with_act))
                return
            if not check(gi, ti, False, with_act[1], s, how):
                return
            obs.hit("parses inside actions", len(inner))
            for got in inner:
                if got[0] != "deep" and got != want(oi, oj, False):
                    obs.violate("skip inside", "grammar %d on %r inside an action: real=%r reference=%r" % (oi, case["texts"][oj], got, want(oi, oj, False)))
                    return
            continue
        if how == "fresh":
            s = s[:1] + s[1:] if len(s) > 1 else str(s)
            s = "".join(list(s))
        if how == "fin":
            f = attempt(lambda: e.finalize())
            if f[0] != "ok":
                obs.violate("build", repr(f))
                return
            w = want(gi, ti, False)
            if w is None:
                continue
            got = attempt(lambda: f[1].parse(s))
            if got[0] == "deep":
                continue
            got = ("ok", norm.skip(s, got[1].end), view(got[1])) if got[0] == "ok" else got[:1]
            if got != w:
                obs.violate("skip", "finalized grammar %d on %r\n real=%r\n reference=%r" % (gi, s, got, w))
                return
            continue
        if not check(gi, ti, how == "all", e, s, how):
            return
    for it in half:
        attempt(lambda: next(it, None))


_merged = {}


def merged(confs):
    """skips whatever any of the settings skips: ends are compared modulo that"""
    key = repr(confs)
    if key not in _merged:
        if len(_merged) > 500:
            _merged.clear()
        ig = []
        for c in confs:
            ig += [pattern(i) for i in c.get("ignore", ())]
        _merged[key] = mkws({"chars": "".join(sorted(set("".join(c["chars"] for c in confs)))), "ignore": sorted(set(ig))})
    return _merged[key]


def padding(case, obs):
    conf, sp = case["conf"], case["spec"]

    def go():
        b = B(case["style"])
        with b.context(conf):
            return b.b(sp)

    out = attempt(go)
    if out[0] != "ok":
        obs.violate("build", "%r" % (out,))
        return
    e = out[1]
    for j in range(4):
        k = "%s/%d" % (case["seed"], j)
        texts = []
        for v in range(3):
            prng = random.Random("%s/%d" % (k, v))
            texts.append(pad(conf, prng) + derive(sp, random.Random(k), sep=lambda: pad(conf, prng, 1)))
        views = []
        for t in texts:
            try:
                top(conf, t, sp, False)
            except Fail:
                pass
            except (OutOfModel, RecursionError):
                obs.hit("undefined for the model")
                return
            o = attempt(lambda: view(e.parse_string(t)))
            if o[0] == "deep":
                return
            views.append(o[:2] if o[0] == "ok" else o[:1])
        obs.distinct("settings", conf)
        if not all(v == views[0] for v in views):
            obs.violate("padding", "only the padding differs, but the tokens do too: %r" % list(zip(texts, views)))
            return
        if views[0][0] == "ok" and views[0][1]:
            obs.hit("padded agree")
            obs.mark()


def changing(case, obs):
    """settings that change in the middle of a block: the next parse (of the same text objects) skips as they say then"""
    sp, steps = case["spec"], case["steps"]

    def go():
        b = B(case["style"])
        ctx = b.context(steps[0])
        white = ctx.__enter__()
        try:
            e = b.b(sp)
            for n, conf in enumerate(steps):
                if n:
                    last = steps[n - 1]
                    if conf["chars"] != last["chars"]:
                        white.set_whitespace(conf["chars"])
                    new = [i for i in conf.get("ignore", []) if i not in last.get("ignore", [])]
                    with m.NO_WHITESPACE:
                        new = [element(i) for i in new]
                    if new:
                        white.add_ignore(*new)
                norm = rws(conf)
                # THE LAST TEXT BEFORE THE CHANGE IS THE FIRST AFTER IT
                for t in case["texts"][:: -1 if n % 2 else 1]:
                    try:
                        w = top(conf, t, sp, False)
                        w = ("ok", norm.skip(t, w.end), w.view())
                    except Fail:
                        w = ("fail",)
                    except (OutOfModel, RecursionError):
                        continue
                    got = attempt(lambda: e.parse_string(t))
                    if got[0] == "deep":
                        continue
                    got = ("ok", norm.skip(t, got[1].end), view(got[1])) if got[0] == "ok" else got[:1] if got[0] == "fail" else got
                    if got != w:
                        obs.violate("changed settings", "after %d changes, on %r\n real=%r\n reference=%r" % (n, t, got, w))
                        return
                    obs.hit("parses after a change" if n else "parses before a change")
                    if n and w[0] == "ok" and w[2]:
                        obs.mark()
        finally:
            ctx.__exit__(None, None, None)

    out = attempt(go)
    if out[0] != "ok":
        obs.violate("build", "%r" % (out,))
