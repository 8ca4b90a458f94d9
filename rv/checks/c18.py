"""C18: one_of matches the longest listed alternative"""
import itertools

from rv import env as m
from rv.gen import G, inputs, mutate
from rv.model import Builder, Fail, N, OutOfModel, Ref
from rv.real import at, attempt, build, draw_style, map_spec, plain, plain_top

ID = "C18"
RULE = (
    "one_of() over hostile word sets (prefixes of one another, single characters, regular expression metacharacters, letters in both cases, spaces, line ends, duplicates, non-ascii), given as text, list, "
    "tuple, set, generator or keys, caseless or not, as keywords or not, alone and inside random grammars, parses texts made of the words, of pieces of them and of their mutations; "
    "match, end and returned word are compared with the longest listed word that matches there, at every position of the text. Non-trivial: more than one listed word matched at the position."
)
ASSUME = [
    "words are not empty (a Literal must have a character)",
    "of words equal but for case, any of them is the listed one when caseless",
    "letters whose upper and lower forms are not one to one are left out of caseless sets",
    "for a set the order of the words is unknown, only equal words depend on it",
]
NEED = {"word sets": 4000, "positions compared": 200000, "several words match": 9000, "in grammars": 5000, "keywords refused": 500, "caseless matches": 5000}
POOLS = {
    "plain": "ab",
    "mixed": "aAbB",
    "meta": ".^$*+?{}[]\\|()-/#&~",
    "ops": "<>=!+-*&|",
    "range": "-^]\\[a0z",
    "word": "abAB_01-$",
    "space": "a b\t\n",
    "other": "aé日\x01\U0001F600\xa0",
    "num": "0123456789.x{},",
}
ONE_TO_ONE = lambda w: all(len(c.lower()) == 1 and len(c.upper()) == 1 and c.lower().upper() == c.upper() and c.upper().lower() == c.lower() for c in w)


def plan(tier):
    k = 3 if tier == "quick" else 80
    return [("sets", 14 * k, 100), ("inside", 8 * k, 100)]


def word(rng, pool):
    return "".join(rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])))


def words(rng):
    pool = POOLS[rng.choice(sorted(POOLS))]
    if rng.random() < 0.2:
        pool = "".join(POOLS.values())
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 14])):
        if out and rng.random() < 0.45:
            w = rng.choice(out)
            c = rng.random()
            if c < 0.4:
                w = w + word(rng, pool)[:2]
            elif c < 0.6:
                w = w[: rng.randint(1, len(w))]
            elif c < 0.75:
                w = w.swapcase()
            elif c < 0.85:
                w = w[0] + word(rng, pool)
            out.append(w)
        else:
            out.append(word(rng, pool))
    if rng.random() < 0.05:
        # a lot of them
        out.extend("".join(p) for p in itertools.product(pool[:4], repeat=rng.choice([2, 3])))
    rng.shuffle(out)
    return out


def draw(rng):
    ws = words(rng)
    caseless, keyword = rng.random() < 0.35, rng.random() < 0.3
    if caseless:
        ws = [w for w in ws if ONE_TO_ONE(w)] or ["a"]
    form = rng.choice(["list", "list", "tuple", "set", "gen", "keys", "text", "text"])
    if form == "text":
        ws = [w for w in ws if len(w.split()) == 1 and w.split()[0] == w] or ["a"]
    if form == "set":
        # the order is lost
        seen = set()
        ws = [w for w in ws if not (w.lower() in seen or seen.add(w.lower()))]
    if rng.random() < 0.02:
        ws = []  # matches nothing
    return ["one_of", ws, caseless, keyword, form]


def spell(rng, ws, caseless):
    """a text of these words, or nearly"""
    parts = []
    for _ in range(rng.randint(1, 5)):
        w = rng.choice(ws or ["a", ""])
        if rng.random() < 0.25:
            w = w[: rng.randint(0, len(w))]
        if caseless and rng.random() < 0.6:
            w = "".join(rng.choice([c.lower(), c.upper()]) if ONE_TO_ONE(c) else c for c in w)
        parts.append(w)
        if rng.random() < 0.25:
            parts.append(rng.choice([" ", "", "a", "_", "-", "\n", "0"]))
    s = "".join(parts)
    return mutate(s, rng) if rng.random() < 0.25 else s


def gen(kind, rng):
    if kind == "sets":
        sp = draw(rng)
        return {"spec": sp, "inputs": [spell(rng, sp[1], sp[2]) for _ in range(8)], "ws": rng.choice(["std", "std", "none"]), "style": draw_style(rng)}
    g = G(rng, terms=["lit", "lit2", "word", "char", "notin", "kw"], combs=["and", "and", "first", "or", "opt", "zom", "oom", "group", "many", "combine", "not", "ahead", "skipto", "name", "firstlit"])
    while True:
        sp = g.spec(rng.randint(1, 3))
        used = []

        def put(x):
            if x[0] in ("lit", "word", "char", "kw", "clit") and rng.random() < 0.6:
                w = draw(rng)
                used.append(w)
                return w
            return x

        sp = map_spec(sp, put)
        if used:
            break
    every = [w for u in used for w in u[1]] + ["a", "b", "ab", "("]
    return {"spec": sp, "inputs": [spell(rng, every, True) for _ in range(10)], "ws": "std", "style": draw_style(rng), "pre": rng.choice(["none", "finalize", "copy", "streamline"])}


class ORef(Ref):
    several = keywords = caseless = 0

    def candidates(self, sp, i):
        _, ws, caseless, keyword, _ = sp
        out = []
        for w in ws:
            e = i + len(w)
            t = self.s[i:e]
            if t != w and not (caseless and len(t) == len(w) and t.lower() == w.lower()):
                continue
            if keyword and e < len(self.s) and self.s[e] in self.kw:
                self.keywords += 1
                continue
            out.append(w)
        return out

    def x_one_of(self, sp, i, ws):
        c = self.candidates(sp, i)
        if not c:
            self.fail(i)
        best = max(c, key=len)
        if len({len(w) for w in c}) > 1:
            self.several += 1
        if sp[2]:
            self.caseless += 1
        return N("one_of", i, i + len(best), [best])


class OBuilder(Builder):
    def b_one_of(self, sp):
        _, ws, caseless, keyword, form = sp
        given = {"list": list, "tuple": tuple, "set": set, "gen": iter, "keys": lambda x: dict.fromkeys(x).keys(), "text": " ".join}[form](ws)
        kw = {}
        if caseless:
            kw["caseless"] = True
        if keyword:
            kw["as_keyword"] = True
        return m.one_of(given, **kw)


def judge(case, obs):
    sp = case["spec"]
    top = ["and", [sp, ["empty"]]]
    inside = case["kind"] == "inside"

    def make():
        if case["ws"] == "none":
            with m.NO_WHITESPACE:
                return build(OBuilder(case["style"]), top, "finalize")
        return build(OBuilder(case["style"]), top, case.get("pre", "none"))

    b = attempt(make)
    if b[0] != "ok":
        if inside:
            obs.hit("refused at build")
            return
        return obs.violate("build", "%r" % (b,))
    e = b[1]
    if not inside:
        obs.hit("word sets")
    spots = []
    for s in case["inputs"]:
        spots.append(s)
        if not inside:
            spots.extend(s[i:] for i in range(1, len(s)))
    for s in dict.fromkeys(spots):
        ref = ORef(s, budget=3000)
        if case["ws"] == "none":
            from rv.model import mkws

            ref = ORef(s, ws=mkws({"chars": ""}), budget=3000)
        try:
            node = ref.parse(top)
        except Fail:
            node = None
        except (OutOfModel, RecursionError):
            continue
        got = attempt(lambda: e.parse_string(s))
        if got[0] == "deep":
            continue
        obs.hit("positions compared")
        obs.hit("several words match", ref.several)
        obs.hit("keywords refused", ref.keywords)
        obs.hit("caseless matches", ref.caseless)
        if inside:
            obs.hit("in grammars")
        if ref.several:
            obs.mark()
        if (got[0] == "ok") != (node is not None) or got[0] == "exc":
            return obs.violate("match", "input=%r %r, reference %s" % (s, got if got[0] != "ok" else plain(got[1]), "fails" if node is None else node.view()))
        if node is None:
            continue
        if at(s, got[1].end) != at(s, node.end):
            return obs.violate("end", "input=%r %r ends at %d, reference %r at %d" % (s, plain(got[1]), got[1].end, node.view(), node.end))
        mine, theirs = plain(got[1]), node.view()
        if inside and any(u for u in [sp]):
            same = repr(mine) == repr(theirs) or fold(mine) == fold(theirs)
        else:
            # the word as it is listed (for keywords, too)
            same = mine == theirs or (sp[2] and fold(mine) == fold(theirs) and all(x in sp[1] for x in mine))
        if not same:
            return obs.violate("token", "input=%r gives %r, reference %r" % (s, mine, theirs))
        obs.distinct("matches", repr((sp, theirs)))


def fold(x):
    return repr(x).lower()
