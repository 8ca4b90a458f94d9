"""C02: each terminal matches exactly its documented set of strings"""
import unicodedata

from rv import env as m
from rv.model import Builder, Fail, Ref, RWs, view
from rv.real import attempt

ID = "C02"
RULE = (
    "one terminal with random arguments over hostile alphabets (regular-expression metacharacters, ranges, control characters, "
    "accents, CJK, both cases, whitespace) is tried at every position of random texts biased towards its own characters; accept, end and "
    "tokens at each position are compared with a predicate written from the documentation. Non-trivial: the terminal matched somewhere."
)
ASSUME = ["predicates in rv/model.py (x_lit ... x_re) state the documentation", "caseless terminals are given characters whose upper and lower case map one to one (others: known finding)"]
NEED = {"matched": 5000, "refused": 5000, "terminal kinds matched": 18}
OPTS = ["lit", "clit", "kw", "ckw", "word", "word", "wordkw", "char", "charkw", "notin", "any", "close", "white", "wstart", "wend", "linestart", "lineend", "strstart", "strend", "empty", "nomatch", "uword"]

META = ".^$*?+-{}[]\\|()/\"'#&~,:;<>=!@%_`"
PLAIN = "abcxyzABCXYZ0129"
CTRL = "\x00\x05\x06\x07\x08\x0b\x0c\x1b\x7f"
WHITE = " \t\n\r"
UNI = "éÉñÑΩωжЖ中文日\U0001f600\u00a0ﬀ"
FAMILIES = [PLAIN, META, PLAIN + META, META + WHITE, CTRL + "ab", "abcdefgh", "+,-./", "\\]^_", "XYZ[\\]^_`abc", "()*+,-", "{|}~", UNI + "ab", PLAIN + META + WHITE + CTRL + UNI, "aA", "ab\n", "019", "$%&'"]
CASES = [c for c in PLAIN + META + WHITE + CTRL + UNI if len(c.lower()) == 1 == len(c.upper()) and c.lower().upper() == c.upper() and c.upper().lower() == c.lower()]
SETS = ["Latin1", "LatinA", "LatinB", "Greek", "Cyrillic", "Chinese", "Korean", "Thai", "Arabic", "Hebrew", "Devanagari"]


# the blocks of characters each set stands for (Unicode charts, and the subranges of Greek Extended that are assigned)
BLOCKS = {
    "Latin1": [(0x20, 0x7E), (0xA0, 0xFF)],
    "LatinA": [(0x100, 0x17F)],
    "LatinB": [(0x180, 0x24F)],
    "Greek": [(0x370, 0x3FF), (0x1F00, 0x1FFE)],
    "Cyrillic": [(0x400, 0x4FF)],
    "Chinese": [(0x4E00, 0x9FFF), (0x3000, 0x303F)],
    "Japanese.Kanji": [(0x4E00, 0x9FBF), (0x3000, 0x303F)],
    "Japanese.Hiragana": [(0x3040, 0x309F)],
    "Japanese.Katakana": [(0x30A0, 0x30FF)],
    "Korean": [(0xAC00, 0xD7AF), (0x1100, 0x11FF), (0x3130, 0x318F), (0xA960, 0xA97F), (0xD7B0, 0xD7FF), (0x3000, 0x303F)],
    "Thai": [(0xE01, 0xE3A), (0xE3F, 0xE5B)],
    "Arabic": [(0x600, 0x61B), (0x61E, 0x77F)],
    "Hebrew": [(0x590, 0x5FF)],
    "Devanagari": [(0x900, 0x97F), (0xA8E0, 0xA8FF)],
}
BLOCKS["Japanese"] = BLOCKS["Japanese.Kanji"] + BLOCKS["Japanese.Hiragana"] + BLOCKS["Japanese.Katakana"]
BLOCKS["CJK"] = BLOCKS["Chinese"] + BLOCKS["Japanese"] + BLOCKS["Korean"]
KINDS_OF = {
    "alphas": str.isalpha,
    "nums": str.isdigit,
    "alphanums": lambda c: c.isalpha() or c.isdigit(),
    "printables": lambda c: not c.isspace(),
}
GREEK_GAPS = {c for c in range(0x1F00, 0x1FFF) if unicodedata.name(chr(c), "") == ""}


LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
ASCII = {
    "alphas": set(LETTERS),
    "nums": set("0123456789"),
    "hexnums": set("0123456789ABCDEFabcdef"),
    "alphanums": set(LETTERS + "0123456789"),
    "printables": {chr(c) for c in range(0x21, 0x7F)},
}
BLOCKS["ascii"] = [(0x21, 0x7E), (0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A), (0x61, 0x66)]


def set_of(name, attr):
    if name == "ascii":
        return ASCII[attr]
    if "+" in name:
        a, b = name.split("+")
        return set_of(a, attr) | set_of(b, attr)
    gaps = GREEK_GAPS if name == "Greek" else ()
    return {chr(c) for a, z in BLOCKS[name] for c in range(a, z + 1) if c not in gaps and KINDS_OF[attr](chr(c))}


def fixed_cases(tier):
    # sets made of others come after these: what one remembers must not be taken for the other
    for name in sorted(set(BLOCKS) - {"ascii", "CJK"}) + ["CJK"]:
        for attr in sorted(KINDS_OF):
            yield {"kind": "set", "name": name, "attr": attr}
    for a in sorted(set(BLOCKS) - {"ascii", "CJK"}):
        for b in sorted(set(BLOCKS) - {"ascii", "CJK", a}):
            if len(BLOCKS[a]) < 4 and len(BLOCKS[b]) < 4:
                yield {"kind": "set", "name": a + "+" + b, "attr": sorted(KINDS_OF)[(len(a) + 3 * len(b)) % 4]}
    for attr in sorted(ASCII):
        yield {"kind": "set", "name": "ascii", "attr": attr}


def judge_set(case, obs):
    """a word (and a character) of a ready-made set matches every character of its blocks, and no other"""
    want = set_of(case["name"], case["attr"])
    where = m.utils.parsing_unicode
    names = case["name"].split("+")
    if case["name"] == "ascii":
        where = m.utils
    elif len(names) == 2:
        # a set of the user, made of two others
        try:
            bases = []
            for name in names:
                base = m.utils.parsing_unicode
                for step in name.split("."):
                    base = getattr(base, step)
                if case["attr"] != "nums":
                    getattr(base, case["attr"])
                bases.append(base)
            where = type("Both", tuple(bases), {"_ranges": []})
        except TypeError:
            return  # not every pair can be the bases of one class
    else:
        for step in case["name"].split("."):
            where = getattr(where, step)
    chars = getattr(where, case["attr"])
    if len(set(chars)) != len(chars) and case["attr"] != "alphanums":
        obs.violate("set", "%s.%s has repeated characters" % (case["name"], case["attr"]))
        return
    near = {chr(c + d) for n in names for a, z in BLOCKS[n] for c in (a, z) for d in range(-3, 4)}
    near |= set("aZ09 _-\u00e9\u03a9\u0416\u4e2d\u00a0\u2003\u0660\u0967")
    if not want:
        if chars:
            obs.violate("set", "%s.%s should be empty, not %r" % (case["name"], case["attr"], chars[:20]))
        return
    with m.Whitespace(""):
        run = m.Word(chars)
        one = m.Char(chars)
    text = "".join(sorted(want))
    got = attempt(lambda: run.parse_string(text, parse_all=True).as_list())
    if got != ("ok", [text]):
        odd = [hex(ord(c)) for c in sorted(want) if attempt(lambda: one.parse_string(c))[0] != "ok"]
        obs.violate("set", "Word(%s.%s) does not match all of its characters: %s" % (case["name"], case["attr"], odd[:20]))
        return
    for c in sorted(near | (set(chars) - want)):
        a = attempt(lambda: one.parse_string(c, parse_all=True))[0]
        if (a == "ok") != (c in want):
            obs.violate("set", "Char(%s.%s) on %s: %s, expected %s" % (case["name"], case["attr"], hex(ord(c)), a, c in want))
            return
        obs.hit("characters at the edge of a set")
    obs.hit("characters of sets", len(want))
    obs.mark()


def plan(tier):
    k = 4 if tier == "quick" else 120
    return [(t, k, 260) for t in sorted(set(OPTS))] + [("word", k, 261), ("char", k, 262)]


def some(rng, fam, lo=1, hi=6):
    return "".join(rng.sample(fam, min(len(fam), rng.randint(lo, hi))))


def word(rng, fam, hi=4):
    return "".join(rng.choice(fam) for _ in range(rng.randint(1, hi)))


def gen(kind, rng):
    fam = "".join(sorted(set(rng.choice(FAMILIES))))
    if kind in ("clit", "ckw"):
        fam = "".join(c for c in fam if c in CASES) or "aA"
    text_fam = fam
    if kind == "lit":
        sp = ["lit", word(rng, fam)]
    elif kind == "clit":
        sp = ["clit", word(rng, fam)]
    elif kind in ("kw", "ckw"):
        fam = fam.replace("\n", "") or "a"  # a newline is no identifier character
        sp = [kind, word(rng, fam), None if rng.random() < 0.5 else some(rng, fam)]
    elif kind in ("word", "wordkw", "uword"):
        if kind == "uword":
            name = rng.choice(SETS)
            chars = getattr(getattr(m.utils.parsing_unicode, name), rng.choice(["alphas", "alphanums", "printables"]))
            text_fam = "".join(rng.sample(chars, min(len(chars), 8))) + "aZ 0-中Ω"
            init = chars
            body = None
        else:
            init = some(rng, fam)
            body = None if rng.random() < 0.5 else some(rng, fam)
        mn, mx, ex = 1, None, 0
        c = rng.random()
        if c < 0.25:
            mn = rng.randint(1, 3)
        elif c < 0.5:
            mn = rng.randint(1, 3)
            mx = mn + rng.randint(0, 3)
        elif c < 0.65:
            ex = rng.randint(1, 4)
        exclude = ""
        if kind != "uword" and rng.random() < 0.3:
            exclude = some(rng, fam, 1, 2)
            if not set(init) - set(exclude) or not set(body or init) - set(exclude):
                exclude = ""  # an empty set of characters has no documented meaning
        sp = ["word", init, body, mn, mx, ex, exclude]
        if kind == "wordkw":
            sp = ["wordkw"] + sp[1:]
    elif kind in ("char", "charkw"):
        inc = some(rng, fam)
        exc = ""
        c = rng.random()
        if c < 0.25:
            inc, exc = "", inc
        elif c < 0.45:
            exc = some(rng, fam, 1, 2)
            if not set(inc) - set(exc):
                exc = ""
        sp = [kind, inc, exc]
    elif kind == "notin":
        chars = some(rng, fam)
        mn, mx, ex = 1, 0, 0
        c = rng.random()
        if c < 0.3:
            mn = rng.randint(1, 3)
        elif c < 0.6:
            mn = rng.randint(1, 3)
            mx = mn + rng.randint(0, 3)
        elif c < 0.75:
            ex = rng.randint(1, 4)
        sp = ["notin", chars, mn, mx, ex]
    elif kind == "close":
        sp = ["close", word(rng, fam, 5), rng.randint(0, 3)]
    elif kind == "white":
        ch = rng.choice([" ", " \t", "\n", " \t\r\n", "\r\n", "\t", " \u00a0\u2003"])
        mn, mx, ex = 1, 0, 0
        c = rng.random()
        if c < 0.3:
            mn = rng.randint(1, 3)
        elif c < 0.6:
            mn = rng.randint(1, 2)
            mx = mn + rng.randint(0, 2)
        elif c < 0.75:
            ex = rng.randint(1, 3)
        sp = ["white", ch, mn, mx, ex]
        text_fam = ch * 3 + "a" + WHITE
    elif kind in ("wstart", "wend"):
        sp = [kind, some(rng, "".join(c for c in fam if c != "\n") or "ab")]
    else:
        sp = [kind]
        if kind in ("lineend", "strend", "linestart"):
            text_fam = "\n\n\r\n\ra "
    texts = []
    for _ in range(3):
        own = [x for x in sp[1:3] if isinstance(x, str) and x]
        if kind == "uword":
            own = []
        t = ""
        for _ in range(rng.randint(0, 4)):
            c = rng.random()
            if own and c < 0.45:
                o = rng.choice(own)
                if sp[0] in ("lit", "clit", "kw", "ckw", "close"):
                    p = o
                    if sp[0] in ("clit", "ckw"):
                        p = "".join(rng.choice([x.lower(), x.upper()]) for x in p)
                    elif sp[0] == "close" or rng.random() < 0.2:
                        p = "".join(x if rng.random() < 0.8 else rng.choice(fam) for x in p)
                    t += p
                else:
                    t += "".join(rng.choice(o) for _ in range(rng.randint(1, 4)))
            elif c < 0.85:
                t += "".join(rng.choice(text_fam) for _ in range(rng.randint(1, 3)))
            else:
                t += rng.choice(PLAIN + WHITE)
        texts.append(t[:14])
    return {"spec": sp, "texts": texts, "op": rng.random() < 0.5}


class XBuilder(Builder):
    def b_wordkw(self, sp):
        _, init, body, mn, mx, exact, exclude = sp
        return self.m.Word(init, body, min=mn, max=mx, exact=exact, exclude=exclude, as_keyword=True)

    def b_charkw(self, sp):
        return self.m.Char(sp[1], exclude=sp[2], as_keyword=True)


def wordy(c):
    return c.isalnum() or c == "_"


def boundary(s, i):
    a = i > 0 and wordy(s[i - 1])
    b = i < len(s) and wordy(s[i])
    return a != b


class XRef(Ref):
    def x_wordkw(self, sp, i, ws):
        # a run with word boundaries at both ends; the longest such run
        _, init, body, mn, mx, exact, exclude = sp
        body = init if body is None else body
        if exact:
            mn = mx = exact
        s = self.s
        if not boundary(s, i) or i >= len(s) or s[i] not in init or s[i] in exclude:
            self.fail(i)
        e = i + 1
        best = None
        while True:
            n = e - i
            if n >= mn and boundary(s, e):
                best = e
            if e >= len(s) or (mx is not None and n >= mx) or s[e] not in body or s[e] in exclude:
                break
            e += 1
        if best is None:
            self.fail(i)
        return self.tok("word", i, best, [s[i:best]])

    def x_charkw(self, sp, i, ws):
        r = self.x_char(sp, i, ws)
        if boundary(self.s, i) and boundary(self.s, i + 1):
            return r
        self.fail(i)


def named(r):
    out = {}
    for k in ("original", "mismatches"):
        try:
            v = r[k]
            out[k] = list(v) if not isinstance(v, str) else v
        except Exception:
            pass
    return out


def judge(case, obs):
    if case.get("kind") == "set":
        return judge_set(case, obs)
    sp = case["spec"]
    kind = sp[0]
    b = XBuilder({"op": case["op"]})
    with m.Whitespace(""):
        out = attempt(lambda: b.b(sp))
        if out[0] != "ok":
            obs.violate("build", "%r refused: %r" % (sp, out))
            return
        t = out[1]
        probes = {}
        for text in case["texts"]:
            for k in range(len(text) + 1):
                if k not in probes:
                    probes[k] = (t if k == 0 else m.And([m.CharsNotIn("\uffff", exact=k), t])).finalize()
    for text in case["texts"]:
        for k in range(len(text) + 1):
            try:
                n = XRef(text, RWs("")).ev(sp, k, RWs(""))
                want = ("ok", n.end, n.view())
            except Fail:
                want = ("fail",)

            def go():
                r = probes[k].parse_string(text)
                return r

            got = attempt(go)
            if got[0] == "ok":
                r = got[1]
                v = view(r)
                got = ("ok", r.end, v[1:] if k else v)
                if kind == "close" and want[0] == "ok":
                    miss = [j for j, (a, c) in enumerate(zip(text[k : n.end], sp[1])) if a != c]
                    if k == 0:
                        d = {"original": r["original"], "mismatches": r["mismatches"]}
                        if d["original"] != sp[1] or list(_list(d["mismatches"])) != miss:
                            obs.violate("close", "text=%r named=%r expected mismatches %r" % (text, d, miss))
                            return
            elif got[0] == "fail":
                got = ("fail",)
            if got != want:
                obs.violate("terminal", "%r at %d of %r\n real=%r\n reference=%r" % (sp if len(repr(sp)) < 300 else kind, k, text, got, want))
                return
            if want[0] == "ok":
                obs.hit("matched")
                obs.mark()
                obs.distinct("terminal kinds matched", kind)
                obs.distinct("texts matched", text[k : n.end])
            else:
                obs.hit("refused")


def _list(v):
    if v is None:
        return []
    if isinstance(v, (str, int)):
        return [v]
    return list(v)
