"""Random grammars (specs) and random inputs that exercise them."""
import re
import string as _string

from rv.model import INF, sub_specs, STD_WHITE


class G(object):
    """
    options:
      terms    list of terminal kinds to draw from
      combs    list of combinator kinds
      alpha    alphabet for literals
      rec      allow recursion
      nullable allow nullable inside repetition
      caseful  mix of cases
    """

    TERMS = ["lit", "lit", "lit", "lit2", "word", "word", "char", "kw", "clit", "ckw", "notin", "any", "re", "close", "strend", "linestart", "lineend"]
    COMBS = ["and", "and", "and", "first", "first", "first", "or", "many", "opt", "opt", "zom", "oom", "group", "suppress", "not", "ahead", "skipto", "combine", "name"]

    def __init__(self, rng, terms=None, combs=None, alpha="abc", punct=",;(", digits="01", rec=True, names=("x", "y", "z"), stop=False, guard=False, acts=(), conds=(), defaults=True, barews=False):
        self.rng = rng
        self.terms = terms or self.TERMS
        self.combs = combs or self.COMBS
        self.alpha = alpha
        self.punct = punct
        self.digits = digits
        self.rec = rec
        self.names = list(names)
        self.stop = stop
        self.guard = guard
        self.acts = list(acts)
        self.conds = list(conds)
        self.defaults = defaults
        self.barews = barews
        self.refs = []  # refs usable here (guarded: something has been consumed)
        self.nref = 0

    def text(self, n=2, alpha=None):
        r = self.rng
        return "".join(r.choice(alpha or self.alpha) for _ in range(r.randint(1, n)))

    def subset(self, chars, lo=1):
        r = self.rng
        k = r.randint(lo, len(chars))
        return "".join(sorted(r.sample(chars, k)))

    def term(self):
        r = self.rng
        k = r.choice(self.terms)
        a = self.alpha
        if k == "lit":
            return ["lit", r.choice(a + self.punct + self.digits)]
        if k == "lit2":
            return ["lit", self.text(3, a + r.choice(["", self.punct, "."]))]
        if k == "clit":
            return ["clit", self.text(3, a + a.upper() + r.choice(["", self.punct, "."]))]
        if k == "kw":
            return ["kw", self.text(2), None if r.random() < 0.7 else self.subset(a)]
        if k == "ckw":
            return ["ckw", self.text(2, a + a.upper()), None if r.random() < 0.7 else self.subset(a)]
        if k == "word":
            init = self.subset(a + self.digits)
            body = None if r.random() < 0.5 else self.subset(a + self.digits)
            c = r.random()
            mn, mx, ex = 1, None, 0
            if c < 0.2:
                mn = r.randint(1, 3)
            elif c < 0.4:
                mn = r.randint(1, 2)
                mx = mn + r.randint(0, 2)
            elif c < 0.5:
                ex = r.randint(1, 3)
            exclude = ""
            if r.random() < 0.15:
                exclude = r.choice(a)
                if not set(init) - set(exclude) or (body is not None and not set(body) - set(exclude)):
                    exclude = ""
            return ["word", init, body, mn, mx, ex, exclude]
        if k == "char":
            if r.random() < 0.25:
                return ["char", "", self.subset(a + self.punct)]
            inc = self.subset(a + self.digits + self.punct)
            return ["char", inc, ""]
        if k == "notin":
            chars = self.subset(a + self.punct) + (" " if r.random() < 0.7 else "")
            c = r.random()
            if c < 0.6:
                return ["notin", chars, 1, 0, 0]
            if c < 0.8:
                mn = r.randint(1, 2)
                return ["notin", chars, mn, mn + r.randint(0, 2), 0]
            if c < 0.9:
                return ["notin", chars, r.randint(1, 3), 0, 0]
            return ["notin", chars, 1, 0, r.randint(1, 3)]
        if k == "any":
            return ["any"]
        if k == "re":
            return ["re", r.choice(["[ab]+", "a|b", "[0-9]+", "a[bc]", "[a-c]{2}", "(a)(b)", "[^a ]", "b+c", r"\d", "ab|a", "(?:a|b)c"])]
        if k == "close":
            return ["close", self.text(3) + r.choice(a), r.randint(0, 2)]
        if k == "white":
            c = r.random()
            ch = r.choice([" ", " \t", "\n", " \t\r\n"])
            if c < 0.5:
                return ["white", ch, 1, 0, 0]
            if c < 0.75:
                return ["white", ch, r.randint(1, 2), r.choice([0, 2, 3]), 0]
            return ["white", ch, 1, 0, r.randint(1, 2)]
        if k in ("wstart", "wend"):
            return [k, self.subset(a + self.digits)]
        return [k]

    def consuming_term(self):
        while True:
            t = self.term()
            if not self.nullable(t):
                return t

    @staticmethod
    def nullable(sp):
        k = sp[0]
        if k in ("empty", "strend", "strstart", "linestart", "lineend", "wstart", "wend", "not", "ahead", "behind", "zom", "opt", "skipto", "guard", "ref", "nomatch"):
            return True
        if k == "many":
            return sp[2] == 0 or G.nullable(sp[1])
        if k in ("and",):
            return all(G.nullable(x) for x in sp[1])
        if k == "all":
            return all(G.nullable(x) for x in sp[1])
        if k in ("first", "or"):
            return any(G.nullable(x) for x in sp[1])
        if k == "ws":
            return G.nullable(sp[2])
        if k == "let":
            return True
        if k in ("oom", "group", "suppress", "combine", "name", "pname", "act", "cond", "noop", "copy"):
            return G.nullable(sp[1])
        if k == "re":
            return bool(re.compile(sp[1]).match(""))
        return False

    def solid(self, depth):
        """a spec that always consumes"""
        for _ in range(8):
            s = self.spec(depth)
            if not self.nullable(s):
                return s
        return self.consuming_term()

    def spec(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            if self.refs and r.random() < 0.3:
                return ["ref", r.choice(self.refs)]
            return self.term()
        k = r.choice(self.combs)
        d = depth - 1
        if k == "and":
            n = r.randint(2, 4)
            kids = []
            consumed = False
            saved = self.refs
            for j in range(n):
                if not consumed:
                    self.refs = []
                kid = self.spec(d)
                self.refs = saved
                kids.append(kid)
                if not self.nullable(kid):
                    consumed = True
                if self.guard and 0 < j < n - 1 and r.random() < 0.2 and consumed:
                    kids.append(["guard"])
            if kids[-1][0] == "guard":
                kids.pop()
            return ["and", kids]
        if k in ("first", "or"):
            kids = [self.spec(d) for _ in range(r.randint(2, 5))]
            return [k, kids]
        if k == "firstlit":
            # many alternatives with known first characters
            kids = []
            for _ in range(r.randint(3, 7)):
                c = r.random()
                if c < 0.5:
                    kids.append(self.consuming_term())
                elif c < 0.8:
                    kids.append(["and", [self.consuming_term(), self.spec(max(0, d - 1))]])
                else:
                    kids.append(self.spec(d))
            return [r.choice(["first", "first", "or"]), kids]
        if k == "all":
            kids = []
            for _ in range(r.randint(2, 4)):
                kid = self.solid(min(d, 1))
                if kid[0] in ("noop", "copy", "name", "pname", "act", "cond", "all"):
                    kid = ["group", kid]
                if kid[0] == "many":
                    if r.random() < 0.5:
                        kid = ["many", kid[1], r.choice([0, 1, 2]), r.choice([None, 2, 3]), None]
                elif r.random() < 0.35:
                    kid = ["opt", kid, None]
                kids.append(kid)
            return ["all", kids]
        if k == "many":
            e = self.solid(d)
            mn = r.randint(0, 3)
            mx = None if r.random() < 0.4 else max(1, mn + r.randint(0, 2))
            st = None
            if self.stop and r.random() < 0.3:
                st = ["lit", r.choice(self.punct)]
            if mn == 1 and mx == 1 and sub_specs(e):
                mx = 2  # exactly one is the expression itself; a few combinators treat that differently at the top
            return ["many", _not_name(e), mn, mx, st]
        if k in ("zom", "oom"):
            st = None
            if self.stop and r.random() < 0.4:
                st = r.choice([["lit", r.choice(self.punct)], ["lit", r.choice(self.alpha)], ["kw", self.text(2), None]])
            return [k, _not_name(self.solid(d)), st]
        if k == "opt":
            dflt = None
            if self.defaults and r.random() < 0.3:
                dflt = r.choice(["D", 0, False, ["p", "q"]])
            return ["opt", _not_name(self.solid(d)), dflt]
        if k == "not":
            e = self.spec(min(d, 1))
            return ["and", [["not", e], self.spec(d)]]
        if k == "ahead":
            e = self.spec(min(d, 1))
            return ["and", [["ahead", e], self.spec(d)]]
        if k == "behind":
            t = r.choice([["lit", self.text(2)], ["char", self.subset(self.alpha), ""], ["kw", self.text(1), None]])
            if r.random() < 0.5:
                return ["and", [self.solid(d), ["behind", t], self.spec(d)]]
            if r.random() < 0.15:
                # of no length at all
                t = r.choice([["wstart", self.alpha], ["wend", self.alpha], ["strstart"], ["linestart"], ["ahead", ["char", self.subset(self.alpha), ""]], ["not", ["lit", r.choice(self.alpha)]]])
                return ["and", [self.solid(d), ["behind", t] + r.choice([[], [2]]), self.spec(d)]]
            # of no fixed length
            t = r.choice([
                lambda: ["word", self.alpha, None, r.choice([1, 2, 2, 3]), r.choice([None, None, 3]), 0, ""],
                lambda: ["word", r.choice(self.punct), self.alpha + self.punct, 1, None, 0, ""],
                lambda: ["notin", r.choice(self.punct) + r.choice(self.alpha), r.choice([1, 2]), r.choice([0, 3]), 0],
                lambda: ["and", [["char", self.subset(self.alpha), ""], ["char", self.subset(self.alpha), ""]]],
                lambda: ["first", [["char", self.subset(self.alpha), ""], ["lit", self.text(2)]]],
                lambda: ["group", ["word", self.alpha, None, 2, None, 0, ""]],
                lambda: ["oom", ["char", self.subset(self.alpha), ""], None],
            ])()
            e = ["behind", t]
            if r.random() < 0.4:
                e.append(r.choice([1, 2, 2, 3, 5]))
            return ["and", [r.choice([self.solid(d), t]), e, self.spec(d)]]
        if k == "skipto":
            t = r.choice([["lit", r.choice(self.punct)], ["lit", r.choice(self.alpha)], ["strend"], self.consuming_term()])
            fail = None
            if r.random() < 0.2:
                fail = ["lit", r.choice(self.punct + self.alpha)]
            ignore = None
            if r.random() < 0.2:
                ignore = ["re", r"'[^']*'"]
            return ["skipto", t, r.random() < 0.4 and t[0] != "strend", fail, ignore]
        if k == "combine":  # of Group is one token
            e = self.spec(d)
            while e[0] in ("name", "act", "cond", "noop", "suppress", "pname", "ref", "let"):
                e = ["and", [self.term(), self.term()]]
            return ["combine", e, "" if r.random() < 0.7 else "-"]
        if k == "name":
            return self.named(d)
        if k == "let":
            if not self.rec:
                return self.term()
            self.nref += 1
            name = "F%d" % self.nref
            saved = self.refs
            opener = ["lit", r.choice(self.punct)]
            self.refs = saved + [name]
            inner = self.spec(d)
            tail = self.spec(max(0, d - 1))
            base = self.consuming_term()
            self.refs = saved
            body = r.choice([
                ["first", [["and", [opener, ["ref", name], tail]], base]],
                ["and", [base, ["opt", ["and", [opener, ["ref", name]]], None]]],
                ["first", [["and", [opener, inner, ["lit", r.choice(self.alpha)]]], base]],
                ["and", [opener, ["opt", ["ref", name], None], base if _has(inner, "ref") else inner]],
            ])
            return ["let", {name: body}, ["ref", name] if r.random() < 0.6 else ["and", [["ref", name], self.spec(max(0, d - 1))]]]
        if k == "ws":
            conf = r.choice([{"chars": ""}, {"chars": " "}, {"chars": " \t\n\r"}, {"chars": " ", "ignore": [r"#[^\n]*"]}])
            saved = self.refs
            self.refs = []
            if self.barews and r.random() < 0.5:
                body = r.choice([["oom", self.solid(d), None], ["zom", self.solid(d), None], ["many", self.solid(d), 2, 3, None]])
                out = ["ws", conf, ["group", body] if r.random() < 0.6 else body]
            else:
                out = ["ws", conf, ["and", [self.solid(d), self.spec(d)]]]
            self.refs = saved
            return out
        if k == "act":
            return ["act", self.plain(d), r.choice(self.acts)]
        if k == "cond":
            return ["cond", self.plain(d), r.choice(self.conds)]
        return [k, self.spec(d)] if k in ("group", "suppress", "noop", "copy") else (["pname", self.spec(d), "P%d" % r.randint(0, 9)] if k == "pname" else [k])

    def plain(self, d):
        s = self.spec(d)
        while s[0] in ("ref", "let"):
            s = self.spec(d)
        return s

    def named(self, d):
        e = self.plain(d)
        return ["name", e, self.rng.choice(self.names)]


def _has(sp, kind):
    return sp[0] == kind or any(_has(x, kind) for x in sub_specs(sp))


def _not_name(e):
    """naming a repetition of something with the same name is refused (documented), so do not name the item directly"""
    return ["and", [e, ["empty"]]] if e[0] in ("name", "noop", "copy", "pname", "act", "cond") and _has(e, "name") else e


# ------------------------------------------------------------------ inputs
def derive(sp, rng, env=None, depth=0, sep=None):
    """a string meant to be accepted by sp (not always: PEG); sep() gives whitespace"""
    env = env or {}
    sep = sep or (lambda: rng.choice(["", "", " ", " ", "  ", "\n", "\t "]))
    k = sp[0]

    def d(x):
        return derive(x, rng, env, depth + 1, sep)

    def ch(chars):
        return rng.choice(chars) if chars else ""

    if k == "lit":
        return sp[1]
    if k in ("clit", "ckw"):
        return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in sp[1])
    if k == "kw":
        return sp[1]
    if k == "word":
        _, init, body, mn, mx, ex, exclude = sp
        body = init if body is None else body
        if ex:
            mn = mx = ex
        n = rng.randint(mn, min(mx if mx is not None else mn + 3, mn + 3))
        if rng.random() < 0.1:
            n += 1
        ok = [c for c in init if c not in exclude] or list(init)
        okb = [c for c in body if c not in exclude] or list(body)
        return ch(ok) + "".join(ch(okb) for _ in range(n - 1))
    if k == "char":
        if sp[1]:
            return ch([c for c in sp[1] if c not in sp[2]] or sp[1])
        return ch([c for c in "abc01,;( xyz" if c not in sp[2]])
    if k == "notin":
        ok = [c for c in "abcxyz01,;" if c not in sp[1]] or ["z"]
        mn, mx, ex = sp[2:5]
        n = ex or rng.randint(mn, (mx or mn + 2))
        return "".join(ch(ok) for _ in range(n))
    if k == "any":
        return ch("abc01,; ")
    if k == "strend":
        return ""
    if k == "lineend":
        return rng.choice(["\n", ""])
    if k == "close":
        s = list(sp[1])
        for _ in range(rng.randint(0, sp[2])):
            s[rng.randrange(len(s))] = ch("abcx")
        return "".join(s)
    if k == "white":
        n = sp[4] or rng.randint(max(1, sp[2]), sp[3] or sp[2] + 2)
        return "".join(ch(sp[1]) for _ in range(n))
    if k == "re":
        return rng.choice({"[ab]+": ["a", "ab", "bba"], "a|b": ["a", "b"], "[0-9]+": ["0", "12"], "a[bc]": ["ab", "ac"], "[a-c]{2}": ["ab", "cc"], "(a)(b)": ["ab"], "[^a ]": ["b", ";"], "b+c": ["bc", "bbc"], r"\d": ["1"], "ab|a": ["ab", "a"], "(?:a|b)c": ["ac", "bc"], r"'[^']*'": ["'a,'"]}.get(sp[1], ["a"]))
    if k in ("empty", "nomatch", "strstart", "linestart", "wstart", "wend", "not", "ahead", "behind", "guard"):
        return ""
    if k == "and":
        out = ""
        for x in sp[1]:
            p = d(x)
            out += (sep() if out and p else "") + p
        return out
    if k in ("first", "or"):
        return d(rng.choice(sp[1]))
    if k == "all":
        kids = list(sp[1])
        rng.shuffle(kids)
        return sep().join(d(x) for x in kids)
    if k in ("many", "zom", "oom"):
        if k == "many":
            mn, mx = sp[2], sp[3]
        else:
            mn, mx = (0 if k == "zom" else 1), None
        hi = min(mx if mx is not None else mn + 3, mn + 3)
        n = rng.randint(mn, hi)
        if rng.random() < 0.1:
            n += 1
        if depth > 12:
            n = mn
        return "".join(d(sp[1]) + sep() for _ in range(n)).rstrip(" ")
    if k == "opt":
        return d(sp[1]) if rng.random() < 0.6 and depth < 14 else ""
    if k == "skipto":
        return "".join(ch("abcz 'x,;'") for _ in range(rng.randint(0, 4))) + (d(sp[1]) if sp[2] else "")
    if k in ("group", "suppress", "combine", "name", "pname", "act", "cond", "noop", "copy", "dict"):
        return d(sp[1])
    if k == "ws":
        chars = sp[1]["chars"]
        lead = rng.choice(["", chars[:1]]) if sp[2][0] != "and" else ""
        return lead + derive(sp[2], rng, env, depth + 1, lambda: rng.choice(["", "", chars[:1], chars[-1:]]))
    if k == "let":
        e2 = dict(env)
        e2.update(sp[1])
        return derive(sp[2], rng, e2, depth + 1, sep)
    if k == "ref":
        if depth > 14:
            return ""
        return derive(env[sp[1]], rng, env, depth + 1, sep) if sp[1] in env else ""
    raise Exception("derive " + k)


def mutate(s, rng, chars="abc01,;( \nABC'#x"):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        c = rng.random()
        p = rng.randint(0, len(s))
        if c < 0.35:
            s.insert(p, rng.choice(chars))
        elif c < 0.65 and s:
            del s[min(p, len(s) - 1)]
        elif c < 0.85 and s:
            s[min(p, len(s) - 1)] = rng.choice(chars)
        elif s:
            q = rng.randint(0, len(s))
            s[p:p] = s[min(p, q) : max(p, q)][:6]
    return "".join(s[:60])


def inputs(sp, rng, n, extra="abc01,;( \n"):
    """n distinct strings: derived, mutated, random"""
    out = []
    seen = set()
    tries = 0
    while len(out) < n and tries < n * 6:
        tries += 1
        c = rng.random()
        if c < 0.5:
            s = derive(sp, rng)
        elif c < 0.85:
            s = mutate(derive(sp, rng), rng)
        else:
            s = "".join(rng.choice(extra) for _ in range(rng.randint(0, 10)))
        if c < 0.4 and rng.random() < 0.4:
            s = rng.choice([" ", "\n", "", "  "]) + s + rng.choice([" ", "\n", "", " x"])
        s = s[:80]
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out
