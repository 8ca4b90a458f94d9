"""C10: Regex elements behave as the regular expression they are given"""
import re

try:
    from re import _parser as parser
except ImportError:
    import sre_parse as parser

from rv import env as m
from rv.model import view
from rv.real import attempt

ID = "C10"
RULE = (
    "patterns are generated over the supported constructs (literals, escapes, classes and ranges, hex and octal escapes, macros, groups of every sort, lookaround, alternation, "
    "repetition, anchors) and matched against texts derived from them, mutations, and noise: span and token against Python's re (DOTALL) alone, at every position of a scan, "
    "as an alternative among alternatives that share first characters, repeated, in a sequence, behind a lookahead, as the end of a skip, and as ignored text; captured groups by "
    "number and name and substitution against re. Non-trivial: the pattern has a group, class or repetition and matched some text."
)
ASSUME = ["patterns that Python's re refuses, back references to the first character, inline flags and named back references are out of scope"]
NEED = {"matched": 10000, "refused": 10000, "alternatives compared": 15000, "groups compared": 5000, "substitutions": 2000, "patterns": 1500}

CH = "abc01-_ ]^.xn\n"


def plan(tier):
    k = 4 if tier == "quick" else 100
    return [("match", 14 * k, 60), ("groups", 8 * k, 60)]


CODES = [("\\x41", "A"), ("\\x62", "b"), ("\\x2B", "+"), ("\\x0a", "\n"), ("\\041", "!"), ("\\060", "0"), ("\\007", "\x07"), ("\\001", "\x01"), ("\\053", "+"), ("\\x5C", "\\"), ("\\x5d", "]")]
ESC = ["\\.", "\\*", "\\+", "\\?", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\|", "\\^", "\\$", "\\\\", "\\-", "\\/", "\\\"", "\\n", "\\t", "\\r"]
MACRO = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S"]
PLAIN = list("abcabcxn01-_,;:=<>/\"'%#@!~&") + ["A", "B", "]", "}"]


class Gen(object):
    """random patterns, and random texts each of them is likely to match"""

    def __init__(self, rng, groups):
        self.rng = rng
        self.groups = groups
        self.names = 0
        self.nested = False

    def cls(self):
        rng = self.rng
        out = []
        sample = []
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.4:
                c = rng.choice("abc01xn_,;:=. +*?(){}|$ <>\"'")
                out.append(c)
                sample.append(c)
            elif x < 0.65:
                a, b = rng.choice([("a", "c"), ("0", "9"), ("A", "Z"), ("b", "n"), ("1", "1"), (" ", "/"), ("\\x61", "\\x63"), ("0", "1"), ("\\060", "\\071"), ("\\x30", "\\067"), ("!", "\\x2F")])
                out.append(a + "-" + b)
                sample.append(a if len(a) == 1 else {"\\x61": "a"}.get(a, "0"))
            elif x < 0.8:
                k = rng.choice(MACRO[:1] + MACRO[2:3] + MACRO[4:5])
                out.append(k)
                sample.append({"\\d": "1", "\\w": "b", "\\s": " "}[k])
            elif x < 0.93:
                k = rng.choice(["\\]", "\\-", "\\\\", "\\^", "\\n", "\\t", "\\[", "\\."])
                out.append(k)
                sample.append({"n": "\n", "t": "\t"}.get(k[1], k[1]))
            else:
                k, c = rng.choice(CODES)
                out.append(k)
                sample.append(c)
        if rng.random() < 0.08:
            out.append("-")
            sample.append("-")
        neg = rng.random() < 0.25
        return "[" + ("^" if neg else "") + "".join(out) + "]", (lambda: rng.choice("abz 1-\n#")) if neg else (lambda: rng.choice(sample))

    def atom(self, d):
        rng = self.rng
        x = rng.random()
        if d <= 0 or x < 0.35:
            y = rng.random()
            if y < 0.45:
                c = rng.choice(PLAIN)
                return (c if c not in "]}" else "\\" + c), lambda: c
            if y < 0.49:
                k, c = rng.choice(CODES)
                return k, lambda: c
            if y < 0.61:
                k = rng.choice(ESC)
                c = {"n": "\n", "t": "\t", "r": "\r"}.get(k[1], k[1])
                return k, lambda: c
            if y < 0.72:
                k = rng.choice(MACRO)
                pool = {"d": "019", "D": "a -", "w": "ab_1", "W": "- \n.", "s": " \t\n", "S": "a1-"}[k[1]]
                return k, lambda: rng.choice(pool)
            if y < 0.78:
                return ".", lambda: rng.choice("ab1 \n")
            if y < 0.82:
                return " ", lambda: " "
            return self.cls()
        if x < 0.5:
            return self.cls()
        p, f = self.alt(d - 1)
        y = rng.random()
        if y < 0.35:
            return "(?:" + p + ")", f
        if y < 0.6:
            return "(" + p + ")", f
        if y < 0.8:
            self.names += 1
            return "(?P<g%s>" % "abcdefghijkl"[self.names % 12] + p + ")" if self.names < 12 else "(" + p + ")", f
        if y < 0.88:
            return "(?=" + p + ")", lambda: ""
        if y < 0.96:
            return "(?!" + p + ")", lambda: ""
        c = rng.choice("ab1")
        return "(?<=" + c + ")", lambda: ""

    def piece(self, d):
        rng = self.rng
        p, f = self.atom(d)
        if parser.parse(p).getwidth()[1] == 0:
            return p, f  # NOT SUPPORTED: REPEATED ASSERTIONS
        x = rng.random()
        inner = sum(p.count(c) for c in "*+{?") - p.count("(?")
        if x > 0.62 and inner:
            if inner > 1:
                x = 0.9  # MAY TAKE EXPONENTIAL TIME
            else:
                self.nested = True
        if x < 0.62:
            return p, f
        if x < 0.72:
            return p + rng.choice(["*", "*", "*?"]), lambda: "".join(f() for _ in range(rng.randint(0, 3)))
        if x < 0.82:
            return p + rng.choice(["+", "+", "+?"]), lambda: "".join(f() for _ in range(rng.randint(1, 3)))
        if x < 0.91:
            return p + "?", lambda: f() if rng.random() < 0.6 else ""
        if x < 0.95:
            n = rng.randint(1, 3)
            return p + "{%d}" % n, lambda: "".join(f() for _ in range(n))
        lo, hi = rng.choice([(0, 1), (1, 2), (2, 3), (0, 3), (1, None), (2, None), (None, 2)])
        q = "{%s,%s}" % ("" if lo is None else lo, "" if hi is None else hi)
        return p + q, lambda: "".join(f() for _ in range(rng.randint(lo or 0, hi or (lo or 0) + 2)))

    def seq(self, d):
        parts = [self.piece(d) for _ in range(self.rng.randint(1, 3 if d else 2))]
        return "".join(p for p, f in parts), lambda: "".join(f() for p, f in parts)

    def alt(self, d):
        if self.rng.random() < 0.7:
            return self.seq(d)
        parts = [self.seq(d) for _ in range(self.rng.randint(2, 3))]
        return "|".join(p for p, f in parts), lambda: self.rng.choice(parts)[1]()


def gen(kind, rng):
    for _ in range(20):
        g = Gen(rng, kind == "groups")
        p, f = g.alt(rng.randint(0, 3))
        if kind == "groups":
            p2, f2 = g.atom(2)
            p, f = "(%s)%s" % (p, p2) if rng.random() < 0.5 else "(?P<w>%s)%s" % (p, p2), (lambda f=f, f2=f2: f() + f2())
        x = rng.random()
        if x < 0.04:
            p = "^" + p
        elif x < 0.08:
            p = p + "$"
        elif x < 0.12:
            p = p + "\\b"
        if len(p) > 80:
            continue
        try:
            r = re.compile(p, re.DOTALL)
        except re.error:
            continue
        if set(r.groupindex) & {"1"} or len(r.groupindex) != len(set(r.groupindex)):
            continue
        texts = []
        for _ in range(6):
            t = f()
            if rng.random() < 0.4:
                k = rng.randint(0, len(t))
                t = t[:k] + rng.choice(CH) + t[k + rng.randint(0, 1) :]
            if rng.random() < 0.3:
                t += rng.choice(CH) + f()
            texts.append(t[: 10 if g.nested else 30])
        texts.append("".join(rng.choice(CH) for _ in range(rng.randint(0, 4))))
        others = ["".join(rng.choice("abc01xn-") for _ in range(rng.randint(1, 2))) for _ in range(rng.randint(1, 4))]
        return {"p": p, "texts": texts, "others": others, "at": rng.randint(0, 3), "repl": rng.choice(["<\\g<0>>", "x", "[\\1]", "", "\\1\\1", "fn"])}
    return None


def judge(case, obs):
    p = case["p"]
    rx = re.compile(p, re.DOTALL)
    out = attempt(lambda: m.Regex(p))
    if out[0] != "ok":
        obs.violate("build", "Regex(%r): %r" % (p, out))
        return
    e = out[1]
    obs.distinct("patterns", p)
    if case["kind"] == "groups":
        return groups(case, obs, e, rx)
    others = case["others"]
    k = min(case["at"], len(others))

    def several():
        with m.NO_WHITESPACE:
            lits = [m.Literal(o) for o in others]
            return tuple(x.finalize() for x in (
                m.MatchFirst(lits[:k] + [e] + lits[k:]),
                m.Or(lits[:k] + [e] + lits[k:]),
                m.ZeroOrMore(e),
                m.Literal("#") + e + m.Literal("#"),
                m.Literal("#") + (e | m.Literal("#")) + m.Empty(),
                e,
                m.Optional(e) + m.Literal("#"),
                ~e + m.AnyChar(),
                m.FollowedBy(e) + m.Regex("[\\s\\S]*"),
                m.MatchFirst([m.Group(e), m.Group(m.Literal("b")), m.Group(m.Keyword("a"))]),
                m.MatchFirst([m.Literal("q"), m.Combine(e), m.Word("b"), m.OneOrMore(m.Literal("c"))]),
            ))

    built = attempt(several)
    if built[0] != "ok":
        obs.violate("build", "with %r: %r" % (p, built))
        return
    first, orr, many, seq, hash_alt, alone, opt, nott, ahead, grp, mix = built[1]

    def run(x, s):
        got = attempt(lambda: (lambda r: (view(r), r.end))(x.parse_string(s)))
        return ("ok",) + got[1] if got[0] == "ok" else got[:1] if got[0] == "fail" else got

    for s in case["texts"]:
        f = rx.match(s)
        want = ("ok", [f.group(0)], f.end()) if f else ("fail",)
        todo = [("alone", alone, s, want)]

        def alternatives(order, s=s, f=f):
            for o in order:
                if o is None:
                    if f:
                        return ("ok", [f.group(0)], f.end())
                elif s.startswith(o):
                    return ("ok", [o], len(o))
            return ("fail",)

        order = others[:k] + [None] + others[k:]
        todo.append(("alternatives", first, s, alternatives(order)))
        best = max([alternatives([o]) for o in order], key=lambda w: w[2] if w[0] == "ok" else -1)
        todo.append(("longest alternative", orr, s, best))
        todo.append(("grouped alternatives", grp, s, _mix(f, s, [("b", None), ("a", "kw")], True)))
        todo.append(("mixed alternatives", mix, s, _mixed(f, s)))
        # repeated
        acc, i = [], 0
        while i < len(s):
            x = rx.match(s, i)
            if not x or x.end() == i:
                break
            acc.append(x.group(0))
            i = x.end()
        todo.append(("repeated", many, s, ("ok", acc, i)))
        t = "#" + s + "#"
        f1 = rx.match(t, 1)
        w = ("ok", ["#", f1.group(0), "#"], f1.end() + 1) if f1 and t.startswith("#", f1.end()) else ("fail",)
        todo.append(("sequence", seq, t, w))
        w = ("ok", ["#", f1.group(0)], f1.end()) if f1 else ("ok", ["#", "#"], 2) if t[1] == "#" else ("fail",)
        todo.append(("second alternatives", hash_alt, t, w))
        t2 = s + "#"
        f2 = rx.match(t2)
        i = f2.end() if f2 else 0
        w = ("ok", ([f2.group(0)] if f2 else []) + ["#"], i + 1) if t2.startswith("#", i) else ("fail",)
        todo.append(("optional", opt, t2, w))
        todo.append(("not", nott, s, ("ok", [s[0]], 1) if s and not f else ("fail",)))
        todo.append(("ahead", ahead, s, ("ok", [s], len(s)) if f else ("fail",)))
        for how, x, txt, w in todo:
            got = run(x, txt)
            if got[0] == "ok" and w[0] == "ok" and how in ("ahead", "repeated"):
                got = (got[0], [y for y in got[1] if y != ""], got[2])
                w = (w[0], [y for y in w[1] if y != ""], w[2])
            if got != w:
                obs.violate("match", "%s: %r (others %r at %d) on %r\n real=%r\n re=%r" % (how, p, others, k, txt, got, w))
                return
            if how != "alone":
                obs.hit("alternatives compared")
        obs.hit("matched" if f else "refused")
        if f and f.group(0) and any(c in p for c in "([*+{"):
            obs.mark()
        # scanned
        def scan():
            with m.NO_WHITESPACE:
                return [(a, b) for _, a, b in e.finalize().scan_string(s)]

        acc, i = [], 0
        while i <= len(s):
            x = rx.match(s, i)
            if x is None:
                i += 1
                continue
            acc.append((i, x.end()))
            i = max(i + 1, x.end())
        got = attempt(scan)
        if got[0] != "ok" or got[1] != acc:
            obs.violate("scan", "%r over %r\n real=%r\n re=%r" % (p, s, got, acc))
            return


def _mix(f, s, rest, group):
    if f:
        return ("ok", [[f.group(0)]], f.end())
    if s.startswith("b"):
        return ("ok", [["b"]], 1)
    if s.startswith("a") and not (s[1:2].isalnum() and s[1:2].isascii() or s[1:2] in ("_", "$") and s[1:2]):
        return ("ok", [["a"]], 1)
    return ("fail",)


def _mixed(f, s):
    if f:
        return ("ok", [f.group(0)], f.end())
    n = len(s) - len(s.lstrip("b"))
    if n:
        return ("ok", ["b" * n], n)
    n = len(s) - len(s.lstrip("c"))
    return ("ok", ["c"] * n, n) if n else ("fail",)


def groups(case, obs, e, rx):
    p, repl = case["p"], case["repl"]
    built = attempt(lambda: e.capture_groups())
    if built[0] != "ok":
        obs.violate("build", "capture_groups %r %r" % (p, built))
        return
    c = built[1]
    ren = rx.groups

    def sub():
        with m.NO_WHITESPACE:
            return e.sub(repl if repl != "fn" else (lambda f: "{" + f.group(0) + "|" + (f.group(1) or "") + "}")).finalize()

    pyrepl = repl if repl != "fn" else (lambda f: "{" + f.group(0) + "|" + (f.group(1) or "") + "}")
    su = attempt(sub)
    if su[0] != "ok":
        obs.violate("build", "sub %r %r" % (p, su))
        return
    for s in case["texts"]:
        for pre in ("", "#" + s[:1]):
            t = pre + s
            f = rx.match(t, len(pre))
            if pre:
                with m.NO_WHITESPACE:
                    x = (m.Literal(pre).suppress() + c).finalize()
            else:
                with m.NO_WHITESPACE:
                    x = c.finalize()
            got = attempt(lambda: x.parse_string(t))
            if (got[0] == "ok") != (f is not None) or got[0] not in ("ok", "fail"):
                obs.violate("groups", "%r on %r gave %r, re %r" % (p, t, got, f))
                return
            if not f:
                obs.hit("refused")
                continue
            obs.hit("matched")
            r = got[1][0] if pre else got[1]
            for i in range(1, ren + 1):
                for n in [str(i)] + [k for k, v in rx.groupindex.items() if v == i]:
                    v = attempt(lambda: r[n])
                    w = f.group(i)
                    if w is None:
                        ok = v[0] == "ok" and not v[1]
                    else:
                        ok = v == ("ok", w)
                    if not ok:
                        obs.violate("groups", "%r on %r group %r is %r, re %r" % (p, t, n, v, w))
                        return
                    obs.hit("groups compared")
            obs.mark()
            # tokens are the outermost groups
            want, e_ = [], 0
            for a, b in f.regs[1:]:
                if a != -1 and a >= e_:
                    want.append(t[a:b])
                    e_ = b
            if rx.groups and view(r) != want:
                obs.violate("groups", "%r on %r outermost groups\n real=%r\n re=%r" % (p, t, view(r), want))
                return
        # substitution keeps what is not matched; empty matches are re's own business
        if any(x.end() == x.start() for x in rx.finditer(s)) or not s:
            continue
        try:
            want = rx.sub(pyrepl, s)
        except re.error:
            continue
        got = attempt(lambda: su[1].transform_string(s))
        if got != ("ok", want):
            obs.violate("sub", "%r -> %r over %r\n real=%r\n re=%r" % (p, repl, s, got, want))
            return
        obs.hit("substitutions")
