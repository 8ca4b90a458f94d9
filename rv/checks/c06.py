"""C06: whitespace contexts nest like a stack and are always restored"""
import random

from rv import env as m
from rv.model import view
from rv.monitor import Hang
from rv.real import attempt

ID = "C06"
RULE = (
    "a random history of entering (with, use, nested, re-entered, standard and none), changing and leaving (end of block, exception, "
    "release) whitespace contexts, mixed with library calls that switch the context themselves: building every kind of element and helper, "
    "failing builds, parses that succeed, fail, or whose actions, conditions or literal factories raise (also BaseException), scans left half "
    "done, closed or thrown into, debugger. A stack model runs alongside; after every step the ambient context must be the expected "
    "object and, at intervals, freshly built expressions must show exactly its settings. Non-trivial: at least 3 contexts nested and a fault crossed a block."
)
ASSUME = ["whitespaces.CURRENT (documented) is the ambient context", "an element is judged by the settings at the time it was built, unless that context was changed afterwards"]
NEED = {"ambient checks": 50000, "settings probed": 20000, "faults crossing a block": 400, "kinds of library call": 35, "older elements probed": 2000}

CHARS = ["", " ", " \t", "\n", "_", "-", " \n\r\t"]
IGN = ["~[a-z]*~", "#", r"/\*.*?\*/"]
KW = ["abc", "k_", "0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$"]
SEPS = ["", " ", "\t", "\n", "_", "-", "~x~", "#", "/**/", " _", "-#"]


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def make_literal(kind):
    if kind == "plain":
        return m.Literal
    if kind == "caseless":
        return m.CaselessLiteral
    if kind == "keyword":
        return m.Keyword
    if kind == "suppress":
        return lambda s: m.Literal(s).suppress()

    def bad(s):
        raise Boom("literal factory")

    return bad


class Set(object):
    """settings of one context"""

    def __init__(self, chars, ign=(), lit="plain", kw=None):
        self.chars, self.ign, self.lit, self.kw = chars, list(ign), lit, kw or KW[3]
        self.version = 0

    def copy(self):
        return Set(self.chars, self.ign, self.lit, self.kw)

    def key(self):
        return ("".join(sorted(self.chars)), tuple(self.ign), self.lit, "".join(sorted(set(self.kw))))


def calls():
    """library calls that build or run something; name -> function (may raise anything documented)"""
    L, W, m_ = m.Literal, m.Word, m

    def parse_boom(kind):
        def run():
            def act(t, i, s):
                raise kind("in an action")

            (L("a") + L("b").add_parse_action(act)).parse_string("a b")

        return run

    def cond_boom():
        def bad(t):
            raise Boom("in a condition")

        (L("a") + L("b").add_condition(bad)).parse_string("ab")

    def half():
        it = W("ab").scan_string("a b a b")
        next(it)
        return it

    def closed():
        it = iter(half())
        it.close()

    def thrown():
        it = iter(half())
        it.throw(Boom("thrown"))

    def gen_input():
        def g():
            yield L("a")
            raise Boom("in the generator of alternatives")

        m.MatchFirst(g())

    def debugger():
        with m.Debugger(silent=True):
            parse_boom(Boom)()

    def act_builds():
        def act(t):
            return ["Z"]

        def act2(t, i, s):
            with m.Whitespace("_"):
                (L("a") + L("b")).parse_string("a_b")

        (L("a").add_parse_action(act2) + L("b").add_parse_action(act)).parse_string("a b")

    def act_leaves_fault():
        def act2(t, i, s):
            with m.Whitespace("_"):
                raise Boom("inside a block inside an action")

        (L("a").add_parse_action(act2) + L("b")).parse_string("ab")

    def forward():
        f = m.Forward()
        f << (L("(") + m.Optional(f) + L(")"))
        f.parse_string("(())")

    def left():
        f = m.Forward()
        f << (f + L("x") | L("x"))
        f.finalize()

    return {
        "ok": lambda: (L("a") + L("b")).parse_string("ab"),
        "fail": lambda: (L("a") + L("b")).parse_string("ax"),
        "failall": lambda: L("a").parse_string("a x", parse_all=True),
        "action raises": parse_boom(Boom),
        "action raises base": parse_boom(Stop),
        "action raises parse": parse_boom(ValueError),
        "condition raises": cond_boom,
        "action builds": act_builds,
        "action block fault": act_leaves_fault,
        "half scan": half,
        "closed scan": closed,
        "thrown scan": thrown,
        "generator raises": gen_input,
        "debugger": debugger,
        "forward": forward,
        "left recursion": left,
        "regex": lambda: m.Regex("a(b|c)*[d-f]{2,3}(?P<n>x)").parse_string("abddx"),
        "bad regex": lambda: m.Regex("a("),
        "odd regex": lambda: m.Regex("(?<!a)b\\Bc{x"),
        "bad word": lambda: W("ab", min=0),
        "bad and": lambda: m.And([L("a"), ...]),
        "bad operand": lambda: L("a") + 5,
        "bad operand or": lambda: 5 | L("a"),
        "bad each": lambda: m.MatchFirst([L("a"), 7]),
        "combine": lambda: m.Combine(L("a") + L("b")),
        "bad combine": lambda: m.Combine(6),
        "delimited": lambda: m.delimited_list(W("ab")).parse_string("a,b"),
        "delimited combine": lambda: m.delimited_list(W("ab"), combine=True).parse_string("a,b"),
        "infix": lambda: m.infix_notation(W("ab"), [("+", 2, m.LEFT_ASSOC), ("-", 1, m.RIGHT_ASSOC)]).parse_string("a+b"),
        "infix bad": lambda: m.infix_notation(W("ab"), [("+", 4, m.LEFT_ASSOC)]),
        "one_of": lambda: m.one_of("aa a b"),
        "one_of caseless": lambda: m.one_of("aa a b", caseless=True),
        "html": lambda: m.helpers.makeHTMLTags("a"),
        "html class": lambda: m.helpers.makeHTMLTags(W("ab"))[0].add_condition(m.helpers.with_class("x")).parse_string("<a class=x>"),
        "nested": lambda: m.helpers.nested_expr().parse_string("(a (b))"),
        "nested content": lambda: m.helpers.nested_expr(content=W("ab")).parse_string("(a (b))"),
        "counted": lambda: m.helpers.counted_array(W("ab")).parse_string("2 a b"),
        "counted fail": lambda: m.helpers.counted_array(W("ab")).parse_string("3 a b"),
        "dict_of": lambda: m.helpers.dict_of(W("ab"), W("01")).parse_string("a 1"),
        "quoted": lambda: m.QuotedString('"', esc_char="\\").parse_string('"a"'),
        "quoted bad": lambda: m.QuotedString(""),
        "original": lambda: m.helpers.originalTextFor(W("ab")).parse_string("ab"),
        "skipto": lambda: (m.SkipTo("x", ignore=L("q"), fail_on="w") + "x").parse_string("abx"),
        "lookbehind": lambda: (W("ab") + m.PrecededBy("b") + L("c")).parse_string("abc"),
        "each": lambda: (L("a") & L("b")).parse_string("b a"),
        "repeat": lambda: (L("a") * 3).parse_string("aaa"),
        "repeat bad": lambda: L("a") * -1,
        "slice": lambda: L("a")[1:3].parse_string("aa"),
        "many": lambda: m.ZeroOrMore("a", stop_on="b").parse_string("aab"),
        "dict": lambda: m.Dict(m.Group(W("ab")("k") + W("01")("v"))).parse_string("a 1"),
        "transform": lambda: (L("a") / (lambda: "Z")).transform_string("bab"),
        "transform fault": lambda: (L("a").add_parse_action(_raise)).transform_string("bab"),
        "split": lambda: list(L(",").split("a,b")),
        "search": lambda: W("ab").search_string("a b"),
        "keyword": lambda: m.Keyword("if", caseless=True),
        "reverse": lambda: (L("a") + L("b")).reverse(),
        "str": lambda: str(m.OneOrMore(L("a") + "b" | W("ab"))),
        "close": lambda: m.CloseMatch("abc", 1).parse_string("abx"),
        "file": lambda: W("ab").parse_file(_file()),
        "indented": lambda: m.helpers.indented_block(W("ab")).parse_string("a\nb\n"),
        "inputs raises": lambda: W("ab").parse_string(5),
        "lit end": lambda: (m.LineStart() + L("a") + m.LineEnd()).parse_string("a\n"),
    }


def _raise(t):
    raise Boom("x")


def _file():
    import io

    return io.StringIO("ab")


def plan(tier):
    k = 8 if tier == "quick" else 120
    return [("history", 24 * k, 16)]


STEPS = ["with", "with", "use", "set", "set", "leave", "leave", "fault", "call", "call", "call", "call", "probe", "base"]


def gen(kind, rng):
    names = sorted(calls())
    steps = []
    for _ in range(rng.randint(15, 45)):
        k = rng.choice(STEPS)
        if k == "call":
            steps.append(["call", rng.choice(names)])
        elif k in ("with", "use"):
            steps.append([k, rng.choice(["new", "new", "new", "old", "current", "std", "none"]), rng.choice(CHARS), rng.randint(0, 9)])
        elif k in ("set", "base"):
            what = rng.choice(["chars", "ignore", "literal", "kw"])
            v = {"chars": rng.choice(CHARS), "ignore": rng.choice(IGN), "literal": rng.choice(["plain", "caseless", "keyword", "suppress", "bad"]), "kw": rng.choice(KW)}[what]
            steps.append([k, what, v])
        elif k == "leave":
            steps.append(["leave", rng.randint(0, 3)])
        elif k == "fault":
            steps.append(["fault", rng.randint(1, 3), rng.random() < 0.3])
        else:
            steps.append([k])
    return {"steps": steps, "seed": rng.randrange(10**6)}


class Model(object):
    def __init__(self, obs):
        self.obs = obs
        self.ws = m.whitespaces
        self.stack = []  # (context object, how, base object, Set)
        self.ground = self.ws.CURRENT
        self.ground_set = Set(" \n\r\t")
        self.bases = []  # (Whitespace, Set)
        self.old = []  # elements built before
        self.trace = []

    def current(self):
        return self.stack[-1][0] if self.stack else self.ground

    def settings(self):
        return self.stack[-1][3] if self.stack else self.ground_set

    def bad(self, mech, what):
        self.obs.violate(mech, "%s after %r" % (what, self.trace))
        raise _Done()

    def check(self):
        self.obs.hit("ambient checks")
        if self.ws.CURRENT is not self.current():
            self.bad("ambient", "ambient whitespace is not the expected context (depth %d)" % len(self.stack))

    def apply(self, w, st, what, v):
        if what == "chars":
            w.set_whitespace(v)
            st.chars = v
        elif what == "ignore":
            if len(st.ign) < 3:
                w.add_ignore(m.Regex(v))
                st.ign.append(v)
        elif what == "literal":
            w.set_literal(make_literal(v))
            st.lit = v
        else:
            w.set_keyword_chars(v)
            st.kw = v
        st.version += 1

    def probe(self):
        import re

        st = self.settings()
        obs = self.obs
        obs.distinct("settings", st.key())
        skip = re.compile("(?:%s)*\\Z" % "|".join(["[" + re.escape(st.chars) + "]"] * bool(st.chars) + ["(?:%s)" % i for i in st.ign]) if (st.chars or st.ign) else "\\Z", re.DOTALL)
        e = m.And([m.Literal("a"), m.Literal("b")])
        many = m.OneOrMore(m.Literal("a") + m.Literal("b"))
        for sep in SEPS:
            obs.hit("settings probed")
            want = bool(skip.match(sep))
            for x, t in ((e, "a%sb"), (many, "a%sb")):
                got = attempt(lambda: x.parse_string(t % sep))
                if (got[0] == "ok") != want or got[0] not in ("ok", "fail"):
                    self.bad("settings", "%r under %r gave %r" % (t % sep, st.key(), got[0:2]))
        for c in "ak0_$ -":
            obs.hit("settings probed")
            got = attempt(lambda: m.Keyword("k").parse_string("k" + c))
            if (got[0] == "ok") != (c not in st.kw):
                self.bad("keyword", "Keyword followed by %r under %r gave %r" % (c, st.key(), got[0:2]))
        got = attempt(lambda: m.Literal("x") + "Q")
        obs.hit("settings probed")
        if st.lit == "bad":
            if got[:2] != ("exc", "Boom"):
                self.bad("literal", "factory %s gave %r" % (st.lit, got))
        else:
            e2 = got[1]
            outs = [attempt(lambda: view(e2.parse_string(t))) for t in ("xQ", "xq", "xQk")]
            outs = [o[1] if o[0] == "ok" else o[0] for o in outs]
            want = {"plain": [["x", "Q"], "fail", ["x", "Q"]], "caseless": [["x", "Q"]] * 3, "suppress": [["x"], "fail", ["x"]], "keyword": [["x", "Q"], "fail", "fail" if "k" in st.kw else ["x", "Q"]]}[st.lit]
            if outs != want:
                self.bad("literal", "text under literal %s parsed %r, expected %r" % (st.key(), outs, want))
        if len(self.old) < 6:
            self.old.append((e, st, st.version, skip, st.key()))
        self.check()

    def probe_old(self):
        for e, st, version, skip, key in self.old:
            if st.version != version:
                continue
            for sep in SEPS[:6]:
                self.obs.hit("older elements probed")
                got = attempt(lambda: e.parse_string("a%sb" % sep))
                if (got[0] == "ok") != bool(skip.match(sep)):
                    self.bad("older element", "element built under %r on separator %r gave %r" % (key, sep, got[:2]))


class _Done(Exception):
    pass


class _Unwind(Exception):
    def __init__(self, n):
        self.n = n


class _UnwindBase(BaseException):
    def __init__(self, n):
        self.n = n


def judge(case, obs):
    md = Model(obs)
    rng = random.Random(case["seed"])
    todo = list(case["steps"])
    todo.reverse()
    table = calls()
    keep = []
    crossed = [0]
    deepest = [0]

    def pick(kind, chars, k):
        if kind == "old" and md.bases:
            return md.bases[k % len(md.bases)]
        if kind == "current":
            return md.current(), md.settings()
        if kind == "std":
            return m.whitespaces.STANDARD_WHITESPACE, md.ground_set if m.whitespaces.STANDARD_WHITESPACE is md.ground else Set(" \n\r\t")
        if kind == "none":
            return m.whitespaces.NO_WHITESPACE, Set("")
        b = (m.Whitespace(chars), Set(chars))
        md.bases.append(b)
        return b

    def block():
        """run steps until told to leave this block; returns the way to leave"""
        deepest[0] = max(deepest[0], len(md.stack))
        while todo:
            st = todo.pop()
            op = st[0]
            md.trace.append(st)
            if op in ("with", "use"):
                if len(md.stack) >= 6:
                    continue
                w, s = pick(st[1], st[2], st[3])
                if op == "with":
                    left = False
                    try:
                        with w as c:
                            md.stack.append((c, "with", w, s.copy()))
                            md.check()
                            block()
                            left = True
                    except (_Unwind, _UnwindBase) as u:
                        md.stack.pop()
                        md.check()
                        crossed[0] += 1
                        obs.hit("faults crossing a block")
                        if u.n > 1 and md.stack:
                            raise type(u)(u.n - 1)
                    else:
                        md.stack.pop()
                        md.check()
                else:
                    c = w.use()
                    md.stack.append((c, "use", w, s.copy()))
                    md.check()
                    try:
                        block()
                    finally:
                        c.release()
                        md.stack.pop()
                    md.check()
            elif op == "set":
                if md.stack:
                    md.apply(md.current(), md.settings(), st[1], st[2])
                    md.check()
            elif op == "base":
                # changing a context nobody is in changes nothing for those inside its copies
                if md.bases:
                    w, s = md.bases[-1]
                    md.apply(w, s, st[1], st[2])
                    md.check()
            elif op == "leave":
                if md.stack:
                    return
            elif op == "fault":
                if md.stack:
                    raise (_UnwindBase if st[2] else _Unwind)(st[1])
            elif op == "call":
                try:
                    out = attempt(table[st[1]])
                except Stop:
                    out = ("stop",)
                obs.distinct("kinds of library call", (st[1], out[0] == "ok"))
                if st[1] == "half scan" and out[0] == "ok":
                    keep.append(out[1])
                md.check()
                if keep and rng.random() < 0.3:
                    attempt(lambda: next(keep[-1], None))
                    md.check()
            else:
                md.probe()
                md.probe_old()

    try:
        while todo:
            try:
                block()
            except (_Unwind, _UnwindBase):
                pass
            md.check()
        md.probe()
        md.probe_old()
        keep.clear()
        md.check()
        if deepest[0] >= 3 and crossed[0]:
            obs.mark()
    except _Done:
        pass
    finally:
        # whatever went wrong, the next case starts from the ground
        for _ in range(20):
            if m.whitespaces.CURRENT is md.ground:
                break
            try:
                m.whitespaces.CURRENT.release()
            except Exception:
                break
