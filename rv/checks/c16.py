"""C16: the positions of results delimit the text they came from"""
import json

from rv import env as m
from rv.gen import G, inputs
from rv.checks.c07 import texts
from rv.model import Builder, Fail, N, OutOfModel, Ref, kinds_in
from rv.real import at, attempt, build, draw_style, plain, plain_top, spec_names

AN, AL, NU = m.utils.alphanums, m.utils.alphas, m.utils.nums
ID = "C16"
RULE = (
    "every result of random grammars (and of the library's helpers) is walked: each node must cover a range of the text inside its parent's, siblings in order without overlap "
    "(choices of order excepted, which must not overlap), every token that is text must occur in its own range; ranges of tokens, groups, named values and of the whole are compared with the "
    "reference's; locating helpers, positions given to actions and by scan_string are compared with the ranges; line(), col() and lineno() with their definition. Non-trivial: a result with a token at a position other than 0."
)
ASSUME = ["whether the whitespace around an absent optional element belongs to the range of what encloses it is not specified", "what a lookahead shows lies outside what it consumed"]
NEED = {"nodes walked": 300000, "tokens located": 40000, "groups located": 10000, "named located": 300, "helper trees": 1500, "located": 5000, "lines": 8000, "scanned": 4000}
OPTS = {
    "flat": dict(terms=G.TERMS, combs=["and", "and", "opt", "zom", "oom", "group", "first", "name", "combine"]),
    "rec": dict(terms=["lit", "lit2", "word", "char"], combs=["let", "let", "group", "and", "first", "opt", "oom", "name"]),
    "spaces": dict(barews=True, terms=["lit", "lit2", "word", "char", "kw"], combs=["ws", "ws", "ws", "and", "and", "group", "group", "oom", "oom", "zom", "many", "name"]),
    "wide": dict(stop=True, terms=G.TERMS, combs=G.COMBS + ["all", "let", "group", "combine", "skipto", "ahead", "not", "suppress", "name", "firstlit", "ws"]),
}


def plan(tier):
    k = 4 if tier == "quick" else 90
    return [("flat", 6 * k, 90), ("rec", 6 * k, 90), ("wide", 10 * k, 90), ("spaces", 6 * k, 90), ("locate", 6 * k, 90), ("helper", 4 * k, 90), ("lines", 2 * k, 120)]


WORDS = ["a", "bc", "if", "x1", "12", "3.5", "'q (s'", '"d"', "(", ")", "[", "]", ",", ",", ";", "+", "-", "*", "=", "!", "\n", "\n  ", " ", "  ", "\t", "# c\n", "<b>", "</b>", "<a h='x'>", "192.168.0.1", "2020-01-02", "and", "not", "2 a b"]


def gen_at(sp):
    """
    whether an end before what is skipped next is at the same place as an end after it
    """
    if '"ignore"' not in json.dumps(sp):
        return at

    def comments_too(s, end):
        while True:
            end = at(s, end)
            if s[end : end + 1] != "#":
                return end
            while s[end : end + 1] not in ("", "\n"):
                end += 1

    return comments_too


def gen(kind, rng):
    if kind == "lines":
        return {"text": "".join(rng.choice(["a", "bc", "\n", "\n", "\r\n", " ", "\t", "é", "", "\x0b", "\u2028", "\r", "x" * 9]) for _ in range(rng.randint(0, 14)))}
    if kind == "helper":
        return {"helper": rng.randrange(len(HELPERS)), "inputs": ["".join(rng.choice(WORDS) + rng.choice(["", "", " "]) for _ in range(rng.randint(1, 14))) for _ in range(12)]}
    opts = dict(OPTS[rng.choice(["flat", "rec", "wide", "spaces"]) if kind == "locate" else kind])
    g = G(rng, **opts)
    sp = plain_top(g.spec(rng.randint(2, 4) if kind != "locate" else rng.randint(1, 3)))
    if sp[0] in ("let", "ref", "name"):
        sp = ["and", [sp, ["empty"]]]
    case = {"spec": sp, "style": draw_style(rng), "pre": rng.choice(["none", "none", "finalize", "streamline", "copy"]), "inputs": inputs(sp, rng, 6)}
    if kind == "locate":
        case["scan"] = texts(sp, rng, 2)
        case["lead"] = rng.choice(["", "  ", "\n "])
    return case


def made(t, r):
    """not taken from the text: the end of text as a line end, a default, a combination"""
    return (t == "\n" and isinstance(r.type, m.LineEnd)) or (isinstance(r.type, m.Optional) and r.start == r.end) or isinstance(r.type, m.Combine)


def walk(r, s, lo, hi, obs, path=""):
    """-> what is wrong with the ranges under r"""
    obs.hit("nodes walked")
    if not (isinstance(r.start, int) and isinstance(r.end, int)) or not lo <= r.start <= r.end <= hi:
        return "%s%s covers %r-%r inside %r-%r" % (path, type(r.type).__name__, r.start, r.end, lo, hi)
    loose = isinstance(r.type, m.MatchAll)
    last = r.start
    seen = []
    for t in r.tokens:
        if isinstance(t, m.Annotation):
            # names added by a Regex
            if t.start > t.end:
                return "%sannotation %r covers %r-%r" % (path, t.name, t.start, t.end)
            continue
        if not isinstance(t, m.ParseResults):
            if isinstance(t, str) and not made(t, r) and t not in s[r.start : r.end] and t.lower() not in s[r.start : r.end].lower():
                return "%stoken %r of %s is not in its range %r" % (path, t, type(r.type).__name__, s[r.start : r.end])
            continue
        inner = t
        bad = walk(t, s, r.start, r.end, obs, path + type(r.type).__name__ + "/")
        if bad:
            return bad
        if loose:
            for a, b in seen:
                if t.start < b and a < t.end and at(s, t.start) != at(s, b):
                    return "%s%s parts %r-%r and %r-%r overlap" % (path, type(r.type).__name__, a, b, t.start, t.end)
            seen.append((t.start, t.end))
            continue
        if t.start < last:
            return "%s%s: a part starts at %r, the one before it ended at %r" % (path, type(r.type).__name__, t.start, last)
        last = t.end
    return None


def real_items(r, top=True):
    """tokens and groups in order, with their ranges"""
    out = []
    group = isinstance(r.type, m.Group) and not top
    if group:
        out.append(("(", r.start, r.end))
    for t in r.tokens:
        if isinstance(t, m.Annotation):
            continue
        if isinstance(t, m.ParseResults):
            out.extend(real_items(t, False))
        else:
            out.append((t, r.start, r.end))
    return out


def ref_items(n, top=True):
    out = []
    if n.ann:
        return out
    if n.group and not top:
        out.append(("(", n.start, n.end) + (("sure",) if solid(n) else ()))
    for k in n.kids:
        if isinstance(k, N):
            out.extend(ref_items(k, False))
        else:
            out.append((k, n.start, n.end))
    return out


def solid(n):
    """nothing in it is empty, so its end is not in doubt"""
    return n.start < n.end and all(solid(k) for k in n.kids if isinstance(k, N))


def misplaced(at, s, mine, theirs, sure):
    theirs = [(x, sure or bool(z)) for x, *z in [(x[:3],) + x[3:] for x in theirs]]
    for (x, a, b), ((y, c, d), exact) in zip(mine, theirs):
        if ((a, b) != (c, d)) if exact else ((at(s, a), at(s, b)) != (at(s, c), at(s, d))):
            return True
    return False


def judge(case, obs):
    if case["kind"] == "lines":
        return lines(case, obs)
    if case["kind"] == "helper":
        return helper(case, obs)
    sp = case["spec"]
    at = gen_at(sp)
    names = sorted(spec_names(sp))
    b = attempt(lambda: build(Builder(case["style"]), sp, case["pre"]))
    if b[0] != "ok":
        obs.hit("refused at build")
        return
    e = b[1]
    for s in case["inputs"]:
        try:
            node = Ref(s, budget=3000).parse(sp)
        except (Fail, OutOfModel, RecursionError):
            continue
        got = attempt(lambda: e.parse_string(s))
        if got[0] == "deep":
            continue
        if got[0] != "ok":
            return obs.violate("rejected", "input=%r %r" % (s, got))
        r = got[1]
        bad = attempt(lambda: walk(r, s, 0, len(s), obs))
        if bad[0] != "ok" or bad[1]:
            return obs.violate("ranges", "input=%r %s" % (s, bad[1]))
        if (at(s, r.start), at(s, r.end)) != (at(s, node.start), at(s, node.end)):
            return obs.violate("whole", "input=%r result covers %d-%d, reference %d-%d" % (s, r.start, r.end, node.start, node.end))
        sure = solid(node)
        if sure:
            obs.hit("sure ends")
            if (r.start, r.end) != (node.start, node.end):
                return obs.violate("whole", "input=%r result covers %d-%d, reference %d-%d" % (s, r.start, r.end, node.start, node.end))
        if node.name:
            node = N("top", node.start, node.end, [node])
        mine, theirs = real_items(r), ref_items(node)
        if [x[0] for x in mine] == [x[0] for x in theirs]:
            if misplaced(at, s, mine, theirs, sure):
                return obs.violate("tokens", "input=%r tokens are at %r, reference %r" % (s, mine, theirs))
            obs.hit("tokens located", sum(1 for x in mine if x[0] != "("))
            obs.hit("groups located", sum(1 for x in mine if x[0] == "("))
            if any(x[1] for x in mine):
                obs.mark()
        else:
            obs.hit("other tokens")
        obs.distinct("shapes", repr(mine))
        for n in names:
            vals = [v for v in node.by_name(n)]
            v = r[n]
            if len(vals) == 1 and isinstance(vals[0], N) and isinstance(v, m.ParseResults) and not vals[0].ann and not isinstance(v, m.Annotation) and v.start >= 0:
                if (at(s, v.start), at(s, v.end)) != (at(s, vals[0].start), at(s, vals[0].end)):
                    return obs.violate("named", "input=%r %r covers %d-%d, reference %d-%d" % (s, n, v.start, v.end, vals[0].start, vals[0].end))
                obs.hit("named located")
    if case["kind"] == "locate":
        locate(case, e, obs)


def locate(case, e, obs):
    """the positions helpers, actions and scans give"""
    sp = case["spec"]
    at = gen_at(sp)
    ignores = at is not globals()["at"]
    calls = []

    def note(t, l, s):
        calls.append((l, t.start, t.end, s))

    def marked():
        x = build(Builder(case["style"]), sp, "none")
        return m.And([x, m.Empty()], m.whitespaces.CURRENT) / note

    forms = attempt(lambda: (m.helpers.located_expr(e), m.helpers.originalTextFor(e), m.And([m.Literal("@"), m.helpers.located_expr(e)("loc")], m.whitespaces.CURRENT), m.And([m.Literal("@"), m.helpers.originalTextFor(e)("txt")], m.whitespaces.CURRENT), marked()))
    if forms[0] != "ok":
        obs.hit("refused at build")
        return
    loc, txt, loc2, txt2, act = forms[1]
    for s0 in case["inputs"]:
        s1 = case["lead"] + s0
        s2 = "@" + case["lead"] + s0
        for s, lo, tx, k in ((s1, loc, txt, 0), (s2, loc2, txt2, 1)):
            try:
                ref = Ref(s, budget=3000)
                start = ref.ws.skip(s, k)
                node = ref.ev(sp, start, ref.ws)
            except Fail:
                node = None
            except (OutOfModel, RecursionError):
                continue
            a, b = attempt(lambda: lo.parse_string(s)), attempt(lambda: tx.parse_string(s))
            if "deep" in (a[0], b[0]):
                continue
            if (a[0] == "ok") != (node is not None) or (b[0] == "ok") != (node is not None):
                return obs.violate("located", "input=%r gives %r %r, reference %s" % (s, a, b, node and node.view()))
            if node is None:
                continue
            r = a[1]["loc"] if k else a[1]
            x, y = r["locn_start"], r["locn_end"]
            if (x if isinstance(x, int) else None, y if isinstance(y, int) else None) == (None, None):
                return obs.violate("located", "input=%r %r locn_start=%r locn_end=%r" % (s, plain(a[1]), x, y))
            if (at(s, x), at(s, y)) != (at(s, node.start), at(s, node.end)) or x > y or (solid(node) and (x, y) != (node.start, node.end)):
                return obs.violate("located", "input=%r located at %r-%r, reference %d-%d" % (s, x, y, node.start, node.end))
            want = plain(Ref(s, budget=9000).ev(["and", [sp, ["empty"]]], start, ref.ws).view())
            if plain(r["value"]) not in (want, want[0] if len(want) == 1 else want):
                return obs.violate("located", "input=%r value %r, reference %r" % (s, plain(r["value"]), want))
            t = b[1]["txt"] if k else b[1]
            t = t[0] if isinstance(t, m.ParseResults) and len(t) == 1 else t
            if not isinstance(t, str) or (not ignores and t.strip() != s[node.start : node.end].strip() if not solid(node) else t != s[node.start : node.end]) or t not in s:
                return obs.violate("original text", "input=%r gives %r, reference %r" % (s, t, s[node.start : node.end]))
            obs.hit("located")
            if node.start:
                obs.mark()
        del calls[:]
        r = attempt(lambda: act.parse_string(s1))
        if r[0] == "ok":
            if not calls or calls[-1][0] != calls[-1][1] or (calls[-1][1], calls[-1][2]) != (r[1].start, r[1].end) or calls[-1][3] != s1:
                return obs.violate("action", "input=%r action told %r, result covers %d-%d" % (s1, calls, r[1].start, r[1].end))
    for s in case["scan"]:
        got = attempt(lambda: list(e.scan_string(s)))
        if got[0] != "ok":
            continue
        last = 0
        for t, a, b in got[1]:
            bad = walk(t, s, 0, len(s), obs)
            if bad:
                return obs.violate("scan", "input=%r %s" % (s, bad))
            if not last <= a <= b <= len(s) or at(s, t.start) != at(s, a) or at(s, t.end) != at(s, b):
                return obs.violate("scan", "input=%r match said to be %d-%d covers %d-%d, after %d" % (s, a, b, t.start, t.end, last))
            last = b
            obs.hit("scanned")


def lines(case, obs):
    s = case["text"]
    for loc in range(len(s) + 1):
        before = s[:loc]
        n = before.count("\n") + 1
        text = s.split("\n")[n - 1]
        want = (n, loc - sum(len(x) + 1 for x in s.split("\n")[: n - 1]) + 1, text)
        got = (m.utils.lineno(loc, s), m.utils.col(loc, s), m.utils.line(loc, s))
        obs.hit("lines")
        if got != want:
            return obs.violate("lines", "text=%r loc=%d lineno, col, line are %r, should be %r" % (s, loc, got, want))
    if "\n" in s:
        obs.mark()


def _forward():
    f = m.Forward()
    f << (m.Group(m.Literal("(") + m.ZeroOrMore(f) + m.Literal(")")) | m.Word(AN))
    return m.OneOrMore(f)


def _indented():
    stmt = m.Forward()
    stmt << (m.Group(m.Literal("if") + m.helpers.indented_block(stmt)) | m.Word(AL))
    return m.OneOrMore(stmt)


def _ops():
    return m.infix_notation(m.Word(AN), [("!", 1, m.RIGHT_ASSOC), ("-", 1, m.RIGHT_ASSOC), ("*", 2, m.LEFT_ASSOC), ("+", 2, m.LEFT_ASSOC), ("=", 2, m.RIGHT_ASSOC), (("?", ":"), 3, m.LEFT_ASSOC), ("not", 1, m.RIGHT_ASSOC), ("and", 2, m.LEFT_ASSOC)])


def _ignoring():
    with m.Whitespace(" \t\n") as w:
        w.add_ignore(m.Literal("#") + m.Regex("[^\n]*"))
        w.add_ignore(m.Regex(r"'[^'\n]*'"))
        return m.OneOrMore(m.Group(m.Word(AN)("k") + m.Optional(m.Literal("=") + m.Word(AN)("v"))) | m.Char("()[],;+-*!"))


def _tags():
    a, b = m.helpers.makeHTMLTags("b")
    return m.OneOrMore(a | b | m.helpers.makeHTMLTags("a")[0] | m.Word(AN))


HELPERS = [
    ("nested", lambda: m.helpers.nested_expr()),
    ("nested words", lambda: m.helpers.nested_expr("[", "]", m.Word(AN))),
    ("delimited", lambda: m.delimited_list(m.Group(m.Word(AN)))),
    ("combined", lambda: m.delimited_list(m.Word(AN), ",", combine=True)),
    ("counted", lambda: m.helpers.counted_array(m.Word(AL))),
    ("infix", _ops),
    ("forward", _forward),
    ("indented", _indented),
    ("ignoring", _ignoring),
    ("tags", _tags),
    ("dict", lambda: m.helpers.dict_of(m.Word(AL), m.Word(NU))),
    ("dict2", lambda: m.Dict(m.OneOrMore(m.Group(m.Word(AL)("k") + m.Optional(m.Literal("=")) + m.OneOrMore(m.Word(NU)))))),
    ("regex", lambda: m.Regex(r"(?P<w>[a-z]+)(\d*)[-=]?(?P<e>\w*)")),
    ("regex2", lambda: m.OneOrMore(m.Regex(r"(\d+)(\.(\d+))?")("n") | m.Regex(r"[a-z]+"))),
    ("quoted", lambda: m.OneOrMore(m.helpers.quoted_string | m.Word(AN))),
    ("one_of", lambda: m.OneOrMore(m.one_of("a and + ++ - = not if x1") | m.Word(NU))),
    ("all", lambda: m.Group(m.Word(AL)) & m.Optional(m.Word(NU)) & m.ZeroOrMore(m.Char(",;"))),
    ("original", lambda: m.OneOrMore(m.helpers.originalTextFor(m.Word(AL) + m.Optional(m.Word(NU))) | m.Char("(),;"))),
    ("located", lambda: m.OneOrMore(m.helpers.located_expr(m.Word(AL) + m.Optional(m.Word(NU))) | m.Char("(),;"))),
    ("ungroup", lambda: m.OneOrMore(m.helpers.ungroup(m.Group(m.Word(AL))) | m.Char("(),;"))),
    ("comma", lambda: m.helpers.comma_separated_list),
    ("comments", lambda: m.OneOrMore(m.helpers.pythonStyleComment | m.Word(AN) | m.Char("(),;"))),
    ("times", lambda: m.OneOrMore(m.Group(m.Word(AN) * 2) | m.Char("(),;") * (1, 2))),
    ("skip", lambda: m.OneOrMore(m.Word(AL) + m.SkipTo(m.Char(",;"), include=True))),
    ("ellipsis", lambda: m.Word(AL) + ... + m.Char(",;")),
    ("lookahead", lambda: m.OneOrMore(m.Word(AL) + m.FollowedBy(m.Char(",;"))("next") + m.Char(",;"))),
    ("behind", lambda: m.OneOrMore(m.Char(",;ab") + m.Optional(m.PrecededBy(m.Literal("a")) + m.Word(AN)))),
    ("words", lambda: m.OneOrMore(m.WordStart(AN) + m.Word(AL) + m.WordEnd(AN) | m.Char(",;()"))),
    ("white", lambda: m.OneOrMore(m.Word(AN).leave_whitespace() + m.White() | m.Char(",;()")) if hasattr(m.Word(AN), "leave_whitespace") else m.Word("a")),
]
_made = {}


def helper(case, obs):
    i = case["helper"]
    if i not in _made:
        _made[i] = HELPERS[i][1]()
    e = _made[i]
    for s in case["inputs"]:
        got = attempt(lambda: [(e.parse_string(s), 0, len(s))])
        more = attempt(lambda: list(e.scan_string(s, max_matches=20)))
        if got[0] not in ("ok", "fail", "deep") or more[0] not in ("ok", "deep"):
            return obs.violate("helper", "%s input=%r gives %r %r" % (HELPERS[i][0], s, got, more))
        for t, a, b in (got[1] if got[0] == "ok" else []) + (more[1] if more[0] == "ok" else []):
            bad = walk(t, s, 0, len(s), obs)
            if bad:
                return obs.violate("helper", "%s input=%r %s" % (HELPERS[i][0], s, bad))
            obs.hit("helper trees")
            obs.mark()
