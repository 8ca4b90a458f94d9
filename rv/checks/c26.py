"""C26: size and length change nothing"""
import gc
import random
import sys
import threading

from rv import env as m
from rv.real import attempt, plain

ID = "C26"
RULE = (
    "long texts (to 100,000 characters, tens of thousands of items) and wide grammars (hundreds of parts, alternatives, names, words) of thirty shapes - lists, records, alternatives, nesting, operator chains, long tokens, "
    "quotes and comments, skipping, whitespace, ignored text, scans, transformations, splits, dictionaries, lookaheads, stops, counted arrays, failures at the far end, thousands of parses with one parser - "
    "are parsed and compared with what the text was made from (tokens, positions, names, location of the failure), within a CPU time far above normal, without running out of stack. Non-trivial: the text was long and accepted."
)
ASSUME = [
    "nesting is bounded by the stack (C21), so depth stays below 60, or runs where the recursion limit and the stack are raised (abyss, to 500 levels)",
    "after warming up, a parse of the same text leaves no objects behind (fewer than one per two parses)",
]
NEED = {"long runs": 200, "tokens": 150000, "failures located": 6, "scans": 6, "parses with one parser": 4000}
LIMIT = 60
ALPHAS = m.utils.alphas
NUMS = m.utils.nums
SHAPES = {}


def shape(f):
    SHAPES[f.__name__] = f
    return f


class Wrong(Exception):
    pass


def same(got, want, what):
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want))) if isinstance(got, (list, str)) and isinstance(want, (list, str)) else 0
        cut = (lambda x: x[max(0, i - 2) : i + 3]) if isinstance(got, (list, str)) and isinstance(want, (list, str)) else (lambda x: x)
        size = (len(got), len(want)) if isinstance(got, (list, str)) and isinstance(want, (list, str)) else ""
        raise Wrong("%s: sizes %s, first difference at %s: %r is not %r" % (what, size, i, cut(got), cut(want)))


def word(rng, most=6):
    return "".join(rng.choice("abcXYZ") for _ in range(rng.randint(1, most)))


def words(rng, n):
    return [word(rng) for _ in range(n)]


def gap(rng):
    return rng.choice([" ", " ", "  ", "\n", "\t", " \n "])


def flat(x):
    """leaves, without recursion"""
    out, stack = [], [x]
    while stack:
        y = stack.pop()
        if isinstance(y, (list, tuple, m.ParseResults)):
            stack.extend(reversed(list(y)))
        else:
            out.append(y)
    return out


def parse(e, s, pa=True):
    r = e.parse_string(s, parse_all=pa)
    if len(s) and not (0 <= r.start <= r.end <= len(s)):
        raise Wrong("range %s to %s of a text of %s" % (r.start, r.end, len(s)))
    return r


W = lambda: m.Word(ALPHAS)


@shape
def items(rng, n):
    ws = words(rng, n)
    s = "".join(w + gap(rng) for w in ws)
    e = rng.choice([lambda: m.OneOrMore(W()), lambda: m.ZeroOrMore(W()), lambda: W()[...], lambda: m.Many(W(), min_match=n), lambda: m.Many(W(), exact=n), lambda: m.Many(W(), max_match=n), lambda: W() * n])()
    r = parse(e, s)
    same(list(r), ws, "items")
    same(len(r), n, "len")
    same(list(reversed(r)), ws[::-1], "reversed")
    same([r[0], r[-1], r[n // 2]], [ws[0], ws[-1], ws[n // 2]], "indexes")
    return n


@shape
def bounded(rng, n):
    k = n // 2
    r = parse(m.Many(W(), max_match=k) + m.Many(W()), "a " * n)
    same(list(r), ["a"] * n, "two repetitions")
    try:
        parse(m.Many(W(), min_match=n + 1), "a " * n)
    except m.ParseException:
        return n
    raise Wrong("%s items accepted where %s are needed" % (n, n + 1))


@shape
def delimited(rng, n):
    ws = words(rng, n)
    sep = rng.choice([",", ";", "->"])
    s = (rng.choice(["", " "]) + sep + rng.choice(["", " "])).join(ws)
    r = parse(m.delimited_list(W(), separator=sep), s)
    same(list(r), ws, "list")
    return n


@shape
def records(rng, n):
    data = [(word(rng), str(rng.randint(0, 9999))) for _ in range(n)]
    e = m.OneOrMore(m.Group(W()("key") + m.Suppress("=") + m.Word(NUMS)("value")))
    s = "".join("%s%s=%s%s" % (k, rng.choice(["", " "]), v, gap(rng)) for k, v in data)
    r = parse(e, s)
    same([(x["key"], x["value"]) for x in r], data, "records")
    if any(s[x.start : x.end].split("=")[0].strip() != k for x, (k, _) in zip(r, data)):
        raise Wrong("a record is not where it says")
    same([x.start for x in r], sorted(x.start for x in r), "order of records")
    return 2 * n


@shape
def mixture(rng, n):
    e = m.OneOrMore(
        m.Word(NUMS) / (lambda t: int(t[0]))
        | m.Group(m.Literal("[").suppress() + m.ZeroOrMore(W()) + m.Literal("]").suppress())
        | m.Group(W()("k") + "=" + W()("v"))
        | m.helpers.quoted_string
        | W()
    )
    s, want = [], []
    for _ in range(n):
        c = rng.randrange(5)
        w = word(rng)
        if c == 0:
            s.append("17"), want.append(17)
        elif c == 1:
            s.append("[%s %s]" % (w, w)), want.append([w, w])
        elif c == 2:
            s.append("%s=%s" % (w, w)), want.append([w, "=", w])
        elif c == 3:
            s.append('"%s"' % w), want.append('"%s"' % w)
        else:
            s.append(w), want.append(w)
    r = parse(e, gap(rng).join(s))
    same(plain(list(r)), want, "mixture")
    return n


@shape
def trees(rng, n):
    e = m.Forward()
    e << m.Group(m.Suppress("(") + m.ZeroOrMore(e | W()) + m.Suppress(")"))
    n = max(4, n // 8)
    depth = 30

    def tree(d, k):
        """k leaves"""
        if d == 0 or k <= 1:
            return [word(rng) for _ in range(k)]
        out = []
        while k > 0:
            j = rng.randint(1, k)
            out.append(tree(d - 1, j) if rng.random() < 0.5 else word(rng))
            k -= j
        return out

    def text(t):
        return "(" + " ".join(text(x) if isinstance(x, list) else x for x in t) + ")"

    want = []
    while n > 0:
        want.append(tree(depth, 6))
        n -= 6
    r = parse(e, text(want))
    same(plain(r), want, "tree")
    same(flat(r), flat(want), "leaves")
    return len(flat(want))


@shape
def deep(rng, n):
    depth = rng.randint(20, 55)
    e = m.Forward()
    e << m.Group(m.Suppress("(") + m.Optional(e) + m.ZeroOrMore(W()) + m.Suppress(")"))
    r = parse(e, "(" * depth + "a)" * depth)
    x, k = r, 0
    while isinstance(x, m.ParseResults):
        y = [v for v in x if isinstance(v, m.ParseResults)]
        k += 1
        x = y[0] if y else None
    same(flat(r), ["a"] * depth, "nested tokens")
    return depth


def with_stack(f):
    """result of f, run where the stack is not what limits it"""
    out = []

    def go():
        try:
            out.append((True, f()))
        except Exception as cause:
            out.append((False, cause))

    limit, size = sys.getrecursionlimit(), threading.stack_size(512 * 2**20)
    sys.setrecursionlimit(300000)
    try:
        thread = threading.Thread(target=go, daemon=True)
        thread.start()
        thread.join()
    finally:
        sys.setrecursionlimit(limit)
        threading.stack_size(size)
    good, value = out[0]
    if good:
        return value
    raise value


def failing(e, s):
    try:
        return ("ok", e.parse_string(s))
    except m.ParseException as cause:
        return ("fail", cause, cause.loc)


def nest(depth, tokens):
    """tokens(k) at depth k, around the next deeper list"""
    out = []
    for k in range(depth, 0, -1):
        before, after = tokens(k)
        out = before + ([out] if k < depth else []) + after
    return out


def levels(x):
    """[tokens of the first level, of the second ...] of lists that nest once, without recursion"""
    out = []
    while x is not None:
        out.append([y if isinstance(y, str) else None for y in x])
        inner = [y for y in x if isinstance(y, list)]
        x = inner[0] if inner else None
    return out


@shape
def abyss(rng, n):
    """deep nesting, with stack enough"""
    depth = rng.randint(70, 500)
    before, after = [words(rng, rng.randint(0, 2)) for _ in range(depth + 1)], [words(rng, rng.randint(0, 2)) for _ in range(depth + 1)]
    after[depth].append(word(rng))  # an empty group is not true
    want = nest(depth, lambda k: (before[k], after[k]))
    opens = ["(" + " ".join(before[k]) for k in range(1, depth + 1)]
    closes = [" ".join(after[k]) + ")" for k in range(depth, 0, -1)]
    s = "".join(opens) + " " + "".join(closes)
    how = rng.choice(["forward", "nested_expr", "infix", "named", "failing"])
    if how == "infix":
        s = "(" * depth + "a" + "".join("+" + rng.choice("bc") + ")" for _ in range(depth))
        e = m.infix_notation(W(), [("*", 2, m.LEFT_ASSOC), ("+", 2, m.LEFT_ASSOC)])
        leaves = [c for c in s if c in "abc+"]
        r = with_stack(lambda: parse(e, s))
        same(with_stack(lambda: flat(r)), leaves, "operands and operators")
        same("".join(leaves), with_stack(lambda: r.as_string()), "as_string")
        return depth
    if how == "nested_expr":
        e = m.helpers.nested_expr("(", ")", content=W())
    else:
        e = m.Forward()
        name = "x" if how == "named" else None
        inner = e(name) if name else e
        e << m.Group(m.Suppress("(") + m.ZeroOrMore(W()) + m.Optional(inner) + m.ZeroOrMore(W()) + m.Suppress(")"))
    if how == "failing":
        cut = len("".join(opens)) + 1 + rng.randint(0, len(s) - len("".join(opens)) - 2)
        got = with_stack(lambda: failing(e, s[:cut] + "!" + s[cut:]))
        same(got[0], "fail", "outcome of a mistake at %d" % cut)
        same(got[2], cut, "place of the mistake")
        return depth
    r = with_stack(lambda: parse(e, s))
    got = with_stack(lambda: r.as_list())
    same(levels(got), levels([want]) if len(levels(got)) == depth + 1 else levels(want), "levels")
    same("".join(flat(want)), with_stack(lambda: r.as_string()), "as_string")
    if how == "named":
        k = 1
        x = r
        while True:
            inner = with_stack(lambda: x["x"])
            if not inner:
                break
            x = inner
            k += 1
        same(k, depth, "nested names")
    return depth


@shape
def left_chain(rng, n):
    n = min(n, 600)
    vals = [rng.randint(1, 9) for _ in range(n)]
    ops = [rng.choice("+-*") for _ in range(n - 1)]
    s = str(vals[0]) + "".join(rng.choice([" ", ""]) + o + " " + str(v) for o, v in zip(ops, vals[1:]))
    e = m.infix_notation(m.Word(NUMS), [("*", 2, m.LEFT_ASSOC), (m.Literal("+") | "-", 2, m.LEFT_ASSOC)])
    r = parse(e, s)
    same(flat(r), s.split() if " " in s and all(x for x in s.split()) and len(s.split()) == 2 * n - 1 else [x for p in zip([str(v) for v in vals], ops + [""]) for x in p if x], "operands and operators")
    return n


@shape
def right_chain(rng, n):
    n = min(n, 600)
    s = "^".join(["a"] * n)
    r = parse(m.infix_notation(W(), [("^", 2, m.RIGHT_ASSOC)]), s)
    same(flat(r), list(s), "right chain")
    return n


@shape
def prefix_chain(rng, n):
    n = min(n, 600)
    r = parse(m.infix_notation(W(), [("-", 1, m.RIGHT_ASSOC)]), "-" * n + "x")
    same(flat(r), ["-"] * n + ["x"], "signs")
    return n


@shape
def sequence(rng, n):
    n = min(n, 400)
    ws = ["%s%d" % (word(rng), i) for i in range(n)]
    kind = rng.randrange(3)
    if kind == 0:
        e = m.And([m.Literal(w) for w in ws], m.whitespaces.CURRENT)
    else:
        ws = ws[:150]
        e = m.Literal(ws[0])
        for w in ws[1:]:
            e = e + w
    r = parse(e, gap(rng).join(ws))
    same(list(r), ws, "sequence")
    return len(ws)


@shape
def alternatives(rng, n):
    k = min(n, 300)
    ws = sorted({"%s%d" % (word(rng), i) for i in range(k)})
    rng.shuffle(ws)
    c = rng.randrange(6)
    lits = {0: m.Literal, 1: m.Keyword, 2: m.CaselessLiteral}.get(c, m.Literal)
    if c <= 2:
        # the longer one first
        ws.sort(key=len, reverse=True)
        e = m.MatchFirst([lits(w) for w in ws])
    elif c == 3:
        e = m.Or([m.Literal(w) for w in ws])
    elif c == 4:
        e = m.one_of(ws)
    else:
        ws = sorted(ws[:100], key=len, reverse=True)
        e = m.Literal(ws[0])
        for w in ws[1:]:
            e = e | w
    text = [rng.choice(ws) for _ in range(200)]
    r = parse(m.OneOrMore(e), " ".join(text))
    same(list(r), text, "alternatives")
    if e.matches("?"):
        raise Wrong("accepts ?")
    return 200


@shape
def patterns(rng, n):
    """alternatives that are not constant"""
    k = min(n, 120)
    ws = ["k%d" % i for i in range(k)]
    e = m.MatchFirst([m.Group(m.Keyword(w) + (m.Word(NUMS) if i % 2 else m.Literal("=").suppress() + W())) for i, w in enumerate(ws)])
    pick = [rng.randrange(k) for _ in range(150)]
    s = " ".join("k%d %s" % (i, i if i % 2 else "=ab") for i in pick)
    r = parse(m.OneOrMore(e), s)
    same(plain(list(r)), [["k%d" % i, str(i) if i % 2 else "ab"] for i in pick], "patterns")
    return 300


@shape
def any_order(rng, n):
    k = rng.randint(8, 25)
    ws = ["m%d" % i for i in range(k)]
    e = m.MatchAll([m.Keyword(w)(w) if i % 3 else m.Optional(m.Keyword(w)(w)) for i, w in enumerate(ws)])
    got = [w for i, w in enumerate(ws) if i % 3 or rng.random() < 0.5]
    rng.shuffle(got)
    r = parse(e, " ".join(got))
    same(sorted(flat(r)), sorted(got), "any order")
    return k


@shape
def long_token(rng, n):
    n = n * 10
    body = "".join(rng.choice("abcXYZ") for _ in range(1000)) * (n // 1000 + 1)
    c = rng.randrange(9)
    if c == 0:
        e, s, want = W(), body, body
    elif c == 1:
        e, s, want = m.CharsNotIn(","), body + ",", body
    elif c == 2:
        e, s, want = m.Regex("[a-zA-Z]+"), body, body
    elif c == 3:
        e, s, want = m.Combine(m.OneOrMore(m.Char(ALPHAS))), body[: n // 10], body[: n // 10]
    elif c == 4:
        e, s, want = m.Word(ALPHAS, max=n), body, body[:n]
    elif c == 5:
        e, s, want = m.Literal(body), body, body
    elif c == 6:
        e, s, want = m.helpers.restOfLine, body + "\n", body
    elif c == 7:
        e, s, want = m.Word("a", ALPHAS, min=n // 2), "a" + body, "a" + body
    else:
        e, s, want = m.SkipTo(m.Literal(";")), body[: n // 5] + ";", body[: n // 5]
    r = parse(m.And([e, m.Empty()]), s, False)
    same(r[0], want, "token %d" % c)
    same(r.end - (s[r.end - 1] == "\n"), len(want), "end")
    return 1


@shape
def quotes(rng, n):
    n = n * 4
    c = rng.randrange(6)
    raw = "".join(rng.choice(["a", "b ", "x", ".", "\u00e9", "'", "*", "/ "]) for _ in range(n))
    if c == 0:
        s, e, want = '"' + raw + '"', m.helpers.dblQuotedString, '"' + raw + '"'
    elif c == 1:
        s, e, want = '"' + raw.replace("a", '\\"').replace("b", "\\\\") + '"', m.QuotedString('"', esc_char="\\"), raw.replace("a", '"').replace("b", "\\")
    elif c == 2:
        s, e, want = '"' + raw.replace("a", '""') + '"', m.QuotedString('"', esc_quote='""'), raw.replace("a", '"')
    elif c == 3:
        s, e = "/*" + raw.replace("*/", "") + "*/", m.helpers.cStyleComment
        want = s
    elif c == 4:
        s, e = "<!--" + raw + "-->", m.helpers.html_comment
        want = s
    else:
        s, e, want = "<<" + raw + "\n" + raw + ">>", m.QuotedString("<<", end_quote_char=">>", multiline=True), raw + "\n" + raw
    r = parse(m.Group(e), s)
    same(r[0], want, "quoted %d" % c) if isinstance(r[0], str) else same(r[0][0], want, "quoted %d" % c)
    # never closed
    if not (c < 3 and s[:-1].endswith(('"', "\\"))):
        if attempt(lambda: parse(m.Group(e), s[:-1] if c < 3 else s[:-2]), LIMIT)[0] != "fail":
            raise Wrong("unterminated text was not refused")
    return 1


@shape
def white(rng, n):
    ws = words(rng, 50)
    s = "".join(w + rng.choice(" \t\n") * rng.choice([1, n, 3]) for w in ws)
    r = parse(m.OneOrMore(m.Group(W() + m.Optional(m.Word(NUMS)))), s)
    same(flat(r), ws, "between long whitespace")
    same(flat(parse(m.And([W()] * 2), "a" + " " * (n * 20) + "b")), ["a", "b"], "two words")
    return 50


@shape
def ignored(rng, n):
    with m.whitespaces.Whitespace() as w:
        w.add_ignore(m.Regex(r"#[^\n]*"))
        w.add_ignore(m.Regex(r"/\*(?:[^*]|\*(?!/))*\*/"))
        e = m.OneOrMore(W())
        ws = words(rng, 100)
        k = max(2, n // 50)
        s = "".join(x + rng.choice([" ", " # %s\n" % ("c" * k), "/* %s */" % ("d *" * k), " # a\n" * k, "/**/ \n" * k]) for x in ws)
        r = parse(e, s)
    same(list(r), ws, "between ignored text")
    return 100


@shape
def scanning(rng, n):
    s, want = "", []
    parts = []
    at = 0
    for _ in range(n):
        p = rng.choice([" .", ";", ".. ", "\n", " "])
        w = word(rng)
        parts.append(p + w)
        want.append((w, at + len(p), at + len(p) + len(w)))
        at += len(p) + len(w)
    s = "".join(parts)
    e = W()
    got = [(t[0], a, b) for t, a, b in e.scan_string(s)]
    same(got, want, "matches")
    k = rng.randint(1, n)
    same([(t[0], a, b) for t, a, b in e.scan_string(s, max_matches=k)], want[:k], "first matches")
    same([t[0] for t in e.search_string(s)], [w for w, _, _ in want], "search")
    return n


@shape
def sparse(rng, n):
    """few matches, far apart, to the end"""
    gaps = [rng.choice("-. ") * rng.choice([1, 99, 4096, 7000, 33000, 66000]) for _ in range(rng.randint(2, 6))]
    s, want = "", []
    for g in gaps:
        s += g + ";"
        want.append((len(s), len(s) + 2))
        s += "ab"
    s += rng.choice(["", "-" * 9000])
    e = m.Literal("ab")
    same([(a, b) for _, a, b in e.scan_string(s)], want, "matches far apart")
    same([t[0] for t in e.search_string(s)], ["ab"] * len(want), "search far apart")
    same((e / (lambda: "<>")).transform_string(s), s.replace("ab", "<>"), "transformed far apart")
    same(list(e.split(s)), s.split("ab"), "split far apart")
    same(list(parse(m.SkipTo(m.Literal("#")) + m.Literal("#"), s + "#")), [s.lstrip(" "), "#"], "skipped far")
    return len(want) * 5


@shape
def rewriting(rng, n):
    ws = [rng.choice(["x", "ab", "yy", "q"]) + rng.choice([" ", ", ", ";\n"]) for _ in range(n)]
    s = "".join(ws)
    same(m.Literal("ab").replace_with("<>").transform_string(s), s.replace("ab", "<>"), "transformed")
    same((m.Word("xy") / (lambda t: t[0].upper())).transform_string(s), s.replace("x", "X").replace("y", "Y"), "upper case")
    same(list(m.Literal(";").split(s)), s.split(";"), "split")
    k = rng.randint(1, 50)
    same(list(m.Literal(";").split(s, maxsplit=k)), s.split(";", k), "split at most %d" % k)
    same("".join(x if isinstance(x, str) else x[0] for x in m.Literal(";").split(s, include_separators=True)), s, "split with separators")
    return n


@shape
def names(rng, n):
    k = min(n, 200)
    e = m.And([m.Keyword("n%d" % i)("a%d" % i) for i in range(k)])
    r = parse(e, " ".join("n%d" % i for i in range(k)))
    same([r["a%d" % i] for i in range(k)], ["n%d" % i for i in range(k)], "names")
    same(sorted(r.keys()), sorted("a%d" % i for i in range(k)), "keys")
    r = parse(m.OneOrMore(W()("w") + m.Word(NUMS)("v")), "".join("%s %d " % ("ab", i) for i in range(n // 4)))
    same(list(r["v"]), [str(i) for i in range(n // 4)], "values of a name")
    return k


@shape
def dictionary(rng, n):
    k = min(n, 400)
    keys = ["k" + "".join("abcdefghij"[int(d)] for d in str(i)) for i in range(k)]
    rng.shuffle(keys)
    d = {x: str(i) for i, x in enumerate(keys)}
    r = parse(m.Group(m.helpers.dict_of(W() + m.Suppress(":"), m.Word(NUMS))), " ".join("%s: %s" % x for x in d.items()))
    while len(list(r)) == 1 and isinstance(r[0], m.ParseResults) and len(list(r[0])) != 2:
        r = r[0]
    same({x: r[x] for x in keys}, d, "dictionary")
    return k


@shape
def guarded(rng, n):
    ws = words(rng, n)
    s = " ".join(ws) + " end " + " ".join(ws[:3])
    c = rng.randrange(4)
    if c == 0:
        e = m.OneOrMore(~m.Keyword("end") + W()) + m.Keyword("end")
    elif c == 1:
        e = m.OneOrMore(W(), stop_on=m.Keyword("end")) + m.Keyword("end")
    elif c == 2:
        e = m.OneOrMore(m.And([m.FollowedBy(m.Word("abcXYZ", min=1)), ~m.Literal("end"), W()])) + "end"
    else:
        e = m.OneOrMore(W().add_condition(lambda t: t[0] != "end")) + m.Keyword("end")
    r = parse(e, s, False)
    same(list(r), ws + ["end"], "guarded %d" % c)
    return n


@shape
def counted(rng, n):
    ws = words(rng, n)
    r = parse(m.helpers.counted_array(W()) + m.Word(NUMS), "%d %s 7" % (n, " ".join(ws)))
    same(flat(r), ws + ["7"], "counted")
    return n


@shape
def far_failure(rng, n):
    ws = [word(rng) + rng.choice(["=1", "= 22"]) + rng.choice([" ", "\n"]) for _ in range(n)]
    s = "".join(ws)
    e = m.And([m.OneOrMore(m.Group(W() + "=" + m.Word(NUMS))), m.Literal(";")])
    place = len(s)
    bad = s + "zz=?"
    try:
        parse(e, bad)
    except m.ParseException as c:
        if not (place <= c.loc <= len(bad)):
            raise Wrong("failed at %d of %d, reported at %d" % (place + 3, len(bad), c.loc))
        same((c.lineno, c.column), (bad.count("\n", 0, c.loc) + 1, c.loc - bad.rfind("\n", 0, c.loc)), "line and column")
        if len(str(c)) > 20000:
            raise Wrong("the message has %d characters" % len(str(c)))
        return 1
    raise Wrong("accepted")


@shape
def skipping(rng, n):
    parts = [("".join(rng.choice("ab .") for _ in range(rng.choice([1, 5, 200])))).strip() or "z" for _ in range(max(3, n // 40))]
    s = "".join(p + ";" for p in parts)
    r = parse(m.OneOrMore(m.SkipTo(m.Literal(";")) + m.Suppress(";")), s)
    same([x.strip() for x in r], [p.strip() for p in parts], "skipped")
    return len(parts)


@shape
def original(rng, n):
    s = " ".join(words(rng, n))
    r = parse(m.Group(m.helpers.originalTextFor(m.OneOrMore(W()))), s)
    same(flat(r), [s], "original text")
    return n


@shape
def joined(rng, n):
    ws = words(rng, n)
    r = parse(m.Combine(m.OneOrMore(W()), separator="-"), " ".join(ws))
    same(r[0], "-".join(ws), "combined")
    return n


@shape
def actions(rng, n):
    calls = []
    e = m.OneOrMore(m.Group(m.Word(NUMS).add_parse_action(lambda t, l, s: calls.append(l) or int(t[0]))))
    s, want, places = "", [], []
    parts, at = [], 0
    for i in range(n):
        x = str(i)
        places.append(at)
        parts.append(x + " ")
        at += len(x) + 1
    r = parse(e, "".join(parts))
    same([x[0] for x in r], list(range(n)), "converted")
    same(calls, places, "locations given to the action")
    return n


@shape
def again(rng, n):
    """one parser, many texts"""
    k = max(200, n // 2)
    e = m.OneOrMore(m.Group(W()("k") + "=" + m.Word(NUMS)("v")) | m.Group(W() + ":")("label"))
    p = e.finalize()
    texts = ["a=1 b=2", "a=", "b: c=3", "", "x", "a=1 b: c:", "1", "long=1 " * 20]

    def out(s):
        try:
            return plain(list(p.parse(s, parse_all=True)))
        except m.ParseException as c:
            return c.loc, str(c)

    first = [out(s) for s in texts]
    before = m.whitespaces.CURRENT
    counts = []
    for i in range(k):
        for s, f in zip(texts, first):
            x = out(s)
            if x != f:
                raise Wrong("parse number %d of %r gives %r, the first gave %r" % (i, s, x, f))
        if i in (50, k - 1):
            del x
            gc.collect()
            counts.append(len(gc.get_objects()))
    if m.whitespaces.CURRENT is not before:
        raise Wrong("the whitespace in force changed")
    if counts[-1] - counts[0] > k * len(texts) / 2:
        raise Wrong("%d objects more after %d parses" % (counts[-1] - counts[0], (k - 50) * len(texts)))
    return k * len(texts)


@shape
def builds(rng, n):
    """many expressions made, used and dropped"""
    k = max(50, n // 20)
    base = m.Word(ALPHAS)
    for i in range(k):
        e = m.Group(base("w%d" % i) + m.Optional(m.Literal("=") + m.Word(NUMS)))
        r = parse(e, "ab = %d" % i)
        same(flat(r), ["ab", "=", str(i)], "built number %d" % i)
    same(list(parse(base, "xyz")), ["xyz"], "the shared part")
    return k


def plan(tier):
    per = 12 if tier == "quick" else 120
    return [(k, max(1, per // 4), 4) for k in sorted(SHAPES)]


SIZES = [300, 1000, 3000, 8000]
SLOW = {"mixture": 3000, "far_failure": 2000, "records": 5000, "trees": 5000, "guarded": 3000}


def gen(kind, rng):
    n = rng.choice(SIZES)
    return {"kind": kind, "n": min(n, SLOW.get(kind, n)) + rng.randint(0, 9), "seed": rng.getrandbits(40)}


def judge(case, obs):
    kind, n = case["kind"], case["n"]
    out = attempt(lambda: SHAPES[kind](random.Random(case["seed"]), n), LIMIT)
    if out[0] == "ok":
        obs.hit("long runs")
        obs.hit("tokens", out[1]) if kind != "again" else obs.hit("parses with one parser", out[1])
        if kind == "far_failure":
            obs.hit("failures located")
        if kind == "scanning":
            obs.hit("scans")
        obs.mark()
        obs.distinct("runs", (kind, n // 100))
    elif out[0] == "exc" and out[1] == "Wrong":
        obs.violate("size", "%s of size %d: %s" % (kind, n, out[2]))
    else:
        obs.violate("size", "%s of size %d: %r" % (kind, n, (out[0],) + tuple(str(x)[:300] for x in out[1:])))
