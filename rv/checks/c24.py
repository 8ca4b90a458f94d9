"""C24: whole grammars written with the library agree with independent parsers"""
import csv
import io
import json
import re

from rv import env as m
from rv.real import attempt

ID = "C24"
RULE = (
    "twelve realistic languages (JSON, integer arithmetic, s-expressions with comments, CSV, INI, SQL select, C-like configuration with comments, chemical formulas, access log lines, EBNF, a statement language with blocks, and query strings) are written with the library in several equivalent ways "
    "(operators or classes, streamlined, finalized or copied, choices reordered where that is the same); random documents, spoiled ones and truncated ones are parsed whole, and what is accepted and the values the parse actions and names give are compared with the json, csv, ast modules or a recursive descent parser written by hand. Non-trivial: a document is accepted."
)
ASSUME = ["the hand-written parsers and json, csv, ast are right about these languages", "nesting below a depth of 20 fits in Python's stack"]
KINDS = ["json", "arith", "sexp", "csv", "ini", "sql", "conf", "chem", "log", "ebnf", "stmt", "query"]
NEED = dict([("documents", 20000), ("accepted", 8000), ("refused", 6000)] + [("accepted:" + k, 300) for k in KINDS] + [("refused:" + k, 300) for k in KINDS])


def plan(tier):
    k = 2 if tier == "quick" else 40
    return [(x, 2 * k, 60) for x in KINDS]


def some(rng, chars, a, b):
    return "".join(rng.choice(chars) for _ in range(rng.randint(a, b)))


LOW = "abcdefghijklmnopqrstuvwxyz"
LET = LOW + LOW.upper()
DIG = "0123456789"


class No(Exception):
    pass


def child(x, name):
    """the item of that name"""
    if isinstance(x, m.ParseResults):
        for y in x:
            if isinstance(y, m.ParseResults) and y.name == name:
                return y
    return None


def top(r, name):
    """the result of the whole, it may be that of its only Group or hold it"""
    if r.name == name:
        return r
    y = child(r, name)
    return r if y is None else y


class Scan:
    """what the hand-written parsers share"""

    def __init__(self, s, skip):
        self.s, self.i, self.skip_re = s, 0, re.compile(skip)
        self.skip()

    def skip(self):
        self.i = self.skip_re.match(self.s, self.i).end()

    def try_re(self, r):
        f = re.compile(r).match(self.s, self.i)
        if not f:
            return None
        self.i = f.end()
        self.skip()
        return f.group(0)

    def re(self, r):
        f = self.try_re(r)
        if f is None:
            raise No()
        return f

    def done(self):
        if self.i < len(self.s):
            raise No()


class V:
    """choices between equivalent ways of writing a grammar"""

    def __init__(self, bits):
        self.bits = bits

    def of(self, *ways):
        k = self.bits % len(ways)
        self.bits //= len(ways)
        return ways[k]()

    def seq(self, *e):
        """a + b + c"""

        def plus():
            out = e[0] + e[1]
            for x in e[2:]:
                out = out + x
            return out

        return self.of(plus, lambda: m.And(list(e), m.whitespaces.CURRENT), lambda: e[0] + (m.And(list(e[1:]), m.whitespaces.CURRENT) if len(e) > 2 else e[1]))

    def alt(self, *e):
        def bars():
            out = e[0] | e[1]
            for x in e[2:]:
                out = out | x
            return out

        return self.of(bars, lambda: m.MatchFirst(list(e)), lambda: m.MatchFirst([m.MatchFirst(list(e[:-1])) if len(e) > 2 else e[0], e[-1]]))

    def any_order(self, *e):
        """alternatives that exclude each other"""
        return self.of(lambda: self.alt(*e), lambda: self.alt(*e[::-1]), lambda: m.Or(list(e)))

    def define(self, f, e):
        def op():
            nonlocal f
            f <<= e

        self.of(lambda: f << e, op)
        return f

    def drop(self, t):
        return self.of(lambda: m.Suppress(t), lambda: m.Literal(t).suppress())

    def listed(self, e, sep):
        """zero or more"""
        return self.of(
            lambda: m.Optional(m.delimited_list(e, separator=sep)),
            lambda: m.Optional(e + m.ZeroOrMore(m.Suppress(sep) + e)),
            lambda: m.Optional(m.delimited_list(e, sep)),
        )

    def finish(self, e):
        return self.of(lambda: e, lambda: e.streamline(), lambda: e.copy(), lambda: e.finalize(), lambda: m.Forward(e))


# ---------------------------------------------------------------- JSON
class Json:
    def build(self, v):
        def string(t):
            return ParseValue(json.loads(t[0]))

        def number(t):
            return ParseValue(json.loads(t[0]))

        value = m.Forward()
        text = m.Regex(r'"(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*"') / string
        num = v.of(lambda: m.Regex(r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?") / number, lambda: self.number() / number)
        const = lambda t, x: m.Keyword(t) / (lambda: ParseValue(x))
        array = v.seq(v.drop("["), v.listed(value, ","), v.drop("]")) / (lambda t: ParseValue([x.value for x in t]))
        pair = m.Group(v.seq(text, v.drop(":"), value))
        obj = v.seq(v.drop("{"), v.listed(pair, ","), v.drop("}")) / (lambda t: ParseValue({k.value: x.value for k, x in (list(p) for p in t)}))
        v.define(value, v.any_order(text, num, const("true", True), const("false", False), const("null", None), array, obj))
        return v.finish(value)

    def number(self):
        with m.whitespaces.NO_WHITESPACE:
            return m.Combine(m.Optional("-") + (m.Literal("0") | m.Word("123456789", DIG)) + m.Optional("." + m.Word(DIG)) + m.Optional(m.Char("eE") + m.Optional(m.Char("+-")) + m.Word(DIG)))

    def oracle(self, s):
        def bad(x):
            raise ValueError

        return json.loads(s, parse_constant=bad)

    def value(self, r):
        return list(r)[0].value

    def text(self, rng):
        def val(d):
            k = rng.randrange(9 if d else 6)
            if k < 2:
                return "".join(rng.choice(["a", "é", "\n", '"', "\\", " ", "/", "1", ",", "]"]) for _ in range(rng.randint(0, 4)))
            if k < 3:
                return rng.choice([0, -1, 12, 1.5, -0.25, 1e20, 3e-7])
            if k < 4:
                return rng.choice([True, False, None])
            if k < 6:
                return rng.randint(-99, 9999)
            if k < 8:
                return [val(d - 1) for _ in range(rng.randint(0, 3))]
            return {some(rng, "abc ", 0, 2): val(d - 1) for _ in range(rng.randint(0, 3))}

        t = json.dumps(val(rng.choice([0, 1, 2, 3, 4])), ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 1, "\t"]), separators=rng.choice([None, (",", ":"), (" , ", " : "), ("\r\n,", ":")]))
        return t

    spoilers = ['"', ",", ":", "[", "]", "{", "}", "0", "1", ".", "e", "-", "\\", " ", "t", "true", "null"]
    white = " \t\r\n"


class ParseValue:
    """what an action gives back, with no meaning to the library"""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return "<%r>" % (self.value,)


# ---------------------------------------------------------------- arithmetic, by hand
class Arith:
    white = " "
    spoilers = ["(", ")", "+ ", "- ", "* ", " 1 ", " 23", " "]

    def build(self, v):
        e = m.Forward()
        factor = m.Forward()

        def fold(t):
            t = list(t)
            x = t[0]
            for o, y in zip(t[1::2], t[2::2]):
                x = x + y if o == "+" else x - y if o == "-" else x * y
            return x

        def one(t):
            t = list(t)
            return -t[1] if t[0] == "-" else t[1]

        num = v.of(lambda: m.Word(DIG) / (lambda t: int(t[0])), lambda: m.Regex("[0-9]+") / (lambda t: int(t[0])), lambda: m.helpers.integer)
        sign = v.of(lambda: m.one_of("+ -") if hasattr(m, "one_of") else m.Char("+-"), lambda: m.Char("+-"), lambda: m.Literal("+") | "-")
        mul = m.Literal("*")
        v.define(factor, v.any_order(num, v.seq(v.drop("("), e, v.drop(")")), v.seq(sign, factor) / one))
        term = v.seq(factor, m.ZeroOrMore(v.seq(mul, factor))) / fold
        add = v.of(lambda: m.Char("+-"), lambda: m.Literal("-") | m.Literal("+"))
        v.define(e, v.of(lambda: v.seq(term, m.ZeroOrMore(v.seq(add, term))) / fold, lambda: (term + m.Many(add + term)) / fold))
        return v.finish(e)

    def oracle(self, s):
        import ast

        if not re.fullmatch(r"[-+*() 0-9]*", s) or "**" in s or not s.strip() or re.search(r"\b0[0-9]", s) or re.search(r"\(\s*\)", s):
            raise No()
        try:
            return eval(compile(ast.parse(s.strip(), mode="eval"), "", "eval"))
        except (SyntaxError, TypeError):
            raise No()

    def skip(self, s):
        return bool(re.search(r"\b0[0-9]", s)) or "**" in s

    def value(self, r):
        return list(r)[0]

    def text(self, rng):
        def ex(d):
            k = rng.randrange(8 if d else 2)
            if k < 2:
                return str(rng.randint(0, 12))
            if k < 3:
                return "(" + ex(d - 1) + ")"
            if k < 4:
                return rng.choice("-+") + rng.choice(["", " "]) + ex(d - 1)
            return ex(d - 1) + rng.choice([" ", ""]) + rng.choice("+-*") + rng.choice(["", " "]) + ex(d - 1)

        return ex(rng.choice([1, 2, 3, 4, 5]))


# ---------------------------------------------------------------- s-expressions
class Sexp:
    white = " \t\r\n"
    spoilers = ["(", ")", "'", '"', ";", "\n", "a", "1", " ", "-"]

    def build(self, v):
        w = m.whitespaces.CURRENT
        w.add_ignore(v.of(lambda: ";" + m.helpers.restOfLine, lambda: m.Regex(r";[^\n]*")))
        e = m.Forward()
        sym = v.of(lambda: m.Word(LET + "+*/<>=!?", LET + DIG + "+*/<>=!?-"), lambda: m.Regex(r"[A-Za-z+*/<>=!?][A-Za-z0-9+*/<>=!?\-]*"))
        num = m.Regex(r"-?[0-9]+") / (lambda t: int(t[0]))
        text = m.Regex(r'"[^"\\]*(?:\\[^\n][^"\\]*)*"') / (lambda t: ["str", t[0][1:-1]])
        text = m.Regex(r'"[^"]*"') / (lambda t: ParseValue(t[0][1:-1]))
        quote = m.Group(v.drop("'") + e)("quoted")
        lst = m.Group(v.seq(v.drop("("), m.ZeroOrMore(e), v.drop(")")))("list")
        v.define(e, v.any_order(sym, num, text, quote, lst))
        return v.finish(e)

    def oracle(self, s):
        p = Scan(s, r"(?:[ \t\r\n]|;[^\n]*)*")

        def one():
            if p.try_re(r"\("):
                out = []
                while not p.try_re(r"\)"):
                    out.append(one())
                return out
            if p.try_re("'"):
                return ("quote", one())
            t = p.try_re(r'"[^"]*"')
            if t is not None:
                return ("str", t[1:-1])
            t = p.try_re(r"-?[0-9]+")
            if t is not None:
                return int(t)
            return p.re(r"[A-Za-z+*/<>=!?][A-Za-z0-9+*/<>=!?\-]*")

        out = one()
        p.done()
        return out

    def value(self, r):
        def conv(x):
            if isinstance(x, ParseValue):
                return ("str", x.value)
            if isinstance(x, m.ParseResults):
                if x.name == "quoted":
                    return ("quote", conv(list(x)[0]))
                return [conv(y) for y in x]
            return x

        if r.name in ("quoted", "list"):
            return conv(r)
        k = list(r)
        if r.keys and "list" in list(r.keys()) or "quoted" in list(r.keys()):
            return conv(r["list"] if "list" in list(r.keys()) else r["quoted"]) if len(k) != 1 or not isinstance(k[0], m.ParseResults) else conv(k[0])
        return conv(k[0])

    def text(self, rng):
        def ex(d):
            k = rng.randrange(10 if d else 5)
            if k < 2:
                return some(rng, LET + "+*/", 1, 1) + some(rng, LET + DIG + "-", 0, 3)
            if k < 4:
                return str(rng.randint(-99, 99))
            if k < 5:
                return '"' + some(rng, "a b;()'\n", 0, 4) + '"'
            if k < 6:
                return "'" + ex(d - 1)
            return "(" + rng.choice([" ", "  ", "\n", " ; c)\n", " "]).join(ex(d - 1) for _ in range(rng.randint(0, 4))) + rng.choice(["", " "]) + ")"

        return "(" + ex(3) + " " + ex(2) + ")"


# ---------------------------------------------------------------- CSV
class Csv:
    white = ""
    spoilers = ['"', ",", "\n", " ", "a", "\r\n"]

    def build(self, v):
        with m.whitespaces.NO_WHITESPACE:
            quoted = v.of(lambda: m.QuotedString('"', esc_quote='""', multiline=True, convert_whitespace_escape=False), lambda: m.Regex(r'"(?:[^"]|"")*"') / (lambda t: t[0][1:-1].replace('""', '"')))
            plain = v.of(lambda: m.Regex(r'[^",\r\n]*'), lambda: m.Optional(m.CharsNotIn('",\r\n'), default=""), lambda: m.CharsNotIn('",\r\n') | m.Empty() / (lambda: ""))
            field = (quoted | plain) / (lambda t: ParseValue("".join(t)))
            end = v.of(lambda: m.Suppress(m.Regex(r"\r\n|\n")), lambda: m.Suppress(m.Literal("\r\n") | m.Literal("\n")))
            row = m.Group(field + m.ZeroOrMore(m.Suppress(",") + field))
            return v.of(lambda: m.ZeroOrMore(row + end) + m.Optional(row), lambda: row + m.ZeroOrMore(end + row))

    def oracle(self, s):
        rows, i = [], 0
        while True:
            row = []
            while True:
                f = re.compile(r'"((?:[^"]|"")*)"').match(s, i)
                if f:
                    row.append(f.group(1).replace('""', '"'))
                else:
                    f = re.compile(r'[^",\r\n]*').match(s, i)
                    row.append(f.group(0))
                i = f.end()
                if s[i : i + 1] == ",":
                    i += 1
                    continue
                break
            rows.append(row)
            f = re.compile(r"\r\n|\n").match(s, i)
            if not f:
                break
            i = f.end()
        if i < len(s):
            raise No()
        # (the two ways to end a file)
        while rows and rows[-1] == [""]:
            rows.pop()
        return rows

    def value(self, r):
        rows = [[x.value for x in row] for row in r]
        while rows and rows[-1] in ([""], []):
            rows.pop()
        return rows

    def text(self, rng):
        out = io.StringIO()
        w = csv.writer(out, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=rng.choice(["\n", "\r\n"]))
        for _ in range(rng.randint(1, 4)):
            w.writerow(["".join(rng.choice(["a", "1", " ", '"', ",", "\n", "é"]) for _ in range(rng.choice([0, 1, 2, 3]))) or "x" for _ in range(rng.randint(1, 4))])
        t = out.getvalue()
        # the csv module agrees with the hand-written parser
        assert [r for r in csv.reader(io.StringIO(t, newline=""))] == self.oracle(t), t
        return t


# ---------------------------------------------------------------- INI
class Ini:
    white = " \t"
    spoilers = ["[", "]", "=", "\n", ";", "a", " ", ":"]

    def build(self, v):
        end = v.of(lambda: m.Suppress(m.OneOrMore(m.LineEnd())), lambda: m.Suppress(m.Regex(r"(?:[ \t]*(?:;[^\n]*)?\n)+")))
        end = m.Suppress(m.Regex(r"(?:[ \t]*(?:;[^\n]*)?\n)+"))
        key = v.of(lambda: m.Word(LET + "_", LET + DIG + "_."), lambda: m.Regex(r"[A-Za-z_][A-Za-z0-9_.]*"))
        val = m.Regex(r"[^;\n]*") / (lambda t: t[0].strip())
        pair = m.Group(v.seq(key, v.drop("="), val)) + end
        head = v.seq(v.drop("["), key("section"), v.drop("]")) + end
        section = m.Group(head + v.of(lambda: m.Dict(m.ZeroOrMore(pair)), lambda: m.Group(m.ZeroOrMore(pair)))("pairs"))
        return v.finish(m.Optional(end) + m.ZeroOrMore(section))

    def oracle(self, s):
        out = []
        if s and not s.endswith("\n"):
            raise No()
        for line in s.split("\n")[:-1]:
            line = line.split(";")[0].strip(" \t")
            if not line:
                continue
            f = re.fullmatch(r"\[[ \t]*([A-Za-z_][A-Za-z0-9_.]*)[ \t]*\]", line)
            if f:
                out.append((f.group(1), []))
                continue
            f = re.fullmatch(r"([A-Za-z_][A-Za-z0-9_.]*)[ \t]*=(.*)", line, re.S)
            if not f or not out:
                raise No()
            out[-1][1].append((f.group(1), f.group(2).strip()))
        return out

    def value(self, r):
        out = []
        for sec in r:
            pairs = [x for x in list(sec)[1:]]
            flat = []

            def walk(x):
                k = list(x)
                if k and all(isinstance(y, str) for y in k):
                    flat.append((k[0], k[1] if len(k) > 1 else ""))
                else:
                    for y in k:
                        walk(y)

            for p in pairs:
                if isinstance(p, m.ParseResults):
                    walk(p)
            out.append((sec["section"], flat))
        return out

    def text(self, rng):
        lines = []
        for _ in range(rng.randint(0, 3)):
            lines.append(rng.choice(["", " "]) + "[" + rng.choice(["", " "]) + some(rng, LOW, 1, 3) + "]" + rng.choice(["", " ", " ; c"]))
            for _ in range(rng.randint(0, 3)):
                lines.append(rng.choice(["", "  "]) + some(rng, LOW, 1, 1) + some(rng, LOW + DIG + "._", 0, 2) + rng.choice(["=", " = ", "= "]) + some(rng, "ab =[]1,", 0, 5) + rng.choice(["", " ", ";x"]))
                if rng.random() < 0.2:
                    lines.append(rng.choice(["", "  ", "; comment = 1", "\t;[x]"]))
        return "".join(x + "\n" for x in lines)


# ---------------------------------------------------------------- SQL
class Sql:
    white = " \t\r\n"
    WORDS = ["select", "from", "where", "and", "or", "as", "order", "by", "not", "in", "desc"]
    spoilers = [" ", ",", "(", ")", "=", "select ", " and ", " where ", " a ", "1", " not ", "*", "'"]

    def build(self, v):
        K = lambda w: v.of(lambda: m.CaselessKeyword(w), lambda: m.Keyword(w, caseless=True))
        key = {w: K(w).suppress() for w in self.WORDS}
        reserved = m.MatchFirst([m.CaselessKeyword(w) for w in self.WORDS])
        name = v.of(lambda: ~reserved + m.Word(LET + "_", LET + DIG + "_"), lambda: m.And([m.NotAny(reserved), m.Regex("[A-Za-z_][A-Za-z0-9_]*")], m.whitespaces.CURRENT))
        col = v.of(lambda: m.delimited_list(name, ".", combine=True), lambda: m.Combine(name + m.ZeroOrMore("." + name)))
        num = m.Regex(r"[0-9]+") / (lambda t: int(t[0]))
        text = v.of(lambda: m.QuotedString("'", esc_quote="''", convert_whitespace_escape=False), lambda: m.Regex(r"'(?:[^'\n]|'')*'") / (lambda t: t[0][1:-1].replace("''", "'"))) / (lambda t: ParseValue(t[0] if len(list(t)) else ""))
        cond = m.Forward()
        val = v.any_order(num, text, col)
        op = v.of(lambda: m.MatchFirst([m.Literal(x) for x in ("<=", ">=", "<>", "=", "<", ">")]), lambda: m.helpers.one_of("< <= > >= = <>") if hasattr(m.helpers, "one_of") else m.Regex("<=|>=|<>|=|<|>"))
        rest = v.any_order(
            m.Group(op + val)("cmp"),
            m.Group(key["in"] + v.drop("(") + m.delimited_list(val) + v.drop(")"))("isin"),
        )
        test = m.Group(m.Group(val) + rest)("test")
        atom = m.Forward()
        v.define(atom, v.any_order(m.Group(v.drop("(") + cond + v.drop(")"))("paren"), m.Group(key["not"] + atom)("neg")) | test)
        conj = m.Group(v.of(lambda: atom + m.ZeroOrMore(key["and"] + atom), lambda: m.delimited_list(atom, key["and"])))("conj")
        v.define(cond, m.Group(conj + m.ZeroOrMore(key["or"] + conj))("disj"))
        item = m.Group(col("col") + m.Optional(key["as"] + name("alias")))
        cols = m.Literal("*")("all") | m.Group(m.delimited_list(item))("cols")
        order = m.Group(col("col") + m.Optional(m.CaselessKeyword("desc"))("desc"))
        stmt = key["select"] + cols + key["from"] + name("table") + m.Optional(key["where"] + m.Group(cond)("where")) + m.Optional(key["order"] + key["by"] + m.Group(m.delimited_list(order))("order")) + m.Optional(v.drop(";"))
        return v.finish(m.Group(stmt)("stmt"))

    def oracle(self, s):
        p = Scan(s, r"[ \t\r\n]*")
        KW = r"(?i:%s)(?![A-Za-z0-9_$])"

        def kw(w):
            return p.try_re(KW % w)

        def need(x):
            if x is None:
                raise No()
            return x

        def name():
            if re.compile(KW % ("(?:%s)" % "|".join(self.WORDS))).match(p.s, p.i):
                raise No()
            return p.re("[A-Za-z_][A-Za-z0-9_]*")

        def col():
            out = name()
            while True:
                i = p.i
                if not p.try_re(r"\."):
                    return out
                try:
                    out += "." + name()
                except No:
                    p.i = i
                    return out

        def val():
            t = p.try_re("[0-9]+")
            if t is not None:
                return int(t)
            t = p.try_re(r"'(?:[^'\n]|'')*'")
            if t is not None:
                return ("str", t[1:-1].replace("''", "'"))
            return col()

        def test():
            a = val()
            if kw("in"):
                p.re(r"\(")
                out = [val()]
                while p.try_re(","):
                    out.append(val())
                p.re(r"\)")
                return ("in", a, out)
            return (p.re("<=|>=|<>|=|<|>"), a, val())

        def atom():
            if p.try_re(r"\("):
                x = disj()
                p.re(r"\)")
                return x
            if kw("not"):
                return ("not", atom())
            return test()

        def conj():
            out = [atom()]
            while kw("and"):
                out.append(atom())
            return ("and", out)

        def disj():
            out = [conj()]
            while kw("or"):
                out.append(conj())
            return ("or", out)

        need(kw("select"))
        if p.try_re(r"\*"):
            cols = "*"
        else:
            cols = []
            while True:
                c = col()
                cols.append((c, name() if kw("as") else None))
                if not p.try_re(","):
                    break
        need(kw("from"))
        table = name()
        where = disj() if kw("where") else None
        order = []
        if kw("order"):
            need(kw("by"))
            while True:
                c = col()
                order.append((c, bool(kw("desc"))))
                if not p.try_re(","):
                    break
        p.try_re(";")
        p.done()
        return (cols, table, where, order)

    def value(self, r):
        r = top(r, "stmt")

        def val(x):
            return ("str", x.value) if isinstance(x, ParseValue) else x

        def inner(x):
            """the disjunction in a group: it comes from a Forward, whose results need not show the name of what it is"""
            it = [y for y in x if isinstance(y, m.ParseResults)]
            assert len(it) == 1, str(x)
            return ("or", [cond(y) for y in it[0]])

        def cond(x):
            k = list(x)
            n = x.name
            if n == "disj":
                return ("or", [cond(y) for y in k])
            if n == "conj":
                return ("and", [cond(y) for y in k])
            if n == "paren":
                return inner(x)
            if n == "neg":
                return ("not", cond(k[0]))
            a, b = k
            a = val(list(a)[0])
            if b.name == "cmp":
                o, y = list(b)
                return (o, a, val(y))
            return ("in", a, [val(y) for y in b])

        cols = "*" if "all" in r else [(c["col"], c["alias"] if "alias" in c else None) for c in r["cols"]]
        where = inner(child(r, "where")) if child(r, "where") is not None else None
        order = [(c["col"], "desc" in c) for c in r["order"]] if "order" in r else []
        return (cols, r["table"], where, order)

    def text(self, rng):
        sp = lambda: rng.choice([" ", " ", "  ", "\n"])
        kw = lambda w: rng.choice([w, w.upper(), w.title()])
        name = lambda: rng.choice(["a", "b", "tab", "x1", "Sel", "selected", "order_by", "inn", "an"])
        col = lambda: ".".join(name() for _ in range(rng.choice([1, 1, 2])))
        val = lambda: rng.choice([col, lambda: str(rng.randint(0, 99)), lambda: "'" + some(rng, "ab ", 0, 3) + rng.choice(["", "''", ";"]) + "'"])()

        def cond(d):
            k = rng.randrange(7 if d else 3)
            if k < 2:
                return val() + rng.choice(["", " "]) + rng.choice(["<", "<=", "=", "<>", ">", ">="]) + rng.choice(["", " "]) + val()
            if k < 3:
                return val() + " " + kw("in") + rng.choice(["(", " ("]) + ", ".join(val() for _ in range(rng.randint(1, 3))) + ")"
            if k < 4:
                return "(" + cond(d - 1) + ")"
            if k < 5:
                return kw("not") + " " + cond(d - 1)
            return cond(d - 1) + " " + kw(rng.choice(["and", "or"])) + " " + cond(d - 1)

        t = kw("select") + sp()
        t += "*" if rng.random() < 0.3 else rng.choice([",", ", "]).join(col() + (rng.choice([" ", "\n"]) + kw("as") + " " + name() if rng.random() < 0.3 else "") for _ in range(rng.randint(1, 3)))
        t += sp() + kw("from") + sp() + name()
        if rng.random() < 0.6:
            t += sp() + kw("where") + sp() + cond(rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.3:
            t += sp() + kw("order") + sp() + kw("by") + sp() + ", ".join(col() + rng.choice(["", " desc", " DESC"]) for _ in range(rng.randint(1, 2)))
        return t + rng.choice(["", ";", " ;"])


# ---------------------------------------------------------------- configuration with comments
class Conf:
    white = " \t\r\n"
    spoilers = ["{", "}", ";", "/*", "*/", "//", "\n", " a ", "1", '"']

    def build(self, v):
        w = m.whitespaces.CURRENT
        v.of(lambda: w.add_ignore(m.helpers.cppStyleComment), lambda: (w.add_ignore(m.helpers.cStyleComment), w.add_ignore(m.Regex(r"//[^\n]*"))), lambda: w.add_ignore(m.Regex(r"/\*[\s\S]*?\*/|//[^\n]*")))
        name = m.Word(LET)
        num = v.of(lambda: m.helpers.signed_integer, lambda: m.Regex(r"[+-]?[0-9]+") / (lambda t: int(t[0])))
        text = m.Regex(r'"[^"\n]*"') / (lambda t: ParseValue(t[0][1:-1]))
        val = v.any_order(num, text, name)
        block = m.Forward()
        stmt = m.Group(v.seq(name("key"), m.Group(m.OneOrMore(val))("values"), v.drop(";")))("stmt")
        v.define(block, m.Group(v.seq(name("key"), m.Optional(m.Group(text)("label")), v.drop("{"), m.Group(m.ZeroOrMore(v.alt(stmt, block)))("body"), v.drop("}")))("block"))
        return v.finish(m.Group(m.ZeroOrMore(v.of(lambda: stmt | block, lambda: block | stmt)))("file"))

    def oracle(self, s):
        p = Scan(s, r"(?:[ \t\r\n]|/\*[\s\S]*?\*/|//[^\n]*)*")

        def text():
            t = p.try_re(r'"[^"\n]*"')
            return None if t is None else ("str", t[1:-1])

        def val():
            t = p.try_re(r"[+-]?[0-9]+")
            if t is not None:
                return int(t)
            return text() or p.try_re("[A-Za-z]+")

        def item():
            key = p.try_re("[A-Za-z]+")
            if key is None:
                return None
            if p.try_re(r"\{"):
                return (key, None, body())
            vals = []
            while True:
                x = val()
                if x is None:
                    break
                vals.append(x)
            if not vals:
                raise No()
            if len(vals) == 1 and isinstance(vals[0], tuple) and p.try_re(r"\{"):
                return (key, vals[0], body())
            p.re(";")
            return (key, vals)

        def body():
            out = []
            while not p.try_re(r"\}"):
                x = item()
                if x is None:
                    raise No()
                out.append(x)
            return out

        out = []
        while p.i < len(s):
            x = item()
            if x is None:
                raise No()
            out.append(x)
        return out

    def value(self, r):
        def val(x):
            return ("str", x.value) if isinstance(x, ParseValue) else x

        def conv(x):
            if x.name == "stmt":
                return (x["key"], [val(y) for y in group(x, "values")])
            return (x["key"], [val(y) for y in group(x, "label")][0] if group(x, "label") else None, [conv(y) for y in group(x, "body")])

        def group(x, name):
            for y in x:
                if isinstance(y, m.ParseResults) and y.name == name:
                    return list(y)
            return []

        f = top(r, "file")
        return [conv(y) for y in f] if isinstance(f, m.ParseResults) else []

    def text(self, rng):
        gap = lambda: rng.choice([" ", " ", "\n", " /* c; } */ ", " // x {\n", "/**/"])
        val = lambda: rng.choice([lambda: str(rng.randint(-9, 99)), lambda: '"' + some(rng, "ab /*;{", 0, 4) + '"', lambda: some(rng, LOW, 1, 3)])()

        def item(d):
            key = some(rng, LOW, 1, 3)
            if d and rng.random() < 0.4:
                return key + gap() + (('"' + some(rng, "ab}", 0, 2) + '"' + gap()) if rng.random() < 0.4 else "") + "{" + gap() + "".join(item(d - 1) for _ in range(rng.randint(0, 3))) + "}" + gap()
            return key + gap() + gap().join(val() for _ in range(rng.randint(1, 3))) + rng.choice(["", " "]) + ";" + gap()

        return "".join(item(3) for _ in range(rng.randint(1, 3)))


# ---------------------------------------------------------------- chemical formulas
class Chem:
    white = ""
    spoilers = ["(", ")", "2", "C", "l", "0", " "]

    def build(self, v):
        with m.whitespaces.NO_WHITESPACE:
            e = m.Forward()
            element = v.of(lambda: m.Word(LET[26:], LOW, max=2), lambda: m.Regex("[A-Z][a-z]?"), lambda: m.Combine(m.Char(LET[26:]) + m.Optional(m.Char(LOW))))
            count = m.Optional(v.of(lambda: m.Word(DIG) / (lambda t: int(t[0])), lambda: m.helpers.integer), default=1)
            atom = m.Group(element("symbol") + count("qty"))("atom")
            group = m.Group(v.drop("(") + m.Group(e)("inner") + v.drop(")") + count("qty"))("group")
            v.define(e, m.OneOrMore(v.any_order(atom, group)))
            return m.Group(e)("all")

    def oracle(self, s):
        p = Scan(s, "")

        def seq():
            out = {}
            n = 0
            while True:
                if p.try_re(r"\("):
                    inner = seq()
                    p.re(r"\)")
                else:
                    t = p.try_re("[A-Z][a-z]?")
                    if t is None:
                        break
                    inner = {t: 1}
                n += 1
                q = p.try_re("[0-9]+")
                q = 1 if q is None else int(q)
                for k, c in inner.items():
                    out[k] = out.get(k, 0) + c * q
            if not n:
                raise No()
            return out

        out = seq()
        p.done()
        return out

    def value(self, r):
        def count(x):
            out = {}
            for y in x:
                q = y["qty"]
                inner = {y["symbol"]: 1} if y.name == "atom" else count(y["inner"])
                for k, c in inner.items():
                    out[k] = out.get(k, 0) + c * q
            return out

        return count(top(r, "all"))

    def text(self, rng):
        def seq(d):
            out = ""
            for _ in range(rng.randint(1, 3)):
                out += "(" + seq(d - 1) + ")" if d and rng.random() < 0.3 else rng.choice(["H", "C", "Cl", "Na", "O", "N", "Co"])
                out += rng.choice(["", "", "2", "12", "0", "3"])
            return out

        return seq(2)


# ---------------------------------------------------------------- access log
class Log:
    white = " "
    spoilers = [".", " ", "-", '"', "[", "]", "1", "300", "GET "]

    def build(self, v):
        ip = v.of(lambda: m.helpers.ipv4_address, lambda: m.Regex(r"(?:25[0-5]|2[0-4][0-9]|1[0-9]{2}|[0-9]{1,2})(?:\.(?:25[0-5]|2[0-4][0-9]|1[0-9]{2}|[0-9]{1,2})){3}"))
        user = m.Literal("-") | m.Word(LET)
        when = v.drop("[") + m.Regex(r"[^\]\n]+")("when") + v.drop("]")
        method = m.helpers.one_of("GET POST PUT", as_keyword=True) if hasattr(m.helpers, "one_of") else m.Keyword("GET") | m.Keyword("POST") | m.Keyword("PUT")
        req = v.drop('"') + m.Group(method("method") + m.Word(m.utils.printables, exclude='"')("path") + m.Optional(m.Combine("HTTP/" + m.Regex(r"[0-9]\.[0-9]")))("http"))("request") + v.drop('"')
        status = m.Word(DIG, exact=3) / (lambda t: int(t[0]))
        size = v.of(lambda: (m.Word(DIG) / (lambda t: int(t[0])) | m.Literal("-") / (lambda: 0)), lambda: m.Regex(r"[0-9]+|-") / (lambda t: 0 if t[0] == "-" else int(t[0])))
        line = v.seq(ip("ip"), user("user"), when, req, status("status"), size("size"))
        return v.finish(m.Group(line)("line"))

    def oracle(self, s):
        p = Scan(s, " *")
        ip = p.re(r"[0-9]{1,3}(?:\.[0-9]{1,3}){3}(?![0-9])")
        if any(int(x) > 255 for x in ip.split(".")):
            raise No()
        user = p.re("-|[A-Za-z]+")
        p.re(r"\[")
        when = p.re(r"[^\]\n]+")
        p.re(r"\]")
        p.re('"')
        method = p.re(r"(?:GET|POST|PUT)(?![A-Za-z0-9_$])")
        path = p.re(r'(?:(?!")[!-~])+')
        http = p.try_re(r"HTTP/ *[0-9]\.[0-9]")
        p.re('"')
        status = int(p.re("[0-9]{3}"))
        size = p.re("[0-9]+|-")
        p.done()
        return (ip, user, when, method, path, http and http.replace(" ", ""), status, 0 if size == "-" else int(size))

    def skip(self, s):
        # (leading zeros, numbers run together)
        return bool(re.search(r"(?:^|\.)0[0-9]|^[0-9.]*[0-9]{4}|[\t\n\r]", s)) or "HTTP/ " in s

    def value(self, r):
        r = top(r, "line")
        q = r["request"]
        return (r["ip"], r["user"], r["when"], q["method"], q["path"], q["http"] if "http" in q else None, r["status"], r["size"])

    def text(self, rng):
        return "%s %s [%s] \"%s %s%s\" %d %s" % (
            ".".join(str(rng.randrange(260)) if rng.random() < 0.9 else "1" for _ in range(4)), rng.choice(["-", "bob", "Al"]), rng.choice(["10/Oct/2000:13:55:36 -0700", "x", "a b  c"]),
            rng.choice(["GET", "POST", "PUT", "GETX", "get"]) if rng.random() < 0.3 else "GET", rng.choice(["/", "/a?b=1", "/x.y/z#q", "*"]), rng.choice(["", " HTTP/1.0", " HTTP/1.1", "  HTTP/2.0 "]), rng.choice([200, 404, 301, 99, 1000]) if rng.random() < 0.3 else 200, rng.choice(["-", "0", "2326"]))


# ---------------------------------------------------------------- EBNF
class Ebnf:
    white = " \t\r\n"
    spoilers = ["=", "|", ",", ";", "{", "}", "[", "]", "(", ")", '"', "a", " "]

    def build(self, v):
        name = m.Word(LET, LET + DIG + "_")
        text = v.of(lambda: m.Regex(r'"[^"\n]+"') | m.Regex(r"'[^'\n]+'"), lambda: m.Regex(r"'[^'\n]+'") | m.Regex(r'"[^"\n]+"')) / (lambda t: ParseValue(t[0][1:-1]))
        rhs = m.Forward()
        wrap = lambda a, b, n: m.Group(v.drop(a) + rhs + v.drop(b))(n)
        times = m.Regex("[0-9]+") / (lambda t: int(t[0])) + v.drop("*")
        prim = v.any_order(m.Group(name)("ref"), m.Group(text)("text"), wrap("{", "}", "rep"), wrap("[", "]", "opt"), wrap("(", ")", "par"))
        item = m.Group(m.Optional(times)("times") + prim)("item")
        seq = m.Group(m.delimited_list(item))("seq")
        v.define(rhs, m.Group(v.of(lambda: m.delimited_list(seq, "|"), lambda: seq + m.ZeroOrMore(m.Suppress("|") + seq)))("alts"))
        rule = m.Group(v.seq(name("name"), v.drop("="), rhs, v.drop(";")))("rule")
        return v.finish(m.Group(m.OneOrMore(rule))("rules"))

    def oracle(self, s):
        p = Scan(s, r"[ \t\r\n]*")

        def alts():
            out = [seq()]
            while p.try_re(r"\|"):
                out.append(seq())
            return out

        def seq():
            out = [item()]
            while p.try_re(","):
                out.append(item())
            return out

        def item():
            t = p.try_re("[0-9]+")
            if t is not None:
                p.re(r"\*")
            return (None if t is None else int(t), prim())

        def prim():
            for a, b, n in ((r"\{", r"\}", "rep"), (r"\[", r"\]", "opt"), (r"\(", r"\)", "par")):
                if p.try_re(a):
                    x = alts()
                    p.re(b)
                    return (n, x)
            t = p.try_re("\"[^\"\n]+\"|'[^'\n]+'")
            if t is not None:
                return ("text", t[1:-1])
            return ("ref", p.re("[A-Za-z][A-Za-z0-9_]*"))

        out = []
        while p.i < len(s) or not out:
            n = p.re("[A-Za-z][A-Za-z0-9_]*")
            p.re("=")
            x = alts()
            p.re(";")
            out.append((n, x))
        return out

    def value(self, r):
        def alts(x):
            return [[item(y) for y in z] for z in x]

        def item(x):
            k = list(x)
            t = k[0] if len(k) == 2 else None
            q = k[-1]
            c = list(q)[0]
            if q.name == "ref":
                return (t, ("ref", c))
            if q.name == "text":
                return (t, ("text", c.value))
            return (t, (q.name, alts(c)))

        f = top(r, "rules")
        return [(x["name"], alts(list(x)[1])) for x in f]

    def text(self, rng):
        sp = lambda: rng.choice(["", " ", " ", "\n"])

        def alts(d):
            return (sp() + "|" + sp()).join((sp() + "," + sp()).join(item(d) for _ in range(rng.choice([1, 1, 2]))) for _ in range(rng.choice([1, 1, 2])))

        def item(d):
            t = rng.choice(["", "", "", "3 * ", "12*"])
            k = rng.randrange(7 if d else 3)
            if k < 2:
                return t + some(rng, LOW, 1, 3)
            if k < 3:
                return t + rng.choice(['"|"', "'a b'", '";"', "'\"'"])
            a, b = [("{", "}"), ("[", "]"), ("(", ")")][rng.randrange(3)]
            return t + a + sp() + alts(d - 1) + sp() + b

        return "".join(some(rng, LOW, 1, 2) + sp() + "=" + sp() + alts(rng.choice([0, 1, 2, 3])) + sp() + ";" + sp() for _ in range(rng.randint(1, 3)))


# ---------------------------------------------------------------- statements
class Stmt:
    white = " \t\r\n"
    WORDS = ["if", "else", "while", "print", "end"]
    spoilers = ["if ", "else ", "end", " while", "(", ")", "=", ";", "+", " x", "1", "=="]

    def build(self, v):
        K = {w: v.of(lambda: m.Keyword(w), lambda: m.Suppress(m.Keyword(w))) for w in self.WORDS}
        K = {w: m.Keyword(w).suppress() for w in self.WORDS}
        reserved = m.MatchFirst([m.Keyword(w) for w in self.WORDS])
        name = v.of(lambda: ~reserved + m.helpers.identifier, lambda: m.Combine(~reserved + m.Word(LET + "_", LET + DIG + "_")))
        num = m.helpers.integer
        e = v.of(
            lambda: m.infix_notation(v.any_order(num, name), [(m.Literal("*"), 2, m.LEFT_ASSOC), (m.Char("+-"), 2, m.LEFT_ASSOC), (m.Literal("==") | m.Literal("<"), 2, m.LEFT_ASSOC)]) if hasattr(m, "infix_notation") else self.by_hand(v, num, name),
            lambda: self.by_hand(v, num, name),
        )
        e = self.by_hand(v, num, name)
        block = m.Forward()
        assign = m.Group(v.seq(name("target"), m.Suppress(m.Regex("=(?!=)")), m.Group(e)("value"), v.drop(";")))("assign")
        show = m.Group(v.seq(K["print"], m.Group(m.delimited_list(m.Group(e)))("args"), v.drop(";")))("print")
        branch = m.Group(K["if"] + m.Group(e)("cond") + m.Group(block)("then") + m.Optional(K["else"] + m.Group(block)("else")) + K["end"])("if")
        loop = m.Group(K["while"] + m.Group(e)("cond") + m.Group(block)("body") + K["end"])("while")
        v.define(block, m.ZeroOrMore(v.any_order(assign, show, branch, loop)))
        return v.finish(m.Group(block)("program"))

    def by_hand(self, v, num, name):
        e = m.Forward()
        atom = v.any_order(num, name, v.drop("(") + e + v.drop(")"))
        level = lambda x, op: (x + m.ZeroOrMore(op + x)) / left
        mul = level(atom, m.Literal("*"))
        add = level(mul, v.of(lambda: m.Char("+-"), lambda: m.Literal("+") | "-"))
        v.define(e, level(add, v.of(lambda: m.Literal("==") | "<", lambda: m.Regex("==|<"))))
        return e

    def oracle(self, s):
        p = Scan(s, r"[ \t\r\n]*")
        KW = r"%s(?![A-Za-z0-9_$])"

        def name():
            if re.compile(KW % ("(?:%s)" % "|".join(self.WORDS))).match(p.s, p.i):
                return None
            return p.try_re("[A-Za-z_][A-Za-z0-9_]*")

        def atom():
            t = p.try_re("[0-9]+")
            if t is not None:
                return int(t)
            if p.try_re(r"\("):
                x = cmp()
                p.re(r"\)")
                return x
            t = name()
            if t is None:
                raise No()
            return t

        def level(x, op):
            def go():
                a = x()
                while True:
                    o = p.try_re(op)
                    if o is None:
                        return a
                    a = (o, a, x())

            return go

        mul = level(atom, r"\*")
        add = level(mul, r"[+\-]")
        cmp = level(add, "==|<")

        def block():
            out = []
            while True:
                x = stmt()
                if x is None:
                    return out
                out.append(x)

        def stmt():
            if p.try_re(KW % "print"):
                args = [cmp()]
                while p.try_re(","):
                    args.append(cmp())
                p.re(";")
                return ("print", args)
            if p.try_re(KW % "if"):
                c = cmp()
                a = block()
                b = block() if p.try_re(KW % "else") is not None else None
                p.re(KW % "end")
                return ("if", c, a, b)
            if p.try_re(KW % "while"):
                c = cmp()
                a = block()
                p.re(KW % "end")
                return ("while", c, a)
            n = name()
            if n is None:
                return None
            p.re("=(?!=)")
            x = cmp()
            p.re(";")
            return ("assign", n, x)

        out = block()
        p.done()
        return out

    def value(self, r):
        def ex(g):
            x = list(g)[0]
            return x.value if isinstance(x, ParseValue) else x

        def block(g):
            return [stmt(x) for x in g]

        def named(x, n):
            for y in x:
                if isinstance(y, m.ParseResults) and y.name == n:
                    return y
            return None

        def stmt(x):
            if x.name == "assign":
                return ("assign", x["target"], ex(named(x, "value")))
            if x.name == "print":
                return ("print", [ex(y) for y in named(x, "args")])
            if x.name == "if":
                o = named(x, "else")
                return ("if", ex(named(x, "cond")), block(named(x, "then")), None if o is None else block(o))
            return ("while", ex(named(x, "cond")), block(named(x, "body")))

        f = top(r, "program")
        return block(f) if isinstance(f, m.ParseResults) else []

    def text(self, rng):
        sp = lambda: rng.choice([" ", " ", "\n", "  "])
        name = lambda: rng.choice(["x", "y", "iff", "printer", "end1", "While", "a_b"])

        def ex(d):
            k = rng.randrange(6 if d else 2)
            if k < 1:
                return str(rng.randint(0, 99))
            if k < 2:
                return name()
            if k < 3:
                return "(" + ex(d - 1) + ")"
            return ex(d - 1) + rng.choice(["", " "]) + rng.choice(["+", "-", "*", "==", "<"]) + rng.choice(["", " "]) + ex(d - 1)

        def block(d):
            return "".join(stmt(d) + sp() for _ in range(rng.randint(0, 3)))

        def stmt(d):
            k = rng.randrange(5 if d else 3)
            if k < 2:
                return name() + sp() + "=" + sp() + ex(2) + ";"
            if k < 3:
                return "print " + ", ".join(ex(2) for _ in range(rng.randint(1, 2))) + ";"
            if k < 4:
                return "if " + ex(2) + sp() + block(d - 1) + ("else" + sp() + block(d - 1) if rng.random() < 0.5 else "") + "end"
            return "while " + ex(1) + sp() + block(d - 1) + "end"

        return (stmt(2) + sp() + block(3)).strip()


def left(t):
    t = [x.value if isinstance(x, ParseValue) else x for x in t]
    a = t[0]
    for o, b in zip(t[1::2], t[2::2]):
        a = (o, a, b)
    return ParseValue(a) if isinstance(a, tuple) else a


# ---------------------------------------------------------------- query strings
class Query:
    white = ""
    spoilers = ["&", "=", "%", "+", "?", "#", "a", "%4", ";"]

    def build(self, v):
        with m.whitespaces.NO_WHITESPACE:
            hexa = "0123456789abcdefABCDEF"
            esc = v.of(lambda: m.Combine("%" + m.Word(hexa, exact=2)), lambda: m.Regex("%[0-9a-fA-F]{2}"), lambda: m.Combine(m.Literal("%") + m.Char(hexa) * 2)) / (lambda t: chr(int(t[0][1:], 16)))
            plus = m.Literal("+") / (lambda: " ")
            plain = v.of(lambda: m.Word(LET + DIG + "-_.~"), lambda: m.Regex(r"[A-Za-z0-9\-_.~]+"), lambda: m.OneOrMore(m.Char(LET + DIG + "-_.~")))
            part = m.Combine(m.OneOrMore(v.any_order(esc, plus, plain)))
            pair = m.Group(part("k") + v.of(lambda: m.Optional(m.Suppress("=") + m.Optional(part, default="")("v")), lambda: m.Optional(m.Suppress("=") + (part | m.Empty() / (lambda: ""))("v"))))
            path = m.Regex(r"(?:/[A-Za-z0-9.]*)+")
            e = path("path") + m.Optional(m.Suppress("?") + m.Group(v.of(lambda: m.delimited_list(pair, "&"), lambda: pair + m.ZeroOrMore(m.Suppress("&") + pair)))("query")) + m.Optional(m.Suppress("#") + m.CharsNotIn("#\n")("frag"))
            return m.Group(e)("url")

    def oracle(self, s):
        f = re.fullmatch(r"((?:/[A-Za-z0-9.]*)+)(?:\?([^#\n]*))?(?:#([^#\n]+))?", s)
        if not f:
            raise No()
        q = None
        if f.group(2) is not None:
            q = []
            P = r"(?:%[0-9a-fA-F]{2}|\+|[A-Za-z0-9\-_.~])+"
            for kv in f.group(2).split("&"):
                g = re.fullmatch(r"(%s)(?:(=)(%s)?)?" % (P, P), kv)
                if not g:
                    raise No()
                un = lambda x: re.sub("%(..)", lambda h: chr(int(h.group(1), 16)), x.replace("+", " "))
                q.append((un(g.group(1)), un(g.group(3) or "") if g.group(2) else None))
        return (f.group(1), q, f.group(3))

    def value(self, r):
        r = top(r, "url")
        q = None
        for y in r:
            if isinstance(y, m.ParseResults) and y.name == "query":
                q = [tuple((list(p) + [None])[:2]) for p in y]
        return (r["path"], q, r["frag"] if "frag" in r else None)

    def text(self, rng):
        part = lambda a: "".join(rng.choice(["a", "B", "1", "+", "%20", "%3d", "%26", "-", "~"]) for _ in range(rng.randint(a, 3)))
        t = "".join("/" + some(rng, "ab1.", 0, 3) for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.8:
            t += "?" + "&".join(part(1) + rng.choice(["", "=", "=" + part(1), "=" + part(1)]) for _ in range(rng.randint(1, 4)))
        if rng.random() < 0.3:
            t += "#" + rng.choice(["a", "x y", "?&="])
        return t


LANGS = {"json": Json, "arith": Arith, "sexp": Sexp, "csv": Csv, "ini": Ini, "sql": Sql, "conf": Conf, "chem": Chem, "log": Log, "ebnf": Ebnf, "stmt": Stmt, "query": Query}


def spoil(rng, t, bits):
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randint(0, len(t))
        k = rng.randrange(5)
        if k == 0:
            t = t[:i] + rng.choice(bits) + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1 :]
        elif k == 2:
            t = t[:i] + rng.choice(bits) + t[i + 1 :]
        elif k == 3:
            t = t[:i] + t[i : i + 3] + t[i:]
        else:
            j = rng.randint(0, len(t))
            t = t[:i] + t[j : j + 4] + t[i:]
    return t[:400]


def gen(kind, rng):
    L = LANGS[kind]()
    texts = []
    for _ in range(4):
        t = L.text(rng)[:400]
        texts += [t, spoil(rng, t, L.spoilers)]
        if rng.random() < 0.3:
            texts.append(t[: rng.randint(0, len(t))])
    return {"bits": rng.randrange(1 << 62), "inputs": texts}


def judge(case, obs):
    kind = case["kind"]
    L = LANGS[kind]()
    with m.whitespaces.Whitespace(L.white):
        got = attempt(lambda: L.build(V(case["bits"])))
    if got[0] != "ok":
        return obs.violate("build", "%s: %r" % (kind, got[:3]))
    e = got[1]
    for s in case["inputs"]:
        if kind != "csv":
            s = s.strip("\r\n \t") if L.white else s.rstrip("\r\n")
            if kind == "ini":
                s += "\n" if s else ""
        if hasattr(L, "skip") and L.skip(s):
            continue
        try:
            want = ("ok", L.oracle(s))
        except (No, ValueError):
            want = None
        except RecursionError:
            continue
        real = attempt(lambda: e.parse_string(s, parse_all=True))
        if real[0] not in ("ok", "fail"):
            return obs.violate("raised", "%s on %r: %r" % (kind, s, real[:3]))
        obs.hit("documents")
        k = "accepted" if want else "refused"
        obs.hit(k)
        obs.hit("%s:%s" % (k, kind))
        if (real[0] == "ok") != bool(want):
            return obs.violate("accepts" if real[0] == "ok" else "refuses", "%s: %r, expected %r, got %s" % (kind, s, want, real[1] if real[0] == "ok" else str(real[1])[:100]))
        if not want:
            continue
        obs.mark()
        value = L.value(real[1])
        if value != want[1] or kind == "json" and repr(value) != repr(want[1]):
            return obs.violate("value", "%s: %r gives %r, not %r" % (kind, s, value, want[1]))
        obs.distinct("documents", (kind, repr(value)))
