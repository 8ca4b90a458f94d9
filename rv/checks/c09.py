"""C09: infix notation builds the tree given by precedence and associativity"""
import ast
import random

from rv import env as m
from rv.model import view
from rv.real import at, attempt

ID = "C09"
RULE = (
    "tables: a random operator table (prefix, suffix, binary, ternary, left and right, implicit, suppressed, alternatives, keywords, the same symbol as prefix "
    "and binary, actions, other parentheses) parses printed random trees and mutated token strings; tree, end, and action calls are compared with a "
    "precedence-climbing reference. python: random Python expressions printed minimally by ast.unparse must give the tree Python's own parser gives. "
    "Non-trivial: at least two operators of different precedence."
)
ASSUME = ["symbols of a table do not overlap except where the longest wins (binary) or roles are told apart by position"]
NEED = {"trees compared": 8000, "refused as expected": 1500, "python trees": 2500, "action calls": 4000, "table shapes": 300}

PRE = ["-", "~", "not", "+", "?"]
SUF = ["!", "'", "++", "[]"]
BIN = ["-", "+", "*", "^", "&", "|", "<", "<=", "<<", "=", "and", "or", "-", "->", "=="]
TER = [["?", ":"], ["if", "else"], ["@", ","], ["..", ".."]]
INF = 99


class Fail(Exception):
    pass


def plan(tier):
    k = 3 if tier == "quick" else 80
    return [("tables", 16 * k, 60), ("python", 6 * k, 60)]


def gen_table(rng):
    used = set()
    table = []
    for _ in range(rng.randint(1, 5)):
        c = rng.random()
        assoc = rng.choice("LR")
        act = rng.random() < 0.3
        if c < 0.25:
            syms = [x for x in PRE if ("p", x) not in used and not (x in "?" and any(u[0] != "p" and u[1] == "?" for u in used))]
            if not syms:
                continue
            s = rng.choice(syms)
            used.add(("p", s))
            table.append([[s], 1, "R", act, rng.random() < 0.15])
        elif c < 0.4:
            syms = [x for x in SUF if ("s", x) not in used and x != "++"]
            if not syms:
                continue
            s = rng.choice(syms)
            used.add(("s", s))
            table.append([[s], 1, "L", act, rng.random() < 0.15])
        elif c < 0.85:
            syms = [x for x in dict.fromkeys(BIN) if ("b", x) not in used]
            n = rng.choice([1, 1, 1, 2, 3])
            pick = rng.sample(syms, min(n, len(syms)))
            if not pick:
                continue
            for s in pick:
                used.add(("b", s))
            table.append([pick, 2, assoc, act, rng.random() < 0.15])
        elif c < 0.93:
            t = rng.choice(TER[:3])
            if any(u[1] in t for u in used):
                continue
            for s in t:
                used.add(("b", s))
                used.add(("p", s))
            table.append([t, 3, assoc, act, rng.choice([False, False, [True, False], [False, True], [True, True]])])
        elif not any(x[0] == [None] for x in table):
            table.append([[None], 2, assoc, act, False])
    return table


def gen(kind, rng):
    if kind == "python":
        return {"exprs": [py_gen(rng, rng.randint(1, 4)) for _ in range(6)]}
    table = gen_table(rng)
    while not table:
        table = gen_table(rng)
    par = rng.choice([["(", ")"], ["(", ")"], ["(", ")"], ["{", "}"], ["begin", "end"]])
    case = {"table": table, "par": par, "base": rng.choice(["num", "num", "int", "xyz", "group"])}
    out = []
    for _ in range(8):
        toks = tree_tokens(table, par, rng, rng.randint(0, 4))
        if rng.random() < 0.35:
            toks = list(toks)
            for _ in range(rng.randint(1, 2)):
                p = rng.randint(0, len(toks))
                c = rng.random()
                if c < 0.4 and toks:
                    del toks[min(p, len(toks) - 1)]
                elif c < 0.8:
                    toks.insert(p, rng.choice(par + ["#"] + [s for r in table for s in r[0] if s]))
                elif toks:
                    q = rng.randrange(len(toks))
                    p = min(p, len(toks) - 1)
                    toks[p], toks[q] = toks[q], toks[p]
        toks = toks[:60]
        # operands are drawn when printing
        s = ""
        for t in toks:
            if t == "#":
                t = rng.choice(["1", "2", "34"]) if case["base"] != "xyz" else rng.choice(["x", "yz", "zy"])
            sep = rng.choice(["", " ", " ", "  "])
            if s and (s[-1].isalnum() and t[0].isalnum()):
                sep = sep or " "
            elif s and not s[-1].isalnum() and not t[0].isalnum():
                sep = sep or " "  # keep symbols apart so that the text has one reading
            s += sep + t
        out.append(s)
    case["texts"] = out
    return case


def tree_tokens(table, par, rng, depth):
    if depth == 0 or rng.random() < 0.15:
        return ["#"]

    def sub():
        t = tree_tokens(table, par, rng, depth - 1)
        if len(t) > 1 and rng.random() < 0.25:
            return [par[0]] + t + [par[1]]
        return t

    syms, arity, assoc, _, _ = rng.choice(table)
    if arity == 1:
        return ([syms[0]] + sub()) if assoc == "R" else (sub() + [syms[0]])
    if arity == 2:
        s = rng.choice(syms)
        return sub() + ([s] if s else []) + sub()
    return sub() + [syms[0]] + sub() + [syms[1]] + sub()


# ---------------------------------------------------------------- reference
class RefInfix(object):
    def __init__(self, case, s):
        self.s = s
        self.table = case["table"]
        self.par = case["par"]
        self.base = case["base"]
        self.calls = []
        self.broken = False  # operators were found without their operands

    def ws(self, i):
        while i < len(self.s) and self.s[i] in " \t\r\n":
            i += 1
        return i

    def sym(self, t, i):
        """keywords need a boundary"""
        if not self.s.startswith(t, i):
            return None
        e = i + len(t)
        if t[0].isalpha() and e < len(self.s) and (self.s[e].isalnum() or self.s[e] in "_$"):
            return None
        return e

    def atom(self, i):
        i = self.ws(i)
        s = self.s
        e = i
        ok = "xyz" if self.base == "xyz" else "0123456789"
        while e < len(s) and s[e] in ok:
            e += 1
        if e > i:
            t = s[i:e]
            if self.base == "int":
                t = int(t)
            return ([t] if self.base == "group" else t, i), e
        e = self.sym(self.par[0], i)
        if e is None:
            raise Fail()
        tree, e = self.flat(e)
        e = self.sym(self.par[1], self.ws(e))
        if e is None:
            raise Fail()
        return tree, e

    def decorated(self, i):
        items = []
        while True:
            j = self.ws(i)
            for lv, (syms, arity, assoc, _, _) in enumerate(self.table):
                if arity == 1 and assoc == "R":
                    e = self.sym(syms[0], j)
                    if e is not None:
                        items.append(("pre", lv, syms[0], j))
                        i = e
                        break
            else:
                break
        a, i = self.atom(i)
        items.append(("atom", a))
        while True:
            j = self.ws(i)
            for lv, (syms, arity, assoc, _, _) in enumerate(self.table):
                if arity == 1 and assoc == "L":
                    e = self.sym(syms[0], j)
                    if e is not None:
                        items.append(("suf", lv, syms[0], j))
                        i = e
                        break
            else:
                break
        return items, i

    def infix(self, i):
        j = self.ws(i)
        best = None
        for lv, (syms, arity, assoc, _, _) in enumerate(self.table):
            if arity == 1:
                continue
            for n, t in enumerate(syms):
                e = j if t is None else self.sym(t, j)
                if e is not None and (best is None or e > best[0]):
                    best = (e, ("in", lv, t, j) if arity == 2 else ("t%d" % n, lv, t, j))
        if best is None:
            raise Fail()
        return best[1], best[0]

    def flat(self, i):
        items, i = self.decorated(i)
        while True:
            try:
                op, j = self.infix(i)
                more, j = self.decorated(j)
            except Fail:
                break
            items += [op] + more
            i = j
        was = self.broken
        self.items = items
        self.pos = 0
        self.broken = True
        tree = self.climb(INF, True)
        if self.pos < len(items):
            raise Fail()
        self.broken = was
        return tree, i

    def made(self, lv, seq, start):
        """seq without suppressed operators"""
        out = [x for x in seq]
        if self.table[lv][3]:
            self.calls.append((lv, start, plain(out)))
            out = ["<" + "".join(leaves(out)) + ">"]
        return (out, start)

    def climb(self, limit, inclusive):
        it = self.items[self.pos]
        self.pos += 1
        if it[0] == "pre":
            lv = it[1]
            sup = self.table[lv][4]
            x, xs = self.climb(lv, False)
            left = self.made(lv, [x] if sup else [it[2], x], xs if sup else it[3])
        elif it[0] == "atom":
            left = it[1]
        else:
            raise Fail()
        while self.pos < len(self.items):
            it = self.items[self.pos]
            lv = it[1]
            if it[0] == "t1" or it[0] in ("pre", "atom"):
                break
            if not (lv < limit or (lv == limit and inclusive)):
                break
            sup, right_assoc = self.table[lv][4], self.table[lv][2] == "R"
            self.pos += 1
            if it[0] == "suf":
                left = self.made(lv, [left[0]] if sup else [left[0], it[2]], left[1])
            elif it[0] == "in":
                r, _ = self.more(lv, right_assoc)
                left = self.made(lv, [left[0], r] if sup or it[2] is None else [left[0], it[2], r], left[1])
            else:
                mid, _ = self.more(INF, True)
                if self.pos >= len(self.items) or self.items[self.pos][0] != "t1" or self.items[self.pos][1] != lv:
                    raise Fail()
                t1 = self.items[self.pos][2]
                self.pos += 1
                r, _ = self.more(lv, right_assoc)
                s0, s1 = sup or (False, False)
                left = self.made(lv, [left[0]] + ([] if s0 else [it[2]]) + [mid] + ([] if s1 else [t1]) + [r], left[1])
        return left

    def more(self, lv, inclusive):
        if self.pos >= len(self.items):
            raise Fail()
        return self.climb(lv, inclusive)


def leaves(v):
    for x in v:
        if isinstance(x, list):
            yield from leaves(x)
        else:
            yield str(x)


def plain(v):
    return v


# ---------------------------------------------------------------- real
def build(case, log):
    table = []
    for lv, (syms, arity, assoc, act, sup) in enumerate(case["table"]):

        def one(t):
            return m.Keyword(t) if t and t[0].isalpha() else t

        if syms == [None]:
            op = None
        elif arity == 3:
            op = tuple(m.Suppress(one(x)) if y else one(x) for x, y in zip(syms, sup or (False, False)))
        elif len(syms) == 1:
            op = one(syms[0])
            if sup:
                op = m.Suppress(op if not isinstance(op, str) else m.Literal(op))
        elif any(x[0].isalpha() for x in syms):
            op = m.Or([m.Keyword(x) if x[0].isalpha() else m.Literal(x) for x in syms])
        else:
            op = m.one_of(syms)
        if len(syms) > 1 and sup and arity == 2:
            op = m.Suppress(op)
        row = [op, arity, m.RIGHT_ASSOC if assoc == "R" else m.LEFT_ASSOC]
        if act:

            def action(t, loc, string, lv=lv):
                v = view(t)
                log.append((lv, loc, v))
                return "<" + "".join(leaves(v)) + ">"

            row.append(action)
        table.append(tuple(row))
    base = {
        "num": lambda: m.Word("0123456789"),
        "int": lambda: m.Word("0123456789") / (lambda t: int(t[0])),
        "xyz": lambda: m.Word("xyz"),
        "group": lambda: m.Group(m.Word("0123456789")),
    }[case["base"]]()
    kw = {}
    if case["par"] != ["(", ")"]:
        a, b = case["par"]
        lit = m.Keyword if a.isalpha() else m.Literal
        kw = {"lpar": m.Suppress(lit(a)), "rpar": m.Suppress(lit(b))}
    return m.infix_notation(base, table, **kw)


def judge(case, obs):
    if case["kind"] == "python":
        return python(case, obs)
    log = []
    out = attempt(lambda: build(case, log))
    if out[0] != "ok":
        obs.violate("build", repr(out))
        return
    e = m.Group(out[1])
    obs.distinct("table shapes", [(len(r[0]), r[1], r[2], r[4], r[0] == [None]) for r in case["table"]])
    for s in case["texts"]:
        ref = RefInfix(case, s)
        try:
            tree, end = ref.flat(0)
            want = ("ok", [tree[0]], end)
        except Fail:
            want = ("fail",)
        del log[:]

        def go():
            r = e.parse_string(s)
            return view(r), r.end

        got = attempt(go)
        if got[0] == "deep":
            continue
        got = ("ok",) + got[1] if got[0] == "ok" else got[:1] if got[0] == "fail" else got
        v = want[1] if want[0] == "ok" else None
        if got[0] == "ok" and want[0] == "ok":
            # the whitespace around the end is not part of the property
            got, want = ("ok", got[1], at(s, got[2])), ("ok", want[1], at(s, want[2]))
        if got != want:
            # a group at the top of a group
            obs.violate("tree", "text=%r\n real=%r\n reference=%r" % (s, got, want))
            return
        if want[0] == "ok":
            obs.hit("trees compared")
            if not ref.broken:  # (else the actions of the operators that could be reduced were called too)
                skip = [case["par"][0]] + [r[0][0] for r in case["table"] if r[1] == 1 and r[2] == "R" and r[4]]

                def calls(seq):
                    # an operand in parentheses starts at the parenthesis or inside of it
                    return sorted(repr((lv, inner(s, loc, skip), v)) for lv, loc, v in seq)

                if calls(log) != calls(ref.calls):
                    obs.violate("actions", "text=%r\n real calls=%r\n reference=%r" % (s, log, ref.calls))
                    return
                obs.hit("action calls", len(log))
            if depth(v) >= 3:
                obs.mark()
            obs.distinct("trees", v)
        else:
            obs.hit("refused as expected")
        full = attempt(lambda: e.parse_string(s, parse_all=True))
        if full[0] != "deep" and (full[0] == "ok") != (want[0] == "ok" and not s[want[2] :].strip()):
            obs.violate("whole", "text=%r parse_all gave %r, reference %r" % (s, full[0], want))
            return


def inner(s, loc, skip):
    while loc < len(s):
        if s[loc] in " \t\r\n":
            loc += 1
        else:
            for t in skip:
                if s.startswith(t, loc):
                    loc += len(t)
                    break
            else:
                return loc
    return loc


def depth(v):
    return 1 + max([depth(x) for x in v] or [0]) if isinstance(v, list) else 0


# ---------------------------------------------------------------- python
PYBIN = {"**": ast.Pow, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv, "%": ast.Mod, "+": ast.Add, "-": ast.Sub, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "^": ast.BitXor, "|": ast.BitOr}
PYUN = {"+": ast.UAdd, "-": ast.USub, "~": ast.Invert, "not": ast.Not}
NAME = {v: k for k, v in PYBIN.items()}
UNAME = {v: k for k, v in PYUN.items()}
_py = []


def py_gen(rng, d):
    def g(d):
        if d <= 0 or rng.random() < 0.12:
            return ast.Name(rng.choice("xyz")) if rng.random() < 0.5 else ast.Constant(rng.randint(0, 20))
        c = rng.random()
        if c < 0.6:
            return ast.BinOp(g(d - 1), rng.choice(list(PYBIN.values()))(), g(d - 1))
        if c < 0.8:
            return ast.UnaryOp(rng.choice(list(PYUN.values()))(), g(d - 1))
        if c < 0.93:
            return ast.BoolOp(rng.choice([ast.And, ast.Or])(), [g(d - 1) for _ in range(rng.randint(2, 3))])
        return ast.IfExp(g(d - 1), g(d - 1), g(d - 1))

    return ast.unparse(ast.fix_missing_locations(ast.Expression(g(d))))


def py_tree(n):
    if isinstance(n, ast.Expression):
        return py_tree(n.body)
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Constant):
        return str(n.value)
    if isinstance(n, ast.BinOp):
        return [py_tree(n.left), NAME[type(n.op)], py_tree(n.right)]
    if isinstance(n, ast.UnaryOp):
        return [UNAME[type(n.op)], py_tree(n.operand)]
    if isinstance(n, ast.BoolOp):
        op = "and" if isinstance(n.op, ast.And) else "or"
        acc = py_tree(n.values[0])
        for v in n.values[1:]:
            acc = [acc, op, py_tree(v)]
        return acc
    return [py_tree(n.body), "if", py_tree(n.test), "else", py_tree(n.orelse)]


def py_grammar():
    if not _py:
        L, R, K = m.LEFT_ASSOC, m.RIGHT_ASSOC, m.Keyword
        base = m.Word("0123456789") | (~m.one_of("not and or if else", as_keyword=True) + m.Word("xyz"))
        _py.append(m.Group(m.infix_notation(base, [
            ("**", 2, R),
            (m.one_of("+ - ~"), 1, R),
            (m.one_of("* / // %"), 2, L),
            (m.one_of("+ -"), 2, L),
            (m.one_of("<< >>"), 2, L),
            ("&", 2, L),
            ("^", 2, L),
            ("|", 2, L),
            (K("not"), 1, R),
            (K("and"), 2, L),
            (K("or"), 2, L),
            ((K("if"), K("else")), 3, R),
        ])))
    return _py[0]


def python(case, obs):
    e = py_grammar()
    for s in case["exprs"]:
        if len(s) > 150:
            continue
        want = [py_tree(ast.parse(s, mode="eval"))]
        got = attempt(lambda: view(e.parse_string(s, parse_all=True)))
        if got[0] == "deep":
            continue
        if got != ("ok", want):
            obs.violate("python", "expression %r\n real=%r\n python=%r" % (s, got, want))
            return
        obs.hit("python trees")
        if depth(want) >= 3:
            obs.mark()
