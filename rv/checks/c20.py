"""C20: grammar helpers accept and return what they promise"""
import re

from rv import env as m
from rv.gen import G, derive, inputs, mutate
from rv.model import Builder, Fail, KIDS, N, OutOfModel, Ref, RWs, kinds_in, mkws
from rv.real import at, attempt, build, draw_style, map_spec, plain, plain_top

AN, AL, NU = m.utils.alphanums, m.utils.alphas, m.utils.nums
PRINTABLE = "".join(chr(c) for c in range(33, 127))
ID = "C20"
RULE = (
    "delimited_list, counted_array, nested_expr, dict_of, ungroup, located_expr, originalTextFor, matchPreviousLiteral, matchPreviousExpr, token_map, upcase_tokens, downcase_tokens, remove_quotes, replace_with, "
    "matchOnlyAtCol, over random content expressions and options, alone, nested in one another and inside random grammars, in several whitespace contexts, are compared with reference parsers of what each promises; "
    "dictionaries are compared by key; indented blocks (nested, with and without required indentation, blank lines, comments, wrong columns) and comma separated lists with parsers of the documented texts. Non-trivial: the helper accepted a text with at least two items, or refused one that only lacks its own rule."
)
ASSUME = [
    "nested_expr: delimiters, content and ignored expressions do not overlap (what content takes first is its own)",
    "ungroup() is given a group",
    "matchPrevious*(): the watched expression is matched before the repeat",
    "an indented block's statements take text",
    "originalTextFor() and located_expr() are compared where the end of the match is not in doubt",
]
NEED = {"helpers compared": 40000, "accepted": 12000, "refused": 8000, "inside grammars": 10000, "dictionaries": 1500, "blocks accepted": 1500, "blocks refused": 1500, "nested blocks": 500, "lists": 3000, "kind:dlist": 800, "kind:counted": 800, "kind:nested": 800, "kind:dictof": 500, "kind:ungroup": 400, "kind:located": 300, "kind:orig": 300, "kind:rep": 800, "kind:map": 800, "kind:atcol": 500, "kind:unq": 500, "kind:sub": 500, "kind:entity": 500}
KIDS.update({"dlist": 1, "counted": 1, "ungroup": 1, "located": 1, "orig": 1, "rep": 1, "map": 1, "atcol": 1, "sub": 1, "dictof": "list"})
CONTEXTS = [{"chars": " \n\r\t"}] * 4 + [{"chars": ""}, {"chars": " "}, {"chars": " \t\r\n", "ignore": ["#[^\n]*"]}, {"chars": " \t\n", "ignore": [r"/\*(?:[^*]|\*(?!/))*\*/", "~"]}]
MAPS = {
    "upper": (lambda: m.helpers.upcase_tokens, lambda ts: [str(t).upper() for t in ts]),
    "lower": (lambda: m.helpers.downcase_tokens, lambda ts: [str(t).lower() for t in ts]),
    "twice": (lambda: m.helpers.token_map(lambda t, n: t * n, 2), lambda ts: [t * 2 for t in ts]),
    "len": (lambda: m.helpers.token_map(len), lambda ts: [len(t) for t in ts]),
}
COUNTS = {
    "dec": (None, lambda s, i: re.compile("[0-9]+").match(s, i), int),
    "bin": (lambda: m.Word("01") / (lambda t: int(t[0], 2)), lambda s, i: re.compile("[01]+").match(s, i), lambda t: int(t, 2)),
    "word": (lambda: m.one_of("none one two three") / (lambda t: ["none", "one", "two", "three"].index(t[0])), lambda s, i: re.compile("none|one|two|three").match(s, i), ["none", "one", "two", "three"].index),
}
TEXTS = {"dec": str, "bin": lambda n: "0" * (n % 2) + bin(n)[2:], "word": lambda n: ["none", "one", "two", "three"][n % 4]}
IGNORES = {
    "quotes": (lambda: m.helpers.quoted_string, r'''"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*"(?!")|'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+(?![0-9a-fA-F]))))*'(?!')''', ["'a)'", '"(b"', "''", "'"]),
    "bars": (lambda: m.Regex(r"\|[^|]*\|"), r"\|[^|]*\|", ["|)|", "||", "|("]),
    "none": (None, None, []),
}


def ignoring(sp):
    """element, regex and examples of what nested_expr is to ignore"""
    if sp[4] != "opening":
        return IGNORES[sp[4]]
    # starts as a nested group does
    o = sp[1]
    rx = re.escape(o) + r"\*[^*]*\*"
    return (lambda: m.Regex(rx)), rx, [o + "*" + x + "*" for x in ("", "a", o, " " + sp[2], "b" + o + o)]


DELIMS = [("(", ")"), ("(", ")"), ("[", "]"), ("{", "}"), ("<<", ">>"), ("/*", "*/"), ("(:", ":)"), ("<", "/>"), (r"\(", ")"), ("^", "$")]


def plan(tier):
    k = 4 if tier == "quick" else 70
    return [("alone", 10 * k, 100), ("inside", 12 * k, 90), ("dict", 2 * k, 100), ("block", 6 * k, 100), ("list", 3 * k, 100)]


# ---------------------------------------------------------------- random helpers
def make(rng, g, depth=1, kinds=("dlist", "dlist", "counted", "nested", "nested", "dictof", "ungroup", "located", "orig", "rep", "rep", "map", "atcol", "unq", "sub", "entity")):
    """a helper over random content"""
    k = rng.choice(kinds)

    def content():
        if depth > 0 and rng.random() < 0.3:
            return make(rng, g, depth - 1)
        if rng.random() < 0.3:
            while True:
                sp = g.spec(1)
                if not g.nullable(sp):
                    return sp
        return g.consuming_term()

    if k == "dlist":
        return [k, content(), rng.choice([["lit", ","], ["lit", ","], ["lit", ";"], ["lit", "::"], ["first", [["lit", ","], ["lit", ";"]]], ["word", "+", None, 1, None, 0, ""], ["kw", "and", None]]), rng.random() < 0.25]
    if k == "counted":
        return [k, content(), rng.choice(["dec", "dec", "bin", "word"])]
    if k == "nested":
        o, c = rng.choice(DELIMS)
        if rng.random() < 0.5:
            inner = None
        else:
            inner = rng.choice([["word", "abc", None, 1, None, 0, ""], ["char", "ab,", ""], ["group", ["word", "ab01", None, 1, None, 0, ""]], ["and", [["word", "ab", None, 1, None, 0, ""], ["lit", ","]]], ["kw", "ab", None], ["oom", ["char", "ab", ""], None], ["dlist", ["word", "ab", None, 1, None, 0, ""], ["lit", ","], False]])
        return [k, o, c, inner, rng.choice(["quotes", "quotes", "bars", "opening", "none"])]
    if k == "dictof":
        return [k, [["word", "abc", None, 1, None, 0, ""], rng.choice([content(), ["and", [["suppress", ["lit", ":"]], content()]], ["opt", ["word", "01", None, 1, None, 0, ""], None]])]]
    if k == "ungroup":
        return [k, ["group", content()]]
    if k in ("located", "orig"):
        return [k, content()]
    if k == "rep":
        x = rng.choice([["word", "abc", None, 1, None, 0, ""], ["word", "01", None, 1, None, 0, ""], ["first", [["word", "ab", None, 1, None, 0, ""], ["lit", "("]]], ["and", [["word", "ab", None, 1, None, 0, ""], ["lit", ","], ["word", "01", None, 1, None, 0, ""]]], ["opt", ["word", "ab", None, 1, None, 0, ""], None], ["oom", ["char", "ab01", ""], None], ["group", ["word", "ab", None, 1, None, 0, ""]], ["clit", "ab"]])
        return [k, x, rng.choice([["lit", ":"], ["lit", ":"], ["zom", ["char", ";=", ""], None], ["lit", "a"]]), rng.choice(["lit", "expr"])]
    if k == "atcol":
        return [k, rng.choice([["word", "abc", None, 1, None, 0, ""], ["char", "abc", ""], ["kw", "ab", None], ["and", [["lit", "a"], ["lit", ";"]]]]), rng.choice([1, 1, 2, 3, 5, 6])]
    if k in ("unq", "entity"):
        return [k]
    if k == "sub":
        return [k, rng.choice([["word", "abc", None, 1, None, 0, ""], ["and", [["lit", "a"], ["lit", ","]]], ["group", ["word", "ab", None, 1, None, 0, ""]]]), rng.choice(["R", "xy z", "0"])]
    return [k, rng.choice([["word", "abc", None, 1, None, 0, ""], ["oom", ["word", "abAB", None, 1, None, 0, ""], None], ["kw", "Ab", None], ["and", [["clit", "aB"], ["word", "01", None, 1, None, 0, ""]]]]), rng.choice(sorted(MAPS))]


def lead(x):
    return x


def expand(sp, rng, depth=0):
    """a plain spec for texts the helper is to accept, more or less"""
    k = sp[0]
    if k == "dlist":
        x = expand(sp[1], rng, depth)
        out = [x]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out += [sp[2], x]
        if rng.random() < 0.12:
            out += [sp[2]]
        return ["and", out]
    if k == "counted":
        n = rng.choice([0, 1, 1, 2, 2, 3])
        x = expand(sp[1], rng, depth)
        return ["and", [["lit", TEXTS[sp[2]](n)]] + [x] * max(0, n + rng.choice([0, 0, 0, 0, 1, -1]))]
    if k == "nested":
        _, o, c, inner, ig = sp
        out = [["lit", o]]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.3 and depth < 5:
                out.append(expand(sp, rng, depth + 1))
            elif r < 0.5 and ignoring(sp)[2]:
                out.append(["lit", rng.choice(ignoring(sp)[2])])
            elif inner:
                out.append(expand(inner, rng, depth))
            else:
                out.append(["lit", "".join(rng.choice("ab1-.é" + o[0] * (len(o) > 1) + c[-1] * (len(c) > 1)) for _ in range(rng.randint(1, 3)))])
        out.append(["lit", c if rng.random() < 0.95 else c[0]])
        return ["and", out]
    if k == "dictof":
        a, b = sp[1]
        return ["and", [y for _ in range(rng.choice([1, 2, 2, 3])) for y in (expand(a, rng, depth), expand(b, rng, depth))]]
    if k == "unq":
        return ["lit", rng.choice(["'a'", '"b c"', "''", "'a\"b'", '"a', "'it''s'"])]
    if k == "entity":
        return ["lit", rng.choice(["&lt;", "&gt;", "&amp;", "&nbsp;", "&quot;", "&apos;", "&lt", "&foo;"])]
    if k in ("ungroup", "located", "orig", "map", "atcol", "sub"):
        return expand(sp[1], rng, depth)
    if k == "rep":
        t = derive(expand(sp[1], rng, depth), rng)
        u = t
        if rng.random() < 0.3:
            u = mutate(t, rng)
        return ["and", [["lit", t] if t else ["empty"], sp[2], ["lit", u] if u else ["empty"]]]
    if k == "and" or k == "first" or k == "or" or k == "all":
        return [k, [expand(x, rng, depth) for x in sp[1]]]
    if k == "ws":
        return [k, sp[1], expand(sp[2], rng, depth)]
    if k == "let":
        return [k, {n: expand(x, rng, depth) for n, x in sp[1].items()}, expand(sp[2], rng, depth)]
    w = KIDS.get(k)
    if w is None:
        return sp
    out = list(sp)
    out[w] = expand(sp[w], rng, depth)
    return out


def spell(sp, conf, rng, n):
    out = []
    while len(out) < n:
        out.extend(inputs(["ws", conf, expand(sp, rng)], rng, 2))
    if conf.get("ignore"):
        out = [s.replace(" ", rng.choice([" ", " /* x */ ", "#c\n", "~", " # ,\n "]), 1) for s in out]
    return list(dict.fromkeys(out))


def helpers_in(sp, acc):
    def see(x):
        acc.add(x[0])
        return x

    map_spec(sp, see)
    return acc


class HRef(Ref):
    def x_dlist(self, sp, i, ws):
        _, x, sep, combine = sp
        if combine:
            return self.ev(["combine", ["and", [x, ["zom", ["and", [sep, x]], None]]], ""], i, ws)
        return self.ev(["and", [x, ["zom", ["and", [["suppress", sep], x]], None]]], i, ws)

    def x_counted(self, sp, i, ws):
        _, x, how = sp
        found = COUNTS[how][1](self.s, i)
        if not found:
            self.fail(i)
        n = COUNTS[how][2](found.group(0))
        if n > 50:
            raise OutOfModel("large count")
        return self.ev(["and", [["suppress", ["lit", found.group(0)]], ["group", ["many", x, n, n, None] if n else ["empty"]]]], i, ws)

    def x_nested(self, sp, i, ws, depth=0):
        _, o, c, inner, ig = sp
        s = self.s
        ignore = ignoring(sp)[1] and re.compile(ignoring(sp)[1], re.DOTALL)
        if depth > 30:
            raise OutOfModel("depth")
        if not s.startswith(o, i):
            self.fail(i)
        start, kids = i, []
        i += len(o)
        while True:
            i = ws.skip(s, i)
            found = ignore and ignore.match(s, i)
            if found:
                kids.append(found.group(0))
                i = found.end()
                continue
            try:
                n = self.x_nested(sp, i, ws, depth + 1)
            except Fail:
                try:
                    n = self.ev(inner, i, ws) if inner else self.word(o, c, ignore, i, ws)
                except Fail:
                    break
            kids.append(n)
            if n.end <= i:
                break
            i = n.end
        if not s.startswith(c, i):
            self.fail(i)
        return N("nested", start, i + len(c), kids, group=True)

    def word(self, o, c, ignore, i, ws):
        s, e = self.s, i
        while e < len(s) and s[e] not in ws.chars and not s.startswith(c, e) and not s.startswith(o, e) and not (ignore and ignore.match(s, e)):
            e += 1
        if e == i:
            self.fail(i)
        return N("word", i, e, [s[i:e].strip()])

    def x_dictof(self, sp, i, ws):
        return self.ev(["group", ["oom", ["group", ["and", sp[1]]], None]], i, ws)

    def x_ungroup(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        return N("ungroup", r.start, r.end, r.kids)

    def x_located(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        if not solid(r):
            raise OutOfModel("end in doubt")
        return N("located", i, r.end, [r.start, N("group", r.start, r.end, [r], group=True), r.end], group=True)

    def x_orig(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        if not solid(r):
            raise OutOfModel("end in doubt")
        return N("orig", i, r.end, [self.s[r.start : r.end]], group=True)

    def x_map(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        return N("map", r.start, r.end, MAPS[sp[2]][1](r.view()))

    def x_atcol(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        if self.trying:
            return r
        if r.start - (self.s.rfind("\n", 0, r.start) + 1) + 1 != sp[2]:
            self.fail(i)
        return r

    def x_unq(self, sp, i, ws):
        found = _QUOTED.match(self.s, i)
        if not found:
            self.fail(i)
        return N("unq", i, found.end(), [found.group(0)[1:-1]])

    def x_entity(self, sp, i, ws):
        for k, v in (("lt", "<"), ("gt", ">"), ("amp", "&"), ("nbsp", " "), ("quot", '"'), ("apos", "'")):
            if self.s.startswith("&" + k + ";", i):
                return N("entity", i, i + len(k) + 2, [v])
        self.fail(i)

    def x_sub(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        return N("sub", r.start, r.end, [sp[2]], group=r.group)

    def x_rep(self, sp, i, ws):
        return self.ev(["and", [["watch", sp[1]], sp[2], ["again", sp[1], sp[3]]]], i, ws)

    def x_watch(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        self.previous = list(r.leaves())
        return r

    def x_again(self, sp, i, ws):
        if sp[2] == "lit":
            return self.ev(["and", [["lit", t] for t in self.previous]] if self.previous else ["empty"], i, ws)
        r = self.ev(sp[1], i, ws)
        if list(r.leaves()) != self.previous:
            self.fail(i)
        return r


def acted(sp):
    """a repetition with an action is handled in pieces by MatchAll (a known finding of C01)"""
    return sp[0] in ("map", "atcol", "sub") or sp[0] == "suppress" and acted(sp[1])


def solid(n):
    return n.start < n.end and all(solid(k) for k in n.kids if isinstance(k, N))


class HBuilder(Builder):
    def b_dlist(self, sp):
        sep = self.lit_arg(sp[2])
        if self.style.get("op") and sep == "," and not sp[3]:
            return m.delimited_list(self.b(sp[1]))
        return m.delimited_list(self.b(sp[1]), sep, combine=sp[3])

    def b_counted(self, sp):
        how = COUNTS[sp[2]][0]
        return m.helpers.counted_array(self.b(sp[1]), int_expr=how()) if how else m.helpers.counted_array(self.b(sp[1]))

    def b_nested(self, sp):
        _, o, c, inner, ig = sp
        kw = {}
        if inner:
            kw["content"] = self.b(inner)
            if self.style.get("op"):
                o, c = m.Literal(o), m.Literal(c)
        if ig != "quotes" or self.style.get("str"):
            kw["ignore_expr"] = ignoring(sp)[0] and ignoring(sp)[0]()
        return m.helpers.nested_expr(o, c, **kw)

    def b_dictof(self, sp):
        return m.helpers.dict_of(self.b(sp[1][0]), self.b(sp[1][1]))

    def b_ungroup(self, sp):
        return m.helpers.ungroup(self.b(sp[1]))

    def b_located(self, sp):
        return m.helpers.located_expr(self.b(sp[1]))

    def b_orig(self, sp):
        return m.helpers.originalTextFor(self.b(sp[1]))

    def b_map(self, sp):
        fn = MAPS[sp[2]][0]()
        return self.b(sp[1]) / fn if self.style.get("op") else self.b(sp[1]).add_parse_action(fn)

    def b_atcol(self, sp):
        return self.b(sp[1]) / m.helpers.matchOnlyAtCol(sp[2])

    def b_unq(self, sp):
        return m.helpers.quoted_string / m.helpers.remove_quotes

    def b_entity(self, sp):
        return m.helpers.commonHTMLEntity / m.helpers.replaceHTMLEntity

    def b_sub(self, sp):
        return self.b(sp[1]).replace_with(sp[2]) if self.style.get("op") else self.b(sp[1]).sub(sp[2])

    def b_rep(self, sp):
        f = self.b(sp[1])
        how = m.helpers.matchPreviousLiteral if sp[3] == "lit" else m.helpers.matchPreviousExpr
        again = how(f)
        mid = self.b(sp[2])
        if self.style.get("op"):
            return f + mid + again
        return m.And([f, mid, again], m.whitespaces.CURRENT)


# ---------------------------------------------------------------- cases
def gen(kind, rng):
    if kind == "block":
        return gen_block(rng)
    if kind == "list":
        return gen_list(rng)
    style = draw_style(rng)
    if kind == "dict":
        value = rng.choice([["word", "01", None, 1, None, 0, ""], ["oom", ["word", "01", None, 1, None, 0, ""], None], ["zom", ["word", "01", None, 1, None, 0, ""], None], ["and", [["suppress", ["lit", "="]], ["word", "01b", None, 1, None, 0, ""]]], ["and", [["word", "01", None, 1, None, 0, ""], ["opt", ["lit", ";"], None]]]])
        key = rng.choice([["word", "abc", None, 1, None, 0, ""], ["kw", "ab", None], ["char", "abc", ""], ["and", [["suppress", ["lit", "("]], ["word", "abc", None, 1, None, 0, ""]]], ["map", ["word", "abc", None, 1, None, 0, ""], "len"], ["map", ["kw", "ab", None], "upper"]])
        sp = ["dictof", [key, value]]
        return {"spec": sp, "style": style, "ws": CONTEXTS[0], "inputs": spell(sp, CONTEXTS[0], rng, 8)}
    g = G(rng, terms=["lit", "lit2", "word", "char", "kw", "clit"], combs=["and", "and", "first", "or", "opt", "zom", "oom", "group", "many", "combine", "suppress"])
    conf = rng.choice(CONTEXTS)
    if kind == "alone":
        sp = make(rng, g, rng.choice([0, 0, 1, 2]))
        return {"spec": sp, "style": style, "ws": conf, "inputs": spell(sp, conf, rng, 10)}
    g = G(rng, terms=["lit", "lit2", "word", "char", "kw"], combs=["and", "and", "first", "or", "opt", "zom", "oom", "group", "many", "combine", "not", "ahead", "skipto", "let", "all", "suppress", "firstlit"])
    while True:
        sp = g.spec(rng.randint(1, 3))
        used = []

        def put(x):
            if x[0] in ("lit", "word", "char", "kw") and rng.random() < 0.5:
                w = make(rng, g, rng.choice([0, 0, 1]))
                used.append(w)
                return w
            return x

        # (a repetition directly inside MatchAll is a known finding)
        sp = map_spec(map_spec(sp, put), lambda x: ["all", [["group", y] if acted(y) else y for y in x[1]]] if x[0] == "all" else x)
        if kinds_in(sp) & {"let", "or"}:
            # when it repeats nothing, the grammar may become left recursive, or which alternative is longest depends on whitespace
            sp = map_spec(sp, lambda x: [x[0], x[1][1]] + x[2:] if x[0] == "rep" and x[1][0] == "opt" else x)
        if used and len(repr(sp)) < 3000:
            break
    return {"spec": sp, "style": style, "ws": conf, "inputs": spell(sp, conf, rng, 10), "pre": rng.choice(["none", "finalize", "copy", "streamline"])}


def judge(case, obs):
    if case["kind"] == "block":
        return judge_block(case, obs)
    if case["kind"] == "list":
        return judge_list(case, obs)
    sp = case["spec"]
    inside = case["kind"] == "inside"
    top = ["and", [sp, ["empty"]]]
    used = helpers_in(sp, set())

    def make_it():
        b = HBuilder(case["style"])
        with b.context(case["ws"]):
            return build(b, top, case.get("pre", "none"))

    b = attempt(make_it)
    if b[0] != "ok":
        if inside or len(used & set(NEED_KINDS)) > 1 or "combine" in used:
            obs.hit("refused at build")
            return
        return obs.violate("build", "%r" % (b,))
    e = b[1]
    for s in case["inputs"]:
        ref = HRef(s, ws=mkws(case["ws"]), budget=4000)
        try:
            node = ref.parse(top)
        except Fail:
            node = None
        except (OutOfModel, RecursionError):
            continue
        got = attempt(lambda: e.parse_string(s))
        if got[0] == "deep":
            continue
        obs.hit("helpers compared")
        for k in used & set(NEED_KINDS):
            obs.hit("kind:" + k)
        obs.hit("inside grammars" if inside else "accepted" if node else "refused")
        if (got[0] == "ok") != (node is not None) or got[0] == "exc":
            return obs.violate("match", "input=%r %r, reference %s" % (s, got if got[0] != "ok" else plain(got[1]), "fails" if node is None else node.view()))
        if node is None:
            continue
        mine, theirs = plain(got[1]), plain(node.view())
        if mine != theirs:
            return obs.violate("tokens", "input=%r gives %r, reference %r" % (s, mine, theirs))
        if skip(case, s, got[1].end) != skip(case, s, node.end):
            return obs.violate("end", "input=%r %r ends at %d, reference at %d" % (s, mine, got[1].end, node.end))
        if len(repr(theirs)) > 10:
            obs.mark()
        obs.distinct("results", repr((sp, theirs)))
        if case["kind"] == "dict":
            bad = lookup(got[1], node)
            obs.hit("dictionaries")
            if bad:
                return obs.violate("dict", "input=%r %s" % (s, bad))


NEED_KINDS = [k[5:] for k in NEED if k.startswith("kind:")]


def skip(case, s, i):
    return at(s, mkws(case["ws"]).skip(s, i))


def lookup(r, node):
    want = {}
    for g in node.view()[0]:
        want.setdefault(str(g[0]), []).append(g[1:])  # keys are text
    d = r[0]
    for src, what in ((d, "dictionary"),):
        for k, vs in want.items():
            flat = [x for v in vs for x in v]
            v = src[k]
            if len(vs) == 1 and len(flat) == 1:
                if v != flat[0]:
                    return "%s[%r] is %r, should be %r" % (what, k, plain(v), flat[0])
            elif leaves(plain(v)) != flat:
                return "%s[%r] is %r, should be %r" % (what, k, plain(v), flat)
            if flat and k not in src:
                return "%r not in %s" % (k, what)
        extra = set(src.keys()) - set(want)
        if extra:
            return "%s has keys %r" % (what, extra)
        for k in ("zz", "0", "("):
            if k in src:
                return "%r in %s" % (k, what)
    return None


def leaves(v):
    return [y for x in v for y in leaves(x)] if isinstance(v, list) else [v]


# ---------------------------------------------------------------- indented blocks
def gen_block(rng):
    """
    statements are words, calls `w ( w )`, or `head :` with an indented block
    """
    conf = rng.choice([{"chars": " \t\r\n"}, {"chars": " \t\r\n"}, {"chars": " "}, {"chars": " \t\n", "ignore": ["#[^\n]*"]}])
    inner = rng.choice(["same", "same", "digits", "words"])
    indent = rng.random() < 0.75
    wrap = rng.choice(["block", "block", "stmts", "then"])
    texts_ = []
    for _ in range(8):
        lines = []

        def put(col, depth, kind):
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                r = rng.random()
                c = col
                if rng.random() < 0.08:
                    c = max(0, col + rng.choice([-2, -1, 1, 2]))
                if r < 0.3 and depth < 4 and kind != "digits":
                    lines.append(" " * c + rng.choice(["if", "for"]) + rng.choice([":", " :"]))
                    put(col + (rng.choice([1, 2, 4]) if rng.random() < 0.93 else 0), depth + 1, inner if inner != "same" else kind)
                elif kind == "digits":
                    lines.append(" " * c + rng.choice(["1", "22"]))
                else:
                    lines.append(" " * c + rng.choice(["a", "bc", "a(b)", "b ( c )", "a b" if rng.random() < 0.1 else "c", "1" if rng.random() < 0.15 else "d"]))
                if rng.random() < 0.15:
                    lines.append(rng.choice(["", "   ", "", " # x" if conf.get("ignore") else ""]))

        first = rng.choice([0, 0, 2]) if indent else 0
        put(first + (0 if wrap == "stmts" or not indent else 2), 0, "words")
        s = "\n".join(lines) + rng.choice(["", "\n", "\n\n", "\n  "])
        if wrap == "then":
            s = rng.choice(["x:\n", "x:\n", "x :\n\n", "x:"]) + s + rng.choice(["", "\nend", "\n  end", " end"])
        if rng.random() < 0.12:
            s = mutate(s, rng, "ab:( \n1)")
        texts_.append(s)
    return {"conf": conf, "inner": inner, "indent": indent, "wrap": wrap, "inputs": texts_}


class BRef(object):
    def __init__(self, s, ws, inner):
        self.s, self.ws, self.inner, self.deep = s, ws, inner, 0

    def col(self, i):
        return i - (self.s.rfind("\n", 0, i) + 1) + 1

    def re(self, p, i):
        found = re.compile(p).match(self.s, i)
        if not found:
            raise Fail(i)
        return found.end()

    def stmt(self, i, stack, kind):
        """-> end, tokens"""
        s, ws = self.s, self.ws
        if kind == "digits":
            e = self.re("[0-9]+", i)
            return e, [s[i:e]]
        try:
            e = self.re("(?:if|for)(?![A-Za-z0-9_$])", i)
            j = self.re(":", ws.skip(s, e))
            j, body = self.block(j, stack, self.inner if self.inner != "same" else kind, True)
            return j, [[s[i:e], body]]
        except Fail:
            pass
        e = self.re("[a-z]+", i)
        out = [s[i:e]]
        try:
            j = self.re(r"\(", ws.skip(s, e))
            k = ws.skip(s, j)
            w = self.re("[a-z]+", k)
            j = self.re(r"\)", ws.skip(s, w))
            return j, out + [s[k:w]]
        except Fail:
            return e, out

    def lines(self, i):
        """the ends of lines, where they are not whitespace"""
        while True:
            j = self.ws.skip(self.s, i)
            if j < len(self.s) and self.s[j] == "\n":
                i = j + 1
            else:
                return j

    def block(self, i, stack, kind, indent):
        s = self.s
        i = self.lines(i)
        if i >= len(s):
            raise Fail(i)
        c = self.col(i)
        if indent and c <= stack[-1] or not indent and c != stack[-1]:
            raise Fail(i)
        if len(stack) > 1:
            self.deep += 1
        stack = stack + [c]
        out = []
        while i < len(s) and self.col(i) == c:
            try:
                j, toks = self.stmt(i, stack, kind)
            except Fail:
                break
            out.append(toks)
            end = j
            i = self.lines(j)
        if not out:
            raise Fail(i)
        if i < len(s) and self.col(i) not in stack:
            raise Fail(i)
        return i, out

    def top(self, wrap, indent):
        s, ws = self.s, self.ws
        i = ws.skip(s, 0)
        if wrap == "then":
            i = self.re(":", ws.skip(s, self.re("x", i)))
            i, out = self.block(i, [1], "words", indent)
            i = ws.skip(s, i)
            try:
                e = self.re("end(?![A-Za-z0-9_$])", i)
                return e, [out, "end"]
            except Fail:
                return i, [out]
        if wrap == "block":
            i, out = self.block(i, [1], "words", indent)
            return i, [out]
        out = []
        while True:
            i = ws.skip(s, i)
            try:
                i, toks = self.stmt(i, [1], "words")
            except Fail:
                break
            out.extend(toks)
        if not out:
            raise Fail(i)
        return i, out


def block_grammar(case):
    with HBuilder().context(case["conf"]):
        word = m.Word("abcdefghijklmnopqrstuvwxyz")

        def statement(body):
            return m.Group((m.Keyword("if") | m.Keyword("for")) + m.Suppress(":") + m.helpers.indented_block(body)) | word + m.Optional(m.Suppress("(") + word + m.Suppress(")"))

        if case["inner"] == "same":
            st = m.Forward()
            st << statement(st)
        elif case["inner"] == "digits":
            st = statement(m.Word("0123456789"))
        else:
            inner = m.Forward()
            inner << statement(inner)
            st = statement(inner)
        if case["wrap"] == "stmts":
            return m.And([m.OneOrMore(st), m.Empty()], m.whitespaces.CURRENT)
        block = m.helpers.indented_block(st, indent=case["indent"]) if not case["indent"] else m.helpers.indented_block(st)
        if case["wrap"] == "then":
            return m.Suppress("x") + m.Suppress(":") + block + m.Optional(m.Keyword("end"))
        return m.And([block, m.Empty()], m.whitespaces.CURRENT)


def judge_block(case, obs):
    b = attempt(lambda: block_grammar(case))
    if b[0] != "ok":
        return obs.violate("build", "%r" % (b,))
    for s in case["inputs"]:
        ref = BRef(s, mkws(case["conf"]), case["inner"])
        try:
            want = ref.top(case["wrap"], case["indent"])
        except Fail:
            want = None
        got = attempt(lambda: b[1].parse_string(s))
        if got[0] == "deep":
            continue
        obs.hit("blocks accepted" if want else "blocks refused")
        if want and ref.deep:
            obs.hit("nested blocks")
        if (got[0] == "ok") != (want is not None) or got[0] == "exc":
            return obs.violate("block", "input=%r %r, reference %r" % (s, got if got[0] != "ok" else plain(got[1]), want))
        if want is None:
            continue
        if plain(got[1]) != want[1]:
            return obs.violate("block", "input=%r gives %r, reference %r" % (s, plain(got[1]), want[1]))
        if len(want[1]) > 1 or len(repr(want[1])) > 14:
            obs.mark()
        if at(s, got[1].end) != at(s, want[0]) and not s[min(want[0], got[1].end) : max(want[0], got[1].end)].strip(" \n\t\r").startswith("#"):
            return obs.violate("block", "input=%r %r ends at %d, reference at %d" % (s, plain(got[1]), got[1].end, want[0]))
        obs.distinct("blocks", repr(want[1]))


# ---------------------------------------------------------------- comma separated lists
def gen_list(rng):
    def item():
        r = rng.random()
        if r < 0.15:
            return ""
        if r < 0.35:
            q = rng.choice("'\"")
            return q + "".join(rng.choice(["a", " ", ",", "b", q + q, "\\" + q, "\\n"]) for _ in range(rng.randint(0, 4))) + q
        out = "".join(rng.choice("ab1-.;'\"  \t()") for _ in range(rng.randint(1, 6)))
        return out

    texts_ = []
    for _ in range(10):
        s = ",".join(rng.choice(["", "", " ", "\t"]) + item() + rng.choice(["", "", " ", "  "]) for _ in range(rng.choice([1, 2, 3, 5])))
        if rng.random() < 0.2:
            s += rng.choice(["\n", "\nx, y", "\r\n", "é", ",é"])
        texts_.append(mutate(s, rng) if rng.random() < 0.15 else s)
    return {"which": rng.choice(["commaSeparatedList", "comma_separated_list"]), "inputs": texts_}


_QUOTED = re.compile(IGNORES["quotes"][1])


def judge_list(case, obs):
    e = getattr(m.helpers, case["which"])
    ws = RWs()
    inner = re.compile(r"[!-+\--~]+(?:[ \t]+(?![ \t]|,|\s*$|\n)[!-+\--~]+)*" if case["which"] == "commaSeparatedList" else r"[ \t!-+\--~]+")
    for s in case["inputs"]:
        i, want = 0, []
        while True:
            i = ws.skip(s, i)
            found = _QUOTED.match(s, i) or inner.match(s, i)
            if found and found.end() > i:
                want.append(found.group(0) if found.re is _QUOTED else found.group(0).strip())
                i = found.end()
            else:
                want.append("")
            j = ws.skip(s, i)
            if not s.startswith(",", j):
                break
            i = j + 1
        got = attempt(lambda: e.parse_string(s))
        obs.hit("lists")
        if got[0] != "ok" or plain(got[1]) != want or at(s, got[1].end) != at(s, i):
            return obs.violate("list", "%s input=%r gives %r, reference %r" % (case["which"], s, got if got[0] != "ok" else (plain(got[1]), got[1].end), (want, i)))
        if len(want) > 1:
            obs.mark()
        obs.distinct("lists", repr(want))
