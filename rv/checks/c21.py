"""C21: recursive grammars terminate and left recursion is refused"""
from rv import env as m
from rv.gen import G, derive, inputs, mutate
from rv.model import Builder, Fail, N, OutOfModel, Ref, sub_specs
from rv.real import at, attempt, build, draw_style, map_spec, plain

ID = "C21"
RULE = (
    "random systems of one to five mutually recursive Forwards, in every order of definition, with the recursive use behind consuming or nullable prefixes of every kind and inside every kind of element (choices, repetitions, stops, "
    "lookaheads, any-order, SkipTo, Combine ...), are classified by an independent least-fixpoint analysis (which rules can call themselves before taking text); "
    "the library must raise RecursiveGrammarException by the first parse exactly for the left recursive ones, and parse the others as the reference does, in bounded time, to a given depth of nesting. Non-trivial: the system has a cycle of rules."
)
ASSUME = [
    "left recursion is a static property: a rule that can be called again at the place it was called, by the structure of the grammar, whatever the text",
    "a cycle inside a rule that is never used counts, rules are checked when defined",
    "nesting to a depth of 25 fits in Python's stack",
]
NEED = {"systems": 3000, "left recursive": 1000, "refused": 1000, "sound": 1000, "sound cycles": 500, "parsed": 5000, "compared": 5000, "deep": 300}
W = lambda c: ["word", c, None, 1, None, 0, ""]
EATS = [
    ["lit", "a"], ["lit", "ab"], ["kw", "if", None], ["ckw", "if", None], ["clit", "ab"], W("ab"), ["char", "abc", ""], ["char", "", "x"], ["notin", "x,", 1, 0, 0], ["any"], ["re", "[ab]+"], ["re", "a[bc]"], ["re", "a|b"], ["close", "aba", 1],
    ["group", ["lit", "a"]], ["combine", ["and", [["lit", "a"], ["lit", "b"]]], ""], ["suppress", ["lit", "("]], ["and", [["opt", ["lit", "a"], None], ["lit", "b"]]], ["first", [["lit", "a"], W("c")]], ["or", [["lit", "a"], ["kw", "if", None]]],
    ["oom", ["lit", "a"], None], ["many", ["lit", "a"], 2, None, None], ["many", ["lit", "b"], 2, 3, None], ["all", [["lit", "a"], ["lit", "b"]]], ["all", [["opt", ["lit", "a"], None], ["lit", "b"]]], ["skipto", ["lit", ","], True, None, None], ["pname", ["lit", "a"], "P"], ["name", ["lit", "a"], "x"],
    ["noop", ["lit", "b"]], ["copy", ["lit", "b"]], ["and", [["not", ["lit", "x"]], ["char", "abcx", ""]]], ["re", r"'[^']*'"], ["white", " ", 1, 0, 0], ["dflt", "word"], ["dflt", "one_of"], ["dflt", "quoted"], ["dflt", "real"], ["dflt", "group_kw"],
]
MAYBE = [
    ["opt", ["lit", "a"], None], ["opt", ["lit", "b"], "D"], ["zom", ["lit", "a"], None], ["many", ["lit", "b"], 0, 2, None], ["empty"], ["not", ["lit", "x"]], ["ahead", ["char", "abc(", ""]], ["skipto", ["lit", ","], False, None, None],
    ["first", [["lit", "a"], ["empty"]]], ["group", ["opt", ["lit", "b"], None]], ["combine", ["zom", ["lit", "a"], None], ""], ["and", [["opt", ["lit", "a"], None], ["zom", ["lit", "b"], None]]], ["all", [["opt", ["lit", "a"], None], ["opt", ["lit", "b"], None]]],
    ["oom", ["opt", ["lit", "a"], None], None], ["re", "a*"], ["re", "b?"], ["suppress", ["opt", ["lit", "("], None]], ["linestart"], ["lineend"], ["wstart", "abc"], ["pname", ["opt", ["lit", "a"], None], "P"], ["name", ["opt", ["lit", "a"], None], "x"], ["noop", ["opt", ["lit", "a"], None]],
]


def plan(tier):
    k = 3 if tier == "quick" else 60
    return [("chain", 10 * k, 120), ("system", 10 * k, 120), ("deep", 3 * k, 60)]


# ---------------------------------------------------------------- the analysis
def nullable(sp, null):
    k = sp[0]
    if k == "ref":
        return sp[1] in null
    if k in ("opt", "zom", "empty", "not", "ahead", "behind", "strstart", "strend", "linestart", "lineend", "wstart", "wend"):
        return True
    if k == "re":
        import re

        return bool(re.match("(?:%s)\\Z" % sp[1], ""))
    if k == "and":
        return all(nullable(x, null) for x in sp[1])
    if k in ("first", "or"):
        return any(nullable(x, null) for x in sp[1])
    if k == "all":
        return all(nullable(x, null) for x in sp[1])
    if k == "oom":
        return nullable(sp[1], null)
    if k == "many":
        return sp[2] == 0 or nullable(sp[1], null)
    if k == "skipto":
        return not sp[2] or nullable(sp[1], null)
    if k in ("group", "suppress", "combine", "name", "pname", "noop", "copy"):
        return nullable(sp[1], null)
    return False


def heads(sp, null):
    """the rules that are called where sp starts"""
    k = sp[0]
    if k == "ref":
        return {sp[1]}
    if k == "and":
        out = set()
        for x in sp[1]:
            out |= heads(x, null)
            if not nullable(x, null):
                break
        return out
    out = set()
    for x in sub_specs(sp):
        out |= heads(x, null)
    return out


def left_recursive(rules):
    null = set()
    while True:
        more = {k for k, b in rules.items() if nullable(b, null)}
        if more == null:
            break
        null = more
    calls = {k: heads(b, null) for k, b in rules.items()}
    return [k for k in rules if k in reach(calls, k)]


def refs_in(sp):
    out = {sp[1]} if sp[0] == "ref" else set()
    for x in sub_specs(sp):
        out |= refs_in(x)
    return out


def reach(calls, k):
    seen, todo = set(), list(calls[k])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(calls[x])
    return seen


# ---------------------------------------------------------------- systems of rules
def wrap(rng, x):
    """x, called where this is"""
    k = rng.randrange(21)
    e = rng.choice(EATS[:8])
    return [
        lambda: x, lambda: ["group", x], lambda: ["suppress", x], lambda: ["opt", x, None], lambda: ["oom", x, None], lambda: ["zom", x, None], lambda: ["many", x, rng.randint(0, 2), 3, None], lambda: ["first", [x, e]], lambda: ["first", [e, x]], lambda: ["or", [e, x]],
        lambda: ["and", [x, e]], lambda: ["all", [["group", x], e]], lambda: ["and", [["ahead", x], e]], lambda: ["and", [["not", x], e]], lambda: ["skipto", x, rng.random() < 0.5, None, None], lambda: ["noop", x], lambda: ["copy", x], lambda: ["pname", x, "Q"],
        lambda: ["combine", ["and", [x, e]], ""], lambda: ["first", [["and", [["lit", "x"], e]], ["and", [["group", x], e]], e]], lambda: ["all", [e, ["opt", ["group", x], None]]],
    ][k]()


def chain(rng):
    names = ["F%d" % i for i in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    rules = {}
    for i, n in enumerate(names):
        nxt = ["ref", names[(i + 1) % len(names)]]
        b = wrap(rng, nxt)
        if rng.random() < 0.3:
            b = wrap(rng, b)
        pre = []
        if rng.random() < 0.5:
            pre.append(rng.choice(MAYBE))
        if rng.random() < (0.6 if len(names) == 1 else 0.3):
            pre.append(rng.choice(EATS))
            if rng.random() < 0.2:
                rng.shuffle(pre)
        if pre:
            b = ["and", pre + [b] + ([rng.choice(EATS[:4])] if rng.random() < 0.4 else [])]
        if rng.random() < 0.8:
            base = rng.choice(EATS)
            b = [rng.choice(["first", "first", "or"]), [b, base] if rng.random() < 0.6 else [base, b]]
        rules[n] = b
    if rng.random() < 0.3:
        # used before it is defined, takes text or not
        rules["Z"] = rng.choice(EATS + MAYBE)
        n = rng.choice(names)
        rules[n] = ["and", [["ref", "Z"], rules[n]]]
    return rules


def system(rng):
    names = ["F%d" % i for i in range(rng.choice([1, 2, 3, 5]))]

    def body(d, first):
        r = rng.random()
        if d <= 0 or r < 0.2:
            if rng.random() < (0.12 if first else 0.5):
                return ["ref", rng.choice(names)]
            return rng.choice(EATS)
        if r < 0.3:
            return rng.choice(MAYBE)
        if r < 0.65:
            kids = []
            eaten = not first
            for _ in range(rng.choice([2, 2, 3])):
                x = body(d - 1, not eaten)
                if not kids and rng.random() < 0.5:
                    x = rng.choice(EATS)
                eaten = eaten or x in EATS
                kids.append(x)
            return ["and", kids]
        if r < 0.85:
            return [rng.choice(["first", "or"]), [body(d - 1, first) for _ in range(rng.choice([2, 3]))]]
        return wrap(rng, body(d - 1, first))

    return {n: body(3, True) for n in names}


DEEP = [
    lambda: ({"E": ["first", [["and", [["lit", "("], ["ref", "E"], ["lit", ")"]]], W("ab")]]}, "(", "a", ")"),
    lambda: ({"E": ["group", ["and", [["suppress", ["lit", "["]], ["zom", ["first", [["ref", "E"], W("ab")]], None], ["suppress", ["lit", "]"]]]]]}, "[ a ", "", " b ]"),
    lambda: ({"E": ["and", [["ref", "T"], ["zom", ["and", [["lit", "+"], ["ref", "T"]]], None]]], "T": ["first", [["and", [["lit", "("], ["ref", "E"], ["lit", ")"]]], W("ab")]]}, "( a + ", "b", ")"),
    lambda: ({"E": ["or", [["and", [["lit", "("], ["opt", ["ref", "E"], None], ["lit", ")"]]], ["and", [["lit", "{"], ["opt", ["ref", "E"], None], ["lit", "}"]]]]]}, "({", "", "})"),
    lambda: ({"L": ["first", [["and", [["char", "ab", ""], ["ref", "L"]]], ["empty"]]]}, "a ", "", "b "),
    lambda: ({"E": ["group", ["and", [["char", "ab", ""], ["opt", ["ref", "E"], None]]]]}, "a", "b", ""),
    lambda: ({"S": ["first", [["and", [["kw", "if", None], ["ref", "C"], ["ref", "S"]]], ["lit", ";"]]], "C": ["and", [["lit", "("], ["first", [["ref", "C"], W("ab")]], ["lit", ")"]]]}, "if ((a)) ", ";", ""),
    lambda: ({"E": ["first", [["and", [["re", "a[bc]"], ["group", ["ref", "E"]]]], ["re", "b+c"]]]}, "ab ac", "bc", ""),
    lambda: ({"E": ["all", [["lit", "("], ["opt", ["group", ["and", [["lit", ","], ["ref", "E"]]]], None]]]}, "( ,", "(", ""),
    lambda: ({"E": ["and", [["not", ["lit", "x"]], ["first", [["and", [["lit", "<"], ["many", ["ref", "E"], 1, 2, None], ["lit", ">"]]], ["char", "abc", ""]]]]]}, "<", "a", ">"),
]


def gen(kind, rng):
    if kind == "deep":
        rules, a, b, c = rng.choice(DEEP)()
        n = rng.randint(1, 25)
        texts = [a * n + b + c * n, " ".join([a] * n + [b] + [c] * n), a * n + b + c * (n - 1), a * n + c * n, mutate(a * 5 + b + c * 5, rng)]
        name = sorted(rules)[0]
    else:
        rules = chain(rng) if kind == "chain" else system(rng)
        order = sorted(rules)
        rng.shuffle(order)
        rules = {k: rules[k] for k in order}
        name = rng.choice(order)
        top = ["let", rules, ["ref", name]]
        texts = inputs(map_spec(top, plainly), rng, 6)
    use = rng.choice([["ref", name], ["ref", name], ["and", [["ref", name], ["opt", ["lit", ","], None]]], ["group", ["ref", name]], ["oom", ["ref", name], None], ["first", [["ref", name], ["lit", "!"]]]])
    # (the order of definition)
    return {"rules": [[k, rules[k]] for k in rules], "use": use, "style": draw_style(rng), "pre": rng.choice(["none", "none", "finalize", "streamline", "copy"]), "inputs": texts}


def plainly(sp):
    return {"word": W("ab"), "one_of": ["lit", "a"], "quoted": ["lit", "'a'"], "real": ["lit", "1.5"], "group_kw": ["kw", "if", None]}[sp[1]] if sp[0] == "dflt" else sp


class CRef(Ref):
    def x_dflt(self, sp, i, ws):
        raise OutOfModel("means what it likes, it takes text")


class CBuilder(Builder):
    def b_dflt(self, sp):
        return {
            "word": lambda: m.Word("a", "ab", exact=2),
            "one_of": lambda: m.one_of("a ab b"),
            "quoted": lambda: m.QuotedString("'"),
            "real": lambda: m.helpers.real,
            "group_kw": lambda: m.Group(m.Keyword("if") | m.Keyword("else")),
        }[sp[1]]()


def has(sp, kind):
    return sp[0] == kind or any(has(x, kind) for x in sub_specs(sp))


def judge(case, obs):
    rules = {k: b for k, b in case["rules"]}
    spec = ["let", rules, case["use"]]
    left = left_recursive(rules)
    obs.hit("systems")
    calls = {k: refs_in(b) for k, b in rules.items()}
    cyclic = any(k in reach(calls, k) for k in rules)
    obs.hit("left recursive" if left else "sound")
    if cyclic:
        obs.mark()
        if not left:
            obs.hit("sound cycles")
    e = None

    def go():
        with m.whitespaces.Whitespace(" \t\r\n"):
            return build(CBuilder(case["style"]), ["and", [spec, ["empty"]]], case["pre"])

    got = outcome(go)
    e = got[1]
    refused = got[0] == "refused"
    if got[0] == "ok":
        first = outcome(lambda: e.parse_string(""))
        refused = first[0] == "refused"
        if first[0] in ("hang", "deep"):
            return obs.violate("not refused", "rules %s are left recursive: %r" % (left, first))
    elif got[0] in ("hang", "deep"):
        return obs.violate("build", "%r" % (got,))
    else:
        if refused is False and not (got[0] == "other" and "whitespace" in got[1]):
            if not left:
                obs.hit("refused otherwise")
                if not known(got[1]):
                    return obs.violate("build", "%r" % (got,))
            return
    if refused:
        obs.hit("refused")
    if refused and not left:
        return obs.violate("refused", "no rule is left recursive, but: %s" % (got[1] if got[0] == "refused" else first[1]))
    if left and not refused:
        if got[0] == "ok":
            return obs.violate("not refused", "rules %s are left recursive" % left)
        return
    if left or got[0] != "ok":
        return
    for s in case["inputs"]:
        # (the reference first: grammars that take exponential time are left alone)
        node = None
        try:
            node = CRef(s, budget=6000).parse(spec)
        except Fail:
            pass
        except (OutOfModel, RecursionError) as cause:
            if "mean" not in str(cause):
                continue
            node = cause
        real = outcome(lambda: e.parse_string(s))
        if real[0] == "hang":
            if isinstance(node, Exception):
                continue  # may be exponential
            return obs.violate("hang", "input=%r" % s)
        obs.hit("parsed")
        if case["kind"] == "deep":
            obs.hit("deep")
        if real[0] == "refused":
            return obs.violate("refused", "input=%r" % s)
        if isinstance(node, Exception):
            continue
        if real[0] in ("deep", "other", "refused"):
            return obs.violate("parse", "input=%r %r, reference %s" % (s, real, node and node.view()))
        obs.hit("compared")
        if (real[0] == "ok") != (node is not None):
            return obs.violate("match", "input=%r %r, reference %s" % (s, real, node and node.view()))
        if node is None:
            continue
        v = plain(real[1])
        w = N("top", node.start, node.end, [node]).view()
        if v != w or at(s, real[1].end) != at(s, node.end):
            return obs.violate("result", "input=%r gives %r to %d, reference %r to %d" % (s, v, real[1].end, w, node.end))
        obs.distinct("results", repr((case["rules"], w)))


def known(message):
    return "dis-ambiguate" in message


def outcome(fn):
    from rv.monitor import Hang

    def call():
        try:
            return ("ok", fn())
        except m.RecursiveGrammarException as e:
            return ("refused", "RecursiveGrammarException")

    try:
        out = attempt(call)
    except Hang:
        return ("hang", None)
    if out[0] == "ok":
        return out[1]
    if out[0] == "fail":
        return ("fail", str(out[1])[:200])
    if out[0] == "deep":
        return ("deep", None)
    text = out[2]
    if "RecursiveGrammarException" in out[1] or "RecursiveGrammarException" in text:
        return ("refused", text)
    return ("other", "%s: %s" % (out[1], text))
