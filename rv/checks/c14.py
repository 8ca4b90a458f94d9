"""C14: parse actions and conditions are called once per match, in order, with the match"""
import functools
import random

from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, Fail, N, OutOfModel, Ref, kinds_in
from rv.real import at, attempt, build, draw_style, map_spec, plain, plain_top

ID = "C14"
RULE = (
    "random grammars carry chains of recording actions and conditions (every arity, every kind of callable, every kind of returned value, conditions answering with "
    "anything true or false, actions refusing the match) on elements of every kind; the recorded calls are compared with the reference's: every call on the path of "
    "the parse is made, in order, once, with the tokens, location and text of its match, and nothing is called that no PEG reading would try; the tokens returned are "
    "the reference's. Then the same parse is repeated with an exception injected at a random call, and once more without. Non-trivial: an action was called on the path of a successful parse."
)
ASSUME = [
    "what SkipTo looks for is tried without actions (callDuringTry False, as in pyparsing), and with them when callDuringTry is given",
    "an exception raised by an action may reach the caller as the cause of another exception",
    "the list given to a results name at the top, and names in general, are left to C12",
]
NEED = {"calls recorded": 40000, "calls on the path": 25000, "chains": 2500, "tried only": 1500, "conditions refused": 3000, "exceptions injected": 2000, "tokens replaced": 10000, "calls undone by backtracking": 500}
TERMS = ["lit", "lit", "lit2", "word", "char", "kw", "clit", "notin"]
HOOKS = ["act", "act", "act", "cond"]
OPTS = {
    "flat": dict(terms=TERMS, combs=HOOKS + ["and", "and", "first", "opt", "zom", "oom", "group"]),
    "back": dict(terms=["lit", "lit", "lit2", "char"], alpha="ab", combs=HOOKS + ["first", "first", "and", "and", "opt", "or", "many", "zom"]),
    "rec": dict(terms=["lit", "lit2", "word", "char"], combs=HOOKS + ["let", "let", "group", "and", "and", "first", "opt", "oom"]),
    "search": dict(terms=["lit", "lit2", "word", "char"], combs=HOOKS + HOOKS + ["group", "group", "let", "and", "oom", "first", "or", "all", "many", "opt"]),
    "null": dict(terms=["lit", "char", "empty", "empty", "strend", "strstart", "linestart", "lineend", "wstart", "wend"], combs=HOOKS + HOOKS + ["not", "not", "ahead", "and", "first", "opt", "group", "many", "zom", "suppress", "let"]),
    "wide": dict(stop=True, terms=G.TERMS, combs=HOOKS + HOOKS + G.COMBS + ["all", "let", "group", "combine", "skipto", "ahead", "not", "suppress", "name"]),
}
SHAPES = ["f0", "f1", "f2", "f3", "va", "l1", "l3", "m1", "m2", "m3", "static", "cls", "obj1", "obj3", "part", "kind", "this1", "klass2", "othis2", "self1", "kwonly", "wraps", "new1", "partkw"]
ARITY = {"f0": 0, "f1": 1, "f2": 2, "f3": 3, "va": 3, "l1": 1, "l3": 3, "m1": 1, "m2": 2, "m3": 3, "static": 3, "cls": 2, "obj1": 1, "obj3": 3, "part": 3, "kind": 1, "this1": 1, "klass2": 2, "othis2": 2, "self1": 1, "kwonly": 2, "wraps": 3, "new1": 1, "partkw": 1}


def flat(t):
    out = []
    for x in t:
        out.extend(flat(x)) if isinstance(x, list) else out.append(x)
    return out


class Thing(object):
    def __repr__(self):
        return "Thing"

    def __deepcopy__(self, memo):
        return self


THING = Thing()
# what an action gives: (value returned to the library, tokens it stands for) from plain tokens
GIVES = {
    "none": lambda t: (None, None),
    "text": lambda t: ("<x>", ["<x>"]),
    "int": lambda t: (7, [7]),
    "zero": lambda t: (0, [0]),
    "false": lambda t: (False, [False]),
    "blank": lambda t: ("", [""]),
    "dict": lambda t: ({"k": 1}, [{"k": 1}]),
    "thing": lambda t: (THING, [THING]),
    "set": lambda t: (frozenset([1]), [frozenset([1])]),
    "list": lambda t: ([str(x).upper() for x in flat(t)], [str(x).upper() for x in flat(t)]),
    "tuple": lambda t: (tuple(str(x) for x in flat(t)), [str(x) for x in flat(t)]),
    "rev": lambda t: (t[::-1], t[::-1]),
    "nest": lambda t: ([flat(t), "n"], [flat(t), "n"]),
    "drop": lambda t: ([], []),
    "drop2": lambda t: ((), []),
    "count": lambda t: (len(t), [len(t)]),
}
FIXED = ["none", "text", "int", "zero", "false", "blank", "dict", "thing", "set", "drop", "drop2"]
TRUE = [True, 1, "y", ["x"], (0,), 2.5, THING, {"a": 1}, frozenset([0]), -1]
FALSE = [False, 0, "", [], (), None, 0.0, {}, frozenset()]
PREDS = {
    "even": lambda t: len("".join(str(x) for x in flat(t))) % 2 == 0,
    "has a": lambda t: any("a" in str(x) for x in flat(t)),
    "no b": lambda t: all("b" not in str(x) for x in flat(t)),
    "any": lambda t: True,
    "never": lambda t: False,
    "short": lambda t: len(flat(t)) < 3,
}
EXCS = ["ValueError", "KeyError", "IndexError", "StopIteration", "TypeError", "Own", "AttributeError", "RuntimeError", "KeyboardInterrupt", "GeneratorExit", "OwnBase"]


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


def exc(name):
    import builtins

    return {"Own": Own, "OwnBase": OwnBase}.get(name) or getattr(builtins, name)


def plan(tier):
    k = 3 if tier == "quick" else 80
    return [("flat", 8 * k, 80), ("back", 8 * k, 80), ("rec", 8 * k, 80), ("wide", 10 * k, 80), ("search", 4 * k, 80), ("null", 5 * k, 80)]


def step(rng, kind):
    shape = rng.choice(SHAPES)
    if kind == "cond":
        p = rng.choice(sorted(PREDS) + ["no b", "any", "short"])
        if ARITY[shape] == 0 and p not in ("any", "never"):
            p = "any"
        return {"is": "cond", "shape": shape if shape != "kind" else "f1", "p": p, "t": rng.randrange(len(TRUE)), "f": rng.randrange(len(FALSE)), "fatal": rng.random() < 0.03}
    if rng.random() < 0.08 and ARITY[shape]:
        return {"is": "refuse", "shape": shape if shape != "kind" else "f1", "p": rng.choice(["no b", "even", "short"])}
    if rng.random() < 0.06:
        return {"is": "const", "c": rng.randrange(4)}
    if rng.random() < 0.1:
        return {"is": "act", "shape": "f3", "give": rng.choice(["same", "made"])}
    if shape == "kind":
        return {"is": "act", "shape": shape, "give": rng.choice(sorted(KINDS))}
    return {"is": "act", "shape": shape, "give": rng.choice(["none", "none", "none"] + (FIXED if ARITY[shape] == 0 else sorted(GIVES)))}


CONST = ["C", 5, ("p", "q"), 0]


class Held(object):
    def __init__(self, tokens):
        self.held = plain(tokens)

    def __eq__(self, other):
        return isinstance(other, Held) and self.held == other.held

    def __repr__(self):
        return "Held(%r)" % (self.held,)

    def __hash__(self):
        return 1

    def __call__(self, a, b, c, d):
        raise AssertionError("not to be called")


def held(t):
    out = Held.__new__(Held)
    out.held = t
    return out


# ready-made callables: what they give from plain tokens
KINDS = {
    "len": (len, lambda t: [len(t)]),
    "list": (list, lambda t: list(t)),
    "tuple": (tuple, lambda t: list(t)),
    "set": (set, lambda t: [set(t)]),
    "min": (min, lambda t: [min(t)]),
    "any": (any, lambda t: [any(t)]),
    "all": (all, lambda t: [all(t)]),
    "Held": (Held, lambda t: [held(t)]),
    "join": (lambda toks: "".join(str(x) for x in flat(plain(toks))), lambda t: ["".join(str(x) for x in flat(t))]),
    "sorted": (functools.partial(sorted, key=repr), lambda t: sorted(t, key=repr)),
    "bool": (bool, None),
}
del KINDS["bool"], KINDS["sorted"]


def searched(g, rng):
    """what is skipped to, then met for real"""
    t = g.spec(rng.randint(1, 2))
    while g.nullable(t):
        t = ["act", ["group", g.consuming_term()], "h"] if rng.random() < 0.4 else g.spec(rng.randint(1, 2))
    ahead = ["skipto", t, rng.random() < 0.3, None, None]
    c = rng.random()
    if c < 0.6:
        return ["and", [ahead, t]] if not ahead[2] else ["and", [ahead, ["opt", t, None]]]
    if c < 0.8:
        return ["first", [["and", [ahead, g.consuming_term()]], ["and", [ahead, t]]]]
    return ["zom", ["and", [ahead, t]], None] if not ahead[2] else ["act", ahead, "h"]


def nullish(g, rng):
    """hooks on what matches nothing, where the library has shortcuts for nothing"""
    t = rng.choice([["empty"], ["empty"], ["strend"], ["linestart"], ["strstart"], ["wend", "abc"], ["opt", ["lit", "b"], None], ["many", ["lit", "b"], 0, 0, None], ["suppress", ["empty"]], ["first", [["empty"], ["lit", "b"]]]])
    t = [rng.choice(["act", "cond", "cond"]), t, "h"]
    for _ in range(rng.choice([0, 0, 1])):
        t = rng.choice([["and", [t]], ["first", [t]], ["many", t, 1, 1, None], ["and", [["empty"], t]], ["first", [["nomatch"], t]]])
    for _ in range(rng.choice([1, 1, 2])):
        t = rng.choice([["not", t], ["not", t], ["ahead", t], ["opt", t, None], ["opt", t, "D"], ["group", t], ["suppress", t], ["zom", t, None], ["first", [t, g.consuming_term()]], ["and", [t, g.consuming_term()]], ["or", [t, g.consuming_term()]]])
    kids = [t, g.spec(1)]
    if rng.random() < 0.5:
        kids.insert(0, g.consuming_term())
    return ["and", kids]


def gen(kind, rng):
    opts = dict(OPTS[kind])
    g = G(rng, acts=["h"], conds=["h"], **opts)
    sp = plain_top(searched(g, rng) if kind == "search" else nullish(g, rng) if kind == "null" and rng.random() < 0.7 else g.spec(rng.randint(1, 3)))
    hooks = []

    def number(x):
        if x[0] in ("act", "cond"):
            steps = [step(rng, x[0])]
            while rng.random() < 0.35:
                steps.append(step(rng, rng.choice(["act", "act", "cond"])))
            hooks.append({"steps": steps, "try": rng.random() < 0.15})
            return ["act", x[1], len(hooks) - 1]
        return x

    sp = map_spec(sp, number)
    share(sp, hooks)
    if "combine" in kinds_in(sp):
        # only text can be combined
        for st in (st for h in hooks for st in h["steps"] if st.get("give") == "nest"):
            st["give"] = "list"
        for st in (st for h in hooks for st in h["steps"] if st.get("c") == 2):
            st["c"] = 0
    if not hooks:
        sp = number(["act", sp, 0]) if sp[0] not in ("ref", "let") else number(["act", ["and", [sp, ["empty"]]], 0])
    return {"spec": sp, "hooks": hooks, "style": draw_style(rng), "inputs": inputs(sp, rng, 7), "fault": [rng.random(), rng.choice(EXCS)], "pre": rng.choice(["none", "none", "finalize", "copy", "streamline"])}


def share(sp, hooks, outer=None):
    """callDuringTry belongs to an element, to all the actions on it"""
    if not isinstance(sp, list):
        return
    if sp and sp[0] == "act" and isinstance(sp[-1], int):
        mine = (outer or []) + [hooks[sp[2]]]
        if any(h["try"] for h in mine):
            for h in mine:
                h["try"] = True
        return share(sp[1], hooks, mine)
    if not (sp and sp[0] in ("name", "pname", "suppress", "copy", "noop")):
        outer = None
    for x in sp:
        share(x, hooks, outer)
    if outer and any(h["try"] for h in outer):
        for h in outer:
            h["try"] = True


def usable(st, t):
    """min() and set() need tokens they can take"""
    return st.get("shape") != "kind" or st["give"] not in ("min", "set") or (t and all(isinstance(x, str) for x in t))


def outcome(st, t):
    """what a step does with plain tokens -> (new tokens or None, passes)"""
    if st["is"] == "cond":
        return None, PREDS[st["p"]](t)
    if st["is"] == "refuse":
        return None, PREDS[st["p"]](t)
    if st["is"] == "const":
        return [list(CONST[st["c"]]) if isinstance(CONST[st["c"]], tuple) else CONST[st["c"]]], True
    if st["give"] == "same":
        return None, True
    if st["give"] == "made":
        return ["made"] + flat(t), True
    if st["shape"] == "kind":
        return KINDS[st["give"]][1](t), True
    return GIVES[st["give"]](t)[1], True


class Fatal(Exception):
    pass


class HRef(Ref):
    """reference that records calls: log holds everything tried, path only what the parse kept"""

    def __init__(self, s, hooks, **kw):
        Ref.__init__(self, s, **kw)
        self.hooks = hooks
        self.path = []
        self.refused = 0
        self.only_tried = 0

    def ev(self, spec, i, ws):
        n = len(self.path)
        try:
            return Ref.ev(self, spec, i, ws)
        except Fail:
            del self.path[n:]
            raise

    def x_act(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        hook = self.hooks[sp[2]]
        if self.trying and not hook["try"]:
            self.only_tried += 1
            return r
        for k, st in enumerate(hook["steps"]):
            t = r.view()
            if st["is"] != "const":
                call = (sp[2], k, r.start, r.end, t)
                self.log.append(call)
                self.path.append(call)
            if not usable(st, t):
                raise OutOfModel("min of this")
            new, ok = outcome(st, t)
            if not ok:
                self.refused += 1
                if st.get("fatal"):
                    raise Fatal()
                self.fail(i)
            if new is not None:
                r = N(r.kind, r.start, r.end, new, r.name, r.group)
        return r

    def x_or(self, sp, i, ws):
        best = None
        kept = self.path
        for k in sp[1]:
            self.path = []
            try:
                r = self.ev(k, i, ws)
            except Fail:
                continue
            finally:
                mine, self.path = self.path, kept
            if best is None or r.end > best[0].end:
                best = (r, mine)
        if best is None:
            self.fail(i)
        self.path.extend(best[1])
        return N("or", best[0].start, best[0].end, [best[0]])


class Recorder(object):
    def __init__(self, hooks):
        self.hooks = hooks
        self.text = None
        self.log = []
        self.bad = None
        self.fault_at = None
        self.fault = None

    def core(self, hid, k, args):
        st = self.hooks[hid]["steps"][k]
        t = start = end = None
        if args:
            token = args[0]
            if not isinstance(token, m.ParseResults):
                self.bad = self.bad or "first argument %r" % (token,)
                return None
            t, start, end = plain(token), token.start, token.end
        if len(args) > 1 and args[1] != start:
            self.bad = self.bad or "location %r, tokens start at %r" % (args[1], start)
        if len(args) > 2 and (args[2] is not self.text and args[2] != self.text):
            self.bad = self.bad or "text %r" % (args[2],)
        self.log.append((hid, k, start, end, t))
        if self.fault_at is not None and len(self.log) == self.fault_at + 1:
            raise self.fault
        if st["is"] == "cond":
            ok = PREDS[st["p"]](t if t is not None else [])
            return TRUE[st["t"]] if ok else FALSE[st["f"]]
        if st["is"] == "refuse":
            if not PREDS[st["p"]](t):
                raise m.ParseException(args[0].type, start, self.text)
            return None
        if st["give"] == "same":
            return args[0]
        if st["give"] == "made":
            return m.ParseResults(args[0].type, args[0].start, args[0].end, ["made"] + flat(t), [])
        if st["shape"] == "kind":
            return None
        return GIVES[st["give"]](t if t is not None else [])[0]

    def fn(self, hid, k):
        st = self.hooks[hid]["steps"][k]
        core = self.core
        shape = st["shape"]
        if shape == "kind":
            return KINDS[st["give"]][0]
        if shape == "f0":
            def f0():
                return core(hid, k, ())
            return f0
        if shape in ("f1", "l1"):
            return lambda toks: core(hid, k, (toks,))
        if shape == "f2":
            def f2(toks, loc):
                return core(hid, k, (toks, loc))
            return f2
        if shape in ("f3", "l3"):
            return lambda toks, loc, string: core(hid, k, (toks, loc, string))
        if shape == "va":
            return lambda *args: core(hid, k, args)
        if shape == "part":
            def five(a, b, toks, loc, string):
                return core(a, b, (toks, loc, string))
            return functools.partial(five, hid, k)

        if shape == "self1":
            return lambda self: core(hid, k, (self,))
        if shape == "kwonly":
            def kwonly(toks, loc, *, more=hid):
                return core(more, k, (toks, loc))
            return kwonly
        if shape == "wraps":
            def wrapped(toks, loc, string):
                return core(hid, k, (toks, loc, string))
            return functools.wraps(wrapped)(lambda *args: wrapped(*args))
        if shape == "partkw":
            def withkw(toks, *, a, b):
                return core(a, b, (toks,))
            return functools.partial(withkw, a=hid, b=k)

        class H(object):
            def this1(this, toks):
                return core(hid, k, (toks,))

            @classmethod
            def klass2(klass, toks, loc):
                return core(hid, k, (toks, loc))

            def m1(self, toks):
                return core(hid, k, (toks,))

            def m2(self, toks, loc):
                return core(hid, k, (toks, loc))

            def m3(self, toks, loc, string):
                return core(hid, k, (toks, loc, string))

            @staticmethod
            def static(toks, loc, string):
                return core(hid, k, (toks, loc, string))

            @classmethod
            def cls(cls, toks, loc):
                return core(hid, k, (toks, loc))

        class O1(object):
            def __call__(self, toks):
                return core(hid, k, (toks,))

        class O3(object):
            def __call__(self, toks, loc, string):
                return core(hid, k, (toks, loc, string))

        class Othis2(object):
            def __call__(this, toks, loc):
                return core(hid, k, (toks, loc))

        class New1(object):
            def __new__(cls, toks):
                return core(hid, k, (toks,))

        if shape == "new1":
            return New1
        if shape == "othis2":
            return Othis2()
        if shape == "obj1":
            return O1()
        if shape == "obj3":
            return O3()
        if shape in ("static", "cls", "klass2"):
            return getattr(H, shape)
        return getattr(H(), shape)


class HBuilder(Builder):
    def __init__(self, style, rec):
        Builder.__init__(self, style)
        self.rec = rec

    def b_act(self, sp):
        e = self.b(sp[1])
        hook = self.rec.hooks[sp[2]]
        steps = hook["steps"]
        during = hook["try"]
        k = 0
        if during:
            e = e.add_parse_action(callDuringTry=True) if not isinstance(e, m.Forward) else self.m.And([e, self.m.Empty()], self.m.whitespaces.CURRENT).add_parse_action(callDuringTry=True)
        while k < len(steps):
            st = steps[k]
            if st["is"] == "const":
                e = e / CONST[st["c"]]
            elif st["is"] == "cond":
                if isinstance(e, m.Forward):
                    e = e.add_condition(self.rec.fn(sp[2], k), fatal=st["fatal"])
                else:
                    e = e.add_condition(self.rec.fn(sp[2], k), fatal=st["fatal"])
            elif not self.style.get("op") and k + 1 < len(steps) and steps[k + 1]["is"] in ("act", "refuse") and not isinstance(e, m.Forward):
                e = e.add_parse_action(self.rec.fn(sp[2], k), self.rec.fn(sp[2], k + 1))
                k += 1
            elif self.style.get("op"):
                e = e / self.rec.fn(sp[2], k)
            else:
                e = e.add_parse_action(self.rec.fn(sp[2], k))
            k += 1
        return e


def reduce_call(hooks, s, call):
    hid, k, start, end, t = call
    st = hooks[hid]["steps"][k]
    if ARITY[st["shape"]] == 0:
        return (hid, k)
    return (hid, k, at(s, start), at(s, end), repr(t))


def subsequence(small, big):
    it = iter(big)
    for x in small:
        for y in it:
            if x == y:
                break
        else:
            return x
    return None


def judge(case, obs):
    hooks = case["hooks"]
    rec = Recorder(hooks)
    b = attempt(lambda: build(HBuilder(case["style"], rec), case["spec"], case["pre"]))
    if b[0] != "ok":
        if b[0] == "exc" and ("white" in b[2] or "name" in b[2] or "look behind" in b[2]):
            obs.hit("refused at build")
        elif b[0] != "deep":
            obs.violate("build", repr(b))
        return
    e = b[1]
    silent = {(h, k) for h, x in enumerate(hooks) for k, st in enumerate(x["steps"]) if st.get("shape") == "kind"}
    for h in hooks:
        if len(h["steps"]) > 1:
            obs.hit("chains")
    for s in case["inputs"]:
        ref = HRef(s, hooks, budget=3000)
        try:
            node = ref.parse(case["spec"])
        except Fail:
            node = None
        except Fatal:
            node = "fatal"
        except (OutOfModel, RecursionError):
            continue
        rec.text, rec.log, rec.bad, rec.fault_at = s, [], None, None
        got = attempt(lambda: e.parse_string(s))
        if got[0] == "deep":
            continue
        log = list(rec.log)
        obs.hit("calls recorded", len(log))
        obs.hit("conditions refused", ref.refused)
        obs.hit("tried only", ref.only_tried)
        if rec.bad:
            return obs.violate("arguments", "input=%r %s" % (s, rec.bad))
        if node == "fatal":
            if got[0] != "exc":
                return obs.violate("fatal", "input=%r a fatal condition failed, parse gives %r" % (s, got))
            obs.hit("fatal conditions")
            continue
        if got[0] == "exc" or (got[0] == "ok") != (node is not None):
            return obs.violate("outcome", "input=%r %r, reference %s" % (s, got, "fails" if node is None else node.view()))
        full = [reduce_call(hooks, s, c) for c in ref.log if c[:2] not in silent]
        path = [reduce_call(hooks, s, c) for c in ref.path if c[:2] not in silent] if node is not None else []
        mine = [reduce_call(hooks, s, c) for c in log]
        x = subsequence(path, mine)
        if x is not None:
            return obs.violate("missing call", "input=%r calls %r lack %r of %r" % (s, mine, x, path))
        x = subsequence(mine, full)
        if x is not None:
            return obs.violate("extra call", "input=%r calls %r have %r over %r" % (s, mine, x, full))
        if node is not None:
            if node.name:
                node = N("top", node.start, node.end, [node])
            if plain(got[1]) != node.view():
                return obs.violate("tokens", "input=%r gives %r, reference %r" % (s, plain(got[1]), node.view()))
            obs.hit("calls on the path", len(path))
            obs.hit("calls undone by backtracking", len(mine) - len(path))
            if path:
                obs.mark()
                obs.distinct("call sequences", repr((case["spec"], path)))
            obs.hit("tokens replaced", sum(1 for c in ref.path if hooks[c[0]]["steps"][c[1]].get("give", "none") not in ("none", "same")))
        obs.hit("failures with calls", 1 if node is None and mine else 0)
        if log:
            k = int(case["fault"][0] * len(log))
            fault = exc(case["fault"][1])("injected")
            rec.log, rec.fault_at, rec.fault = [], k, fault
            try:
                r = attempt(lambda: e.parse_string(s))
                out = "parse gives %r" % (r,)
                if r[0] == "exc":
                    # attempt() keeps no traceback, so ask again for the exception itself
                    rec.log = []
                    try:
                        e.parse_string(s)
                    except Exception as err:
                        out = None if holds(err, fault) else "%r raised" % (err,)
            except BaseException as err:
                if err is not fault:
                    raise
                out = None
            if rec.log != log[: k + 1]:
                out = out or "calls were %r, without the exception %r" % (rec.log, log)
            rec.fault_at, rec.log = None, []
            if out:
                return obs.violate("exception", "input=%r %r in call %d: %s" % (s, fault, k, out))
            obs.hit("exceptions injected")
            again = attempt(lambda: e.parse_string(s))
            if again[0] != got[0] or rec.log != log or (got[0] == "ok" and plain(again[1]) != plain(got[1])):
                return obs.violate("after exception", "input=%r parse gives %r %r, was %r %r" % (s, again, rec.log, got, log))


def holds(err, fault, depth=0):
    if err is fault:
        return True
    if err is None or depth > 30:
        return False
    causes = getattr(err, "cause", None)
    if not isinstance(causes, (list, tuple)):
        causes = [causes]
    return any(holds(c, fault, depth + 1) for c in list(causes) + [err.__cause__ if isinstance(err, BaseException) else None, err.__context__ if isinstance(err, BaseException) else None] if c is not None)
