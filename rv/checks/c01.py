"""C01: a grammar means what its PEG reading says (combinators, against the reference interpreter)"""
from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, Fail, OutOfModel, Ref, kinds_in
from rv.real import at, attempt, build, draw_style, parse_view, plain_top, want_view

ID = "C01"
RULE = (
    "a random grammar (up to 4 levels; sequences, ordered and longest choice, any-order, bounded and unbounded repetition, "
    "stop expressions, options with defaults, both lookaheads, lookbehind, skipping, recursion, grouping, suppression, combining) "
    "is built through the public API in a random style and run on derived, mutated and random inputs; "
    "each outcome (accept, end, token tree) is compared with an independent PEG interpreter. "
    "Non-trivial: at least one input was accepted and consumed text."
)
ASSUME = [
    "the reference interpreter in rv/model.py states the intended meaning",
    "grammars whose meaning the library documents as undefined are not generated (see DESIGN.md C01)",
]
NEED = {"accepted": 2000, "rejected": 1000, "combinator kinds accepted": 15}

OPTS = {
    "base": dict(),
    "struct": dict(terms=["lit", "lit", "lit2", "char", "word", "kw"], combs=["and", "first", "or", "many", "opt", "zom", "oom", "group", "let", "suppress", "not", "ahead"]),
    "choice": dict(terms=["lit", "lit2", "lit2", "kw", "clit", "ckw", "word", "char", "re"], combs=["firstlit", "firstlit", "firstlit", "first", "or", "and", "opt", "group", "noop", "skipto", "not", "ahead", "let", "zom"], alpha="ab"),
    "skip": dict(stop=True, combs=["skipto", "skipto", "and", "first", "zom", "oom", "many", "group", "not", "ahead", "opt", "combine"]),
    "all": dict(terms=["lit", "lit2", "kw", "char", "word", "notin"], combs=["all", "all", "and", "first", "opt", "group", "oom"]),
    "wide": dict(stop=True, guard=True, terms=G.TERMS + ["white", "wstart", "wend", "strstart", "empty", "nomatch"], combs=G.COMBS + ["all", "behind", "behind", "let", "let", "copy", "pname", "firstlit", "firstlit", "noop"]),
}


def plan(tier):
    k = 5 if tier == "quick" else 60
    return [("base", 4 * k, 160), ("struct", 4 * k, 160), ("choice", 6 * k, 160), ("skip", 3 * k, 160), ("all", 3 * k, 140), ("wide", 6 * k, 160)]


def gen(kind, rng):
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(1, 3)))
    ins = [[s, rng.random() < 0.4] for s in inputs(sp, rng, 9)]
    return {"spec": sp, "style": draw_style(rng), "pre": rng.choice(["none", "none", "finalize", "streamline", "copy", "twice"]), "inputs": ins}


def judge(case, obs):
    sp = case["spec"]
    out = attempt(lambda: build(Builder(case["style"]), sp, case["pre"]))
    if out[0] != "ok":
        obs.violate("build", "a valid grammar was refused: %r" % (out,))
        return
    e = out[1]
    kinds = None
    for s, parse_all in case["inputs"]:
        ref = Ref(s, budget=4000)
        try:
            node = ref.parse(sp, parse_all)
            want = ("ok", (at(s, node.end), want_view(node)))
        except Fail:
            want = ("fail",)
        except (OutOfModel, RecursionError):
            obs.hit("undefined for the model")
            continue
        got = attempt(lambda: parse_view(e, s, parse_all))
        if got[0] == "deep":
            obs.hit("too deep for the stack")
            continue
        if got[0] == "fail":
            got = ("fail",)
        if got[0] == "ok":
            got = ("ok", (at(s, got[1][0]), got[1][1]))
        if got != want:
            obs.violate("meaning", "input=%r parse_all=%s\n real=%r\n reference=%r" % (s, parse_all, got, want))
            return
        if want[0] == "ok":
            obs.hit("accepted")
            if node.end > 0:
                obs.mark()
                kinds = kinds or kinds_in(sp)
                for k in kinds:
                    obs.distinct("combinator kinds accepted", k)
            obs.distinct("token trees", want[1])
        else:
            obs.hit("rejected")
