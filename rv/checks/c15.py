"""C15: concurrent and re-entrant use gives the same results as use alone"""
import os
import sys
import threading

from rv import env as m
from rv.gen import G, inputs
from rv.checks.c07 import texts
from rv.model import Builder
from rv.real import attempt, draw_style, map_spec, plain, plain_top, spec_names
from rv.sched import Sched, replace_locks, restore_locks

ID = "C15"
RULE = (
    "random programs (building grammars under their own whitespace, composing with shared expressions, parsing, scanning, transforming, splitting, half consumed "
    "generators) are run alone to record every outcome, then together: in 2-4 threads under a scheduler that switches at lines of the library chosen by a seeded generator, in "
    "free-running threads with the shortest switch interval, interleaved step by step in one thread, and from inside parse actions of one another. Every outcome must be the one recorded; "
    "all must finish; the ambient whitespace must be what it was. Non-trivial: at least two programs with a switch between them inside the library."
)
ASSUME = [
    "a program is sequential: expressions are shared between threads only once complete",
    "scheduled switches happen at line boundaries of the library's python code",
]
NEED = {"outcomes compared": 20000, "switches in the library": 20000, "lock contended": 500, "interleavings": 500, "generators interleaved": 1000, "nested calls": 5000, "free running": 300}
TERMS = ["lit", "lit2", "word", "char", "kw", "re", "clit", "notin", "lineend", "linestart", "white"]
COMBS = ["and", "and", "first", "or", "opt", "zom", "oom", "group", "name", "suppress", "combine", "let", "ws", "ws", "not", "ahead", "all", "all", "many", "skipto", "firstlit"]
PREFIX = os.path.join(os.path.realpath(m.REPO), "mo_parsing")
TASKS_PER_CHILD = 4


def plan(tier):
    k = 1 if tier == "quick" else 16
    return [("sched", 75 * k, 12), ("steps", 16 * k, 60), ("nested", 16 * k, 60), ("free", 8 * k, 30)]


EXTRA = [["regex", r"(\d+)-(\w*)"], ["regex", r"a{1,2}b?"], ["one_of", "a ab abc"], ["infix"], ["delim"], ["leave"], ["quoted"], ["nestx"], ["fwd"], ["counted"]]


def gen_ops(rng, nshared, small):
    """a program"""
    ops = []
    slots = 0
    gens = 0
    conf = rng.choice([None, None, {"chars": " "}, {"chars": ""}, {"chars": " \t\n\r", "ignore": [r"#[^\n]*"]}, {"chars": " \t"}])
    g = G(rng, stop=True, terms=TERMS, combs=COMBS)
    for _ in range(rng.randint(2, 4 if small else 8)):
        c = rng.random()
        if c < 0.35 or not slots:
            d = rng.random()
            if d < 0.6 or (not nshared and d < 0.8):
                sp = plain_top(g.spec(rng.randint(1, 2)))
                ops.append(["build", sp, draw_style(rng), rng.choice([conf, conf, None])])
                ins = inputs(sp, rng, 4)
            elif d < 0.8:
                sp = plain_top(g.spec(rng.randint(0, 1)))
                ops.append(["compose", rng.randrange(nshared), rng.choice(["and", "first", "group", "name", "zom", "opt", "not", "act", "copy", "combine"]), sp])
                ins = inputs(sp, rng, 3) + ["a b", "ab 1", ""]
            else:
                ops.append(["extra", rng.choice(EXTRA)])
                ins = ["12-ab", "aab", "ab abc", "a,b , c", "a+b*c", "'q x'", "(a (b))", "2 a b", "(((a)))", ""]
            slots += 1
            ops[-1].append(ins)
        last = ops
        which = rng.randrange(slots + nshared)
        slot = which if which < slots else -1 - (which - slots)
        ops.append([rng.choice(["parse", "parse", "scan", "trans", "split", "search", "gen"]), slot, rng.randrange(6), rng.randint(0, 3)])
        if ops[-1][0] == "gen":
            gens += 1
        if gens and rng.random() < 0.6:
            ops.append(["next", rng.randrange(gens), rng.randint(1, 3)])
    return ops


def gen(kind, rng):
    g = G(rng, stop=True, terms=TERMS, combs=[c for c in COMBS if c != "ws"] + ["let", "let", "firstlit"])
    shared = []
    for _ in range(rng.randint(1, 2)):
        sp = plain_top(g.spec(rng.randint(1, 2)))
        shared.append([sp, inputs(sp, rng, 4) + texts(sp, rng, 1)])
    n = {"sched": rng.randint(2, 3), "free": rng.randint(3, 4), "steps": rng.randint(2, 4), "nested": 2}[kind]
    case = {"shared": shared, "programs": [gen_ops(rng, len(shared), kind == "sched") for _ in range(n)], "order": rng.randrange(1 << 30)}
    if kind == "sched":
        case["rate"] = rng.choice([0.002, 0.01, 0.05, 0.3])
    if rng.random() < 0.3:
        # everybody does the same
        case["programs"] = [case["programs"][0]] * n
    if kind == "nested":
        sp = ["act", plain_top(G(rng, terms=["lit", "lit2", "word", "char"], combs=["and", "oom", "group", "act", "act", "opt", "first", "or", "let", "all", "all", "many", "skipto", "combine", "not", "name"], acts=["h"]).spec(2)), "h"]
        if sp[1][0] in ("ref", "let"):
            sp[1] = ["and", [sp[1], ["empty"]]]
        case["outer"] = sp
        case["texts"] = inputs(sp, rng, 4)
        if rng.random() < 0.3:
            # these keep state of the parse beside the text
            case["outer"] = rng.choice(["indented", "counted", "counted2"])
            case["texts"] = [lines(rng) if case["outer"] == "indented" else rng.choice(["2 ab c", "3 a b c x", "2 a", "0 a", "1 b 2", "2 1 a 2 b c d", "1 0", "2 0 1 b"]) for _ in range(4)]
    return case


def lines(rng):
    """a few statements of if: and words, indented somehow"""
    out = []
    depth = 0
    for _ in range(rng.randint(2, 7)):
        head = rng.random() < 0.4
        out.append("  " * depth + ("if:" if head else rng.choice("ab") * rng.randint(1, 2)))
        if head:
            depth += 1
        elif depth and rng.random() < 0.4:
            depth -= rng.randint(1, depth)
    if rng.random() < 0.2:
        i = rng.randrange(len(out))
        out[i] = " " + out[i]
    return "\n".join(out)


def stateful(kind, act):
    word = m.Word("ab") / act
    if kind == "indented":
        stmt = m.Forward()
        stmt << (m.Group(m.Literal("if:") + m.helpers.indented_block(stmt)) | word)
        return m.OneOrMore(stmt)
    array = m.helpers.counted_array(word)
    return array if kind == "counted" else m.helpers.counted_array(array)


def tell(fn):
    """outcome as a plain value"""
    try:
        return ("ok", fn())
    except m.ParseException as e:
        return ("fail", e.loc, str(e))
    except RecursionError:
        return ("deep",)
    except Exception as e:
        return ("exc", type(e).__name__)


def show(r, names):
    return (plain(r), r.start, r.end, {n: plain(r[n]) for n in names})


ALL_NAMES = ["x", "y", "z", "n", "nm"]


def extra(what):
    kind = what[0]
    W, L = m.Word, m.Literal
    if kind == "regex":
        return m.Regex(what[1])
    if kind == "one_of":
        return m.one_of(what[1])
    if kind == "infix":
        return m.infix_notation(W(m.utils.alphas), [("*", 2, m.LEFT_ASSOC), ("+", 2, m.LEFT_ASSOC)])
    if kind == "delim":
        return m.helpers.delimited_list(W(m.utils.alphas)) if hasattr(m.helpers, "delimited_list") else m.delimited_list(W(m.utils.alphas))
    if kind == "leave":
        return (W(m.utils.alphas) + W(m.utils.nums)).leave_whitespace()
    if kind == "quoted":
        return m.QuotedString("'")
    if kind == "nestx":
        return m.helpers.nested_expr()
    if kind == "fwd":
        f = m.Forward()
        f << (L("(") + f + L(")") | W("ab"))
        return f
    return m.helpers.counted_array(W("ab"))


class Program(object):
    def __init__(self, ops, shared, shared_texts):
        self.ops = ops
        self.shared = shared
        self.shared_texts = shared_texts
        self.slots = []
        self.texts = []
        self.gens = []
        self.out = []
        self.at = 0

    def done(self):
        return self.at >= len(self.ops)

    def step(self):
        op = self.ops[self.at]
        self.at += 1
        self.out.append(tell(lambda: self.do(op)))

    def run(self):
        while not self.done():
            self.step()
        self.out.append(("ambient", m.whitespaces.CURRENT.white_chars, len(m.whitespaces.CURRENT.ignore_list)))

    def pick(self, slot):
        if slot >= 0:
            return self.slots[slot], self.texts[slot]
        return self.shared[-1 - slot], self.shared_texts[-1 - slot]

    def do(self, op):
        kind = op[0]
        if kind in ("build", "compose", "extra"):
            # a slot exists even when building fails
            self.slots.append(m.NoMatch())
            self.texts.append(op[-1])
            self.slots[-1] = self.make(op)
            return None
        if kind == "next":
            g = self.gens[op[1] % len(self.gens)] if self.gens else None
            got = []
            for _ in range(op[2]):
                x = next(g, None) if g is not None else None
                if x is None:
                    break
                got.append((plain(x[0]), x[1], x[2]) if isinstance(x, tuple) else x)
            return got
        e, ts = self.pick(op[1])
        s = ts[op[2] % len(ts)]
        if kind == "gen":
            self.gens.append(iter(()))
            self.gens[-1] = e.scan_string(s) if op[3] else e.split(s)
            return None
        if kind == "parse":
            return show(e.parse_string(s, parse_all=op[3] == 0), ALL_NAMES)
        if kind == "scan":
            return [(plain(t), a, b) for t, a, b in e.scan_string(s, max_matches=op[3] or 100)]
        if kind == "trans":
            return e.transform_string(s)
        if kind == "split":
            return [plain(x) for x in e.split(s, maxsplit=op[3] or 100, include_separators=op[3] == 2)]
        return show(e.search_string(s), ALL_NAMES)

    def make(self, op):
        if op[0] == "build":
            b = Builder(op[2])
            if op[3] is None:
                return b.b(op[1])
            with b.context(op[3]):
                return b.b(op[1])
        if op[0] == "extra":
            return extra(op[1])
        a = self.shared[op[1]]
        how = op[2]
        o = Builder({"op": True}).b(op[3])
        if how == "and":
            return a + o
        if how == "first":
            return o | a
        if how == "group":
            return m.Group(a) + m.Optional(o)
        if how == "name":
            return a("nm") + m.Optional(o)
        if how == "zom":
            return m.ZeroOrMore(a)
        if how == "opt":
            return m.Optional(a) + o
        if how == "not":
            return ~a + o
        if how == "act":
            return a / (lambda t: list(plain(t)) + ["+"])
        if how == "combine":
            return m.Combine(m.And([o, m.Empty()], m.whitespaces.CURRENT))
        return a.copy()


def make_shared(case):
    return [Builder({"op": False}).b(sp) for sp, _ in case["shared"]]


def judge(case, obs):
    kind = case["kind"]
    try:
        shared = make_shared(case)
    except Exception:
        obs.hit("refused at build")
        return
    shared_texts = [t for _, t in case["shared"]]
    alone = []
    for ops in case["programs"]:
        p = Program(ops, make_shared(case), shared_texts)
        r = attempt(p.run, 20)
        if r[0] != "ok" or any(o[0] == "deep" for o in p.out):
            obs.hit("skipped")
            return
        alone.append(p.out)
    before = (m.whitespaces.CURRENT, m.whitespaces.CURRENT.white_chars)
    programs = [Program(ops, shared, shared_texts) for ops in case["programs"]]
    bad = {"sched": together, "free": free, "steps": steps, "nested": nested}[kind](case, programs, obs)
    if bad:
        return obs.violate(bad[0], bad[1])
    for i, (p, want) in enumerate(zip(programs, alone)):
        for j, (a, b) in enumerate(zip(p.out, want)):
            obs.hit("outcomes compared")
            if a != b:
                op = case["programs"][i][j] if j < len(case["programs"][i]) else None
                return obs.violate("outcome", "program %d step %r gives %r, alone %r" % (i, op, a, b))
        if len(p.out) != len(want):
            return obs.violate("outcome", "program %d made %d steps, alone %d" % (i, len(p.out), len(want)))
    if (m.whitespaces.CURRENT, m.whitespaces.CURRENT.white_chars) != before:
        return obs.violate("ambient", "whitespace is %r, was %r" % (m.whitespaces.CURRENT.white_chars, before[1]))
    # nothing is left locked
    box = []
    t = threading.Thread(target=lambda: box.append(tell(lambda: plain(m.Word("ab").parse_string("ab")))), daemon=True)
    t.start()
    t.join(30)
    if box != [("ok", ["ab"])]:
        return obs.violate("left locked", "a thread parsing afterwards gives %r" % (box,))


def library():
    return [mod for name, mod in list(sys.modules.items()) if name == "mo_parsing" or name.startswith("mo_parsing.")]


def together(case, programs, obs):
    undo, locks = replace_locks(library())
    try:
        s = Sched(case["order"], PREFIX, case["rate"])
        bad = s.run([p.run for p in programs])
    finally:
        restore_locks(undo)
    obs.hit("switches in the library", s.switches)
    obs.hit("lines run", s.steps)
    obs.hit("lock contended", sum(l.contended for l in locks))
    if s.switches > 1:
        obs.mark()
    obs.distinct("interleavings", repr((case["programs"], s.trail)))
    if bad:
        return ("stuck", bad)


def free(case, programs, obs):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        go = threading.Barrier(len(programs))

        def main(p):
            go.wait()
            p.run()

        ts = [threading.Thread(target=main, args=(p,), daemon=True) for p in programs]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if any(t.is_alive() for t in ts):
            return ("stuck", "threads never finished")
    finally:
        sys.setswitchinterval(old)
    obs.hit("free running", len(programs))
    obs.mark()


def steps(case, programs, obs):
    import random

    rng = random.Random(case["order"])
    todo = list(programs)
    n = 0
    while todo:
        p = rng.choice(todo)
        p.step()
        n += 1
        if p.done():
            p.out.append(("ambient", m.whitespaces.CURRENT.white_chars, len(m.whitespaces.CURRENT.ignore_list)))
            todo.remove(p)
    obs.hit("generators interleaved", sum(len(p.gens) for p in programs))
    obs.mark()


def nested(case, programs, obs):
    """programs advance from inside the actions of another parse"""
    texts_ = case["texts"]
    calls = []

    def quiet(toks, loc, string):
        calls.append((loc, plain(toks)))

    def busy(toks, loc, string):
        calls.append((loc, plain(toks)))
        for p in programs:
            if not p.done():
                p.step()
                obs.hit("nested calls")
        if len(depth) < 2 and deep:
            # and the very same expression
            depth.append(1)
            mine = list(calls)
            for s in texts_[:2]:
                tell(lambda: plain(deep[-1].parse_string(s)))
            calls[:] = mine
            depth.pop()
            obs.hit("nested calls of itself")

    depth = []
    deep = []

    def outer(act):
        e = stateful(case["outer"], act) if isinstance(case["outer"], str) else Builder({"op": True}, acts={"h": act}).b(case["outer"])
        if act is busy:
            deep.append(e)
        out = []
        for s in texts_:
            del calls[:]
            out.append((tell(lambda: show(e.parse_string(s), ALL_NAMES)), list(calls)))
            del calls[:]
            out.append((tell(lambda: [(plain(t), a, b) for t, a, b in e.scan_string(s)]), list(calls)))
            del calls[:]
            out.append((tell(lambda: e.transform_string(s)), list(calls)))
        return out

    want = outer(quiet)
    got = outer(busy)
    for a, b in zip(got, want):
        obs.hit("outcomes compared")
        if a != b:
            return ("outer", "with work inside its actions a parse gives %r, without %r" % (a, b))
    for p in programs:
        while not p.done():
            p.step()
        p.out.append(("ambient", m.whitespaces.CURRENT.white_chars, len(m.whitespaces.CURRENT.ignore_list)))
    if any(c for _, c in want):
        obs.mark()
