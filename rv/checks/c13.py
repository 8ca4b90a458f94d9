"""C13: parse results behave as a consistent container"""
import copy

from rv import env as m
from rv.gen import G, inputs
from rv.model import Builder, Fail, N, OutOfModel, Ref
from rv.real import attempt, build, draw_style, plain, plain_top, spec_names

ID = "C13"
RULE = (
    "results of random grammars (flat, grouped, recursive, named, annotated by lookahead) go through random sequences of operations (copy, sum, addition, "
    "assignment to and deletion of names, navigation into groups); after each one every observation of the container (length, iteration, every index, slices, "
    "reversed, truth, equality with equal and different lists, list, string and value forms) is compared with the plain list of tokens the reference gives, "
    "and operands are compared with what they were. Non-trivial: the result has at least two tokens."
)
ASSUME = [
    "indexes out of range give None (as coded, nothing in the documentation says otherwise)",
    "as_list() of what a Group matched is nested once more than its tokens, as in the examples of the tests",
    "assignment to a name that is on tokens replaces those tokens or hides them: only the tokens not under the name are compared",
]
NEED = {"observations": 20000, "sums": 4000, "copies": 2000, "assignments": 4000, "deletions": 2000, "groups entered": 10000}
NAMED = ["name", "name"]
OPTS = {
    "flat": dict(terms=["lit", "lit", "lit2", "word", "char"], combs=NAMED + ["and", "and", "first", "opt", "oom", "zom", "suppress"]),
    "deep": dict(terms=["lit", "lit2", "word", "char"], combs=NAMED + ["group", "group", "group", "and", "and", "oom", "opt"]),
    "rec": dict(terms=["lit", "lit2", "word", "char"], combs=NAMED + ["let", "let", "group", "group", "and", "and", "first", "opt", "oom"]),
    "wide": dict(stop=True, terms=G.TERMS, combs=NAMED + G.COMBS + ["all", "let", "group", "combine"]),
}
SAMPLES = [5, 0, False, "q", 2.5, ["u", "v"], [1], [[1, 2], "w"]]


def plan(tier):
    k = 3 if tier == "quick" else 90
    return [("flat", 6 * k, 70), ("deep", 8 * k, 70), ("rec", 8 * k, 70), ("wide", 8 * k, 70)]


def gen(kind, rng):
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(1, 3)))
    names = sorted(spec_names(sp)) + ["x", "extra"]
    ops = []
    for _ in range(rng.randint(1, 6)):
        c = rng.random()
        if c < 0.2:
            ops.append(["copy"])
        elif c < 0.4:
            ops.append(["add", rng.randint(0, 3)])
        elif c < 0.5:
            ops.append(["sum", rng.randint(1, 4)])
        elif c < 0.75:
            ops.append(["set", rng.choice(names), rng.randrange(len(SAMPLES))])
        elif c < 0.88:
            ops.append(["del", rng.choice(names)])
        else:
            ops.append(["enter", rng.randint(0, 3)])
    return {
        "spec": sp, "style": draw_style(rng), "ops": ops, "inputs": inputs(sp, rng, 6),
        "slices": [[rng.choice([None, -3, -1, 0, 1, 2, 5]), rng.choice([None, -2, -1, 0, 1, 3, 9]), rng.choice([None, None, 1, 2, -1, -2])] for _ in range(3)],
    }


def strings(v):
    for x in v:
        if isinstance(x, list):
            yield from strings(x)
        else:
            yield str(x)


def primitive(v):
    out = [primitive(x) if isinstance(x, list) else x for x in v]
    return None if not out else out[0] if len(out) == 1 else out


def deep(n, fn):
    return fn() if n == 0 else deep(n - 1, fn)


def observe(r, want, slices, obs, shape=True):
    """-> what is wrong; want: plain nested list of the tokens of r"""
    obs.hit("observations")
    n = len(want)
    if plain(list(r)) != want:
        return "iteration gives %r, tokens are %r" % (plain(list(r)), want)
    if plain([x for x in r]) != want:
        return "second iteration gives %r, tokens are %r" % (plain(list(r)), want)
    if len(r) != n or r.length() != n:
        return "length %r %r, tokens are %r" % (len(r), r.length(), want)
    for i in range(n):
        if plain(r[i]) != want[i] or plain(r[i - n]) != want[i]:
            return "[%d] %r and [%d] %r, tokens are %r" % (i, plain(r[i]), i - n, plain(r[i - n]), want)
    if r[n] is not None or r[-n - 1] is not None:
        return "[%d] %r [%d] %r out of range" % (n, r[n], -n - 1, r[-n - 1])
    for a, b, c in slices:
        if plain(r[a:b:c]) != want[a:b:c]:
            return "[%s:%s:%s] gives %r, tokens are %r" % (a, b, c, plain(r[a:b:c]), want)
    if plain(list(reversed(r))) != want[::-1]:
        return "reversed gives %r, tokens are %r" % (plain(list(reversed(r))), want)
    if n and not r:
        return "is false, tokens are %r" % (want,)
    if not n and r and not list(r.keys()) and r.type is not None and not r.name and not isinstance(r.type, m.Group) and not any(isinstance(t, m.ParseResults) for t in r.tokens):
        return "is true without tokens or names"
    if not (r == want) or r != want or not (r == tuple(want)):
        return "is not equal to its tokens %r" % (want,)
    others = [want + ["\x01"], ["\x01"] + want, want + [None], want + [None, None]]
    if n:
        others += [want[:-1], want[:-1] + ["\x01"], want[:-1] + [["\x01"]]]
    for other in others:
        if r == other or not (r != other):
            return "is equal to %r, tokens are %r" % (other, want)
    if n > 1:
        named = {k: r[k] for k in r.keys()}
        if not (r == named) or r != named:
            return "is not equal to what its names give, %r" % ({k: plain(v) for k, v in named.items()},)
        for k in named:
            if r == dict(named, **{k: "\x01"}):
                return "is equal to names with another %r" % (k,)
        obs.hit("compared with names", len(named))
    if all(isinstance(x, str) for x in want) and want:
        if not (r == "".join(want)) or r == "".join(want) + "\x01":
            return "compared with text %r" % ("".join(want),)
    if shape:
        nested = plain_list(r.as_list())
        if nested != want and nested != [want]:
            return "as_list gives %r, tokens are %r" % (nested, want)
        if nested == [want] and nested != want and not isinstance(r.type, m.Group):
            return "as_list gives %r, tokens are %r" % (nested, want)
        for sep in ("", ", "):
            if r.as_string(sep=sep) != sep.join(strings(want)):
                return "as_string gives %r, tokens are %r" % (r.as_string(sep=sep), want)
        if r.value() != primitive(want):
            return "value() gives %r, tokens are %r" % (r.value(), want)
        if deep(40, lambda: str(r)) != str(r) or deep(40, lambda: repr(r)) != repr(r):
            return "text depends on the caller: %r, %r" % (str(r), deep(40, lambda: str(r)))
        leaves = list(strings(want))
        at = 0
        text = str(r)
        for x in leaves[:20]:
            k = text.find(x, at)
            if k < 0 and depth(want) < 12:
                return "text %r does not show token %r" % (text, x)
            at = k + len(x) if k >= 0 else at
    for got, w in zip(r, want):
        if isinstance(w, list) != isinstance(got, (m.ParseResults, list)):
            return "token %r instead of %r" % (got, w)
        if isinstance(got, m.ParseResults):
            obs.hit("groups entered")
            bad = observe(got, w, slices[:1], obs, shape)
            if bad:
                return "group %r: %s" % (w, bad)
    return None


def depth(v):
    return 1 + max([depth(x) for x in v if isinstance(x, list)] or [0])


def plain_list(v):
    return [plain_list(x) if isinstance(x, (list, tuple)) else x for x in v]


def by_names(r, names):
    return {n: plain(r[n]) for n in names}


def keep(node, name):
    """tokens that are not under the name, as seen from the result"""
    out = []
    for k in node.kids:
        if not isinstance(k, N):
            out.append(k)
        elif k.ann or k.name == name:
            continue
        elif k.group:
            out.append(k.view())
        elif k.name:
            out.extend(k.view())
        else:
            out.extend(keep(k, name))
    return out


def judge(case, obs):
    sp = case["spec"]
    names = sorted(spec_names(sp)) + ["x", "extra"]
    e = attempt(lambda: build(Builder(case["style"]), sp))
    if e[0] != "ok":
        obs.hit("refused at build")
        return
    pool = []
    for s in case["inputs"]:
        try:
            node = Ref(s, budget=3000).parse(sp, False)
        except (Fail, OutOfModel, RecursionError):
            continue
        got = attempt(lambda: e[1].parse_string(s))
        if got[0] == "deep":
            continue
        if got[0] != "ok":
            obs.violate("rejected", "input=%r %r" % (s, got))
            return
        if node.name:
            node = N("top", node.start, node.end, [node])
        pool.append((s, got[1], node, node.view()))
    for s, r, node, want in pool:
        if len(want) > 1:
            obs.mark()
        obs.distinct("token lists", repr(want))
        out = attempt(lambda: run(case, obs, s, r, node, want, pool, names, e[1]))
        if out[0] == "deep":
            continue
        if out[0] != "ok" or out[1]:
            obs.violate("container", "input=%r %s" % (s, out[1:] if out[0] != "ok" else out[1]))
            return


def run(case, obs, s, r, node, want, pool, names, expr):
    slices = case["slices"]
    bad = observe(r, want, slices, obs)
    if bad:
        return bad
    # assignments would show in the operands of later cases
    r = expr.parse_string(s)
    done = []
    first = by_names(r, names)
    for op in case["ops"]:
        done.append(op)
        named = by_names(r, names)
        if op[0] == "copy":
            c = copy.copy(r)
            bad = observe(c, want, slices, obs)
            if bad or by_names(c, names) != named:
                return "copy after %r: %s, names %r, were %r" % (done, bad, by_names(c, names), named)
            if (c.start, c.end, c.name) != (r.start, r.end, r.name):
                return "copy after %r has other attributes" % (done,)
            before = plain(r)
            c["only in the copy"] = 1
            if "only in the copy" in r or plain(r) != before:
                return "copy after %r shares its names" % (done,)
            obs.hit("copies")
        elif op[0] in ("add", "sum"):
            parts = [(r, want)]
            if op[0] == "add":
                o = pool[op[1] % len(pool)]
                parts.append((expr.parse_string(o[0]), o[3]))
                total = parts[0][0] + parts[1][0]
            else:
                for j in range(op[1]):
                    o = pool[j % len(pool)]
                    parts.append((expr.parse_string(o[0]), o[3]))
                total = sum(p for p, _ in parts)
            fps = [(plain(p), by_names(p, names)) for p, _ in parts]
            w = [x for _, p in parts for x in p]
            bad = observe(total, w, slices, obs)
            if bad:
                return "after %r: %s" % (done, bad)
            for (p, pw), fp in zip(parts, fps):
                if (plain(p), by_names(p, names)) != fp or plain(p) != pw:
                    return "after %r an operand changed" % (done,)
            if total.start != parts[0][0].start or total.end != parts[-1][0].end:
                return "sum covers %r, operands %r" % ((total.start, total.end), [(p.start, p.end) for p, _ in parts])
            for nm in names:
                if all(not p.name for p, _ in parts):
                    each = [x for p, _ in parts for x in values(p, nm)]
                    if values(total, nm) != each:
                        return "after %r name %r is %r, operands have %r" % (done, nm, values(total, nm), each)
            obs.hit("sums")
        elif op[0] in ("set", "del"):
            name = op[1]
            value = copy.deepcopy(SAMPLES[op[2]]) if op[0] == "set" else None
            given = value
            if isinstance(value, list) and value and all(isinstance(x, str) and x.isalnum() for x in value):
                # the result of another parser can be given as well
                given = m.And([m.Literal(x) for x in value]).parse_string(" ".join(value))
                obs.hit("results assigned")
            others = [x for x in names if x != name and x in node.names() or x in ("x", "extra") and x != name]
            others = [x for x in others if not inside(node, x, name)]
            before = by_names(r, others)
            rest = keep(node, name)
            if op[0] == "set":
                r[name] = given
                w = list(value) if isinstance(value, (list, tuple)) else [value]
                got = [x for x in spread_name(r, name)]
                if got != plain_list(w) or name not in r and value not in (0, False, ""):
                    return "after %r name %r is %r" % (done, name, got)
                obs.hit("assignments")
            else:
                w = []
                del r[name]
                if name in r or r.get(name) is not None or name in list(r.keys()) or plain(r[name]):
                    return "after %r name %r is still there: %r" % (done, name, plain(r[name]))
                obs.hit("deletions")
            if by_names(r, others) != before:
                return "after %r other names are %r, were %r" % (done, by_names(r, others), before)
            now = plain(r)
            if now != rest and not any(now[:i] + now[i + len(w) :] == rest and now[i : i + len(w)] == plain_list(w) for i in range(len(now) + 1)):
                return "after %r tokens are %r, those under other names or none are %r" % (done, now, rest)
            bad = observe(r, now, slices, obs, shape=False)
            if bad:
                return "after %r: %s" % (done, bad)
            # further operations start from the same text again
            if op[0] == "set":
                r[name] = "again"
                if plain(r[name]) != "again":
                    return "after %r and once more, name %r is %r" % (done, name, plain(r[name]))
                del r[name]
                if name in r or plain(r[name]):
                    return "after %r, once more and deletion, name %r is %r" % (done, name, plain(r[name]))
                if by_names(r, others) != before:
                    return "after %r, once more and deletion, other names are %r, were %r" % (done, by_names(r, others), before)
            r = expr.parse_string(s)
            if plain(r) != want or by_names(r, names) != first:
                return "the expression gives %r %r after %r on an earlier result, was %r %r" % (plain(r), by_names(r, names), done, want, first)
        elif op[0] == "enter":
            groups = [(x, w) for x, w in zip(r, want) if isinstance(x, m.ParseResults)]
            if groups:
                x, w = groups[op[1] % len(groups)]
                bad = observe(copy.copy(x), w, slices, obs)
                if bad:
                    return "copy of group after %r: %s" % (done, bad)
                bad = observe(x + x, w + w, slices, obs)
                if bad:
                    return "sum of group after %r: %s" % (done, bad)
    return None


def inside(node, a, b):
    """name a is found below name b, or the other way"""
    for k in node.kids:
        if isinstance(k, N):
            if k.name in (a, b):
                below = {x for x in all_names(k)}
                if (b if k.name == a else a) in below:
                    return True
            if inside(k, a, b):
                return True
    return False


def all_names(node):
    for k in node.kids:
        if isinstance(k, N):
            if k.name:
                yield k.name
            yield from all_names(k)


def spread_name(r, name):
    v = r[name]
    if isinstance(v, m.ParseResults):
        return plain(v)
    return [plain_list([v])[0]]


def values(r, name):
    """plain values of a name, groups nested"""
    out = []
    for v in [r[name]]:
        if isinstance(v, m.ParseResults) and isinstance(v.type, m.Group):
            out.append(plain(v))
        elif isinstance(v, m.ParseResults):
            out.extend(plain(v))
        else:
            out.append(v)
    return out
