"""C07: scanning reports exactly the successive non-overlapping matches"""
import itertools

from rv import env as m
from rv.gen import G, derive, mutate
from rv.model import Builder, Fail, N, OutOfModel, Ref, view
from rv.monitor import Hang
from rv.real import at, attempt, draw_style, named_plain, plain_top, ref_named

ID = "C07"
RULE = (
    "a random expression (consuming, nullable, lookahead, boundary, skipping) scans a text made of its own matches, near matches, whitespace and noise; "
    "every emitted (tokens, start, end), for every limit and with overlap, is compared with a scan by the reference interpreter, and an online "
    "monitor asserts order, disjointness, bounds and limit on the stream itself; search_string and partially consumed or interleaved scans must agree. "
    "Non-trivial: at least two matches."
)
ASSUME = ["whitespace at the end of a match is compared only when no part of the match is empty"]
NEED = {"matches compared": 20000, "empty matches": 1500, "scans cut by a limit": 800, "overlapping scans": 500, "interleaved scans": 300}
OPTS = {
    "plain": dict(terms=["lit", "lit", "lit2", "word", "char", "kw", "re", "clit", "notin", "any", "close"], combs=["and", "first", "firstlit", "or", "many", "oom", "group", "name", "opt", "suppress", "combine", "let"]),
    "null": dict(stop=True, terms=["lit", "lit2", "word", "char", "empty", "strend", "linestart", "lineend", "wstart", "wend", "strstart", "white", "kw"], combs=["opt", "zom", "not", "ahead", "first", "and", "many", "group", "skipto", "or"]),
    "any order": dict(terms=["lit", "lit", "lit2", "word", "char", "kw"], combs=["all", "all", "and", "group", "first", "oom", "name"]),
    "wide": dict(stop=True, terms=G.TERMS, combs=G.COMBS + ["all", "let", "behind"]),
}


def plan(tier):
    k = 6 if tier == "quick" else 120
    return [("plain", 8 * k, 70), ("null", 10 * k, 70), ("wide", 8 * k, 70), ("any order", 2 * k, 70)]


def texts(sp, rng, n):
    out = []
    for _ in range(n):
        s = ""
        for _ in range(rng.randint(1, 5)):
            c = rng.random()
            if c < 0.55:
                s += derive(sp, rng)
            elif c < 0.75:
                s += mutate(derive(sp, rng), rng)
            else:
                s += "".join(rng.choice("abc01,;( \nz") for _ in range(rng.randint(0, 4)))
            s += rng.choice(["", "", " ", "  ", "\n", "z", ",", " \n "])
        out.append(s[:50])
    out.append("")
    return out


def gen(kind, rng):
    g = G(rng, **OPTS[kind])
    sp = plain_top(g.spec(rng.randint(0, 2)))
    return {"spec": sp, "style": draw_style(rng), "texts": texts(sp, rng, 3), "limit": rng.randint(0, 4), "mode": rng.choice(["scan", "scan", "over", "finalized", "inter"])}


def ref_scan(sp, s, limit=10**9, overlap=False, budget=6000):
    """(view, start, end) as the reference finds them"""
    ref = Ref(s, budget=budget)
    pos = 0
    out = []
    n = len(s)
    while pos <= n and len(out) < limit:
        start = ref.ws.skip(s, pos)
        try:
            r = ref.ev(sp, start, ref.ws)
        except Fail:
            pos = start + 1
            continue
        out.append((r, start))
        pos = start + 1 if overlap or r.end <= start else r.end
    return out


def compare(s, triple, want):
    t, a, b = triple
    node, start = want
    if solid(node) and b != node.end:
        return False  # no part of the match is empty, so it ends where its last part ends
    return view(t) == _top(node) and a == start and at(s, b) == at(s, node.end) and named_plain(t, NAMES) == ref_named(node, NAMES)


def solid(n):
    return n.start < n.end and all(solid(k) for k in n.kids if isinstance(k, N))


NAMES = ("x", "y", "z")


def _top(node):
    v = node.view()
    return [v] if node.name and node.group else v


def judge(case, obs):
    sp = case["spec"]
    out = attempt(lambda: Builder(case["style"]).b(sp))
    if out[0] != "ok":
        obs.violate("build", repr(out))
        return
    e = out[1]
    if case["mode"] == "finalized":
        e = e.finalize()
    waiting = []
    for s in case["texts"]:
        over = case["mode"] == "over"
        try:
            want = ref_scan(sp, s, overlap=over)
        except (OutOfModel, RecursionError):
            obs.hit("undefined for the model")
            continue

        def run(limit, **kw):
            def go():
                acc = []
                last = 0
                for t, a, b in e.scan_string(s, max_matches=limit, **kw):
                    acc.append((t, a, b))
                    # online monitor
                    if not (0 <= a <= b <= len(s)):
                        raise AssertionError("range %d..%d of %d" % (a, b, len(s)))
                    if not over and a < last:
                        raise AssertionError("match at %d starts before the end %d of the one before" % (a, last))
                    if len(acc) > limit or len(acc) > 2 * len(s) + 4:
                        raise AssertionError("too many matches: %d" % len(acc))
                    last = b
                return acc

            return attempt(go)

        kw = {"overlap": True} if over else {}
        for limit in (10**9, case["limit"]):
            got = run(limit, **kw)
            if got[0] == "deep":
                return
            if got[0] != "ok":
                obs.violate("scan", "text=%r limit=%s %r" % (s, limit, got))
                return
            w = want[:limit]
            if len(got[1]) != len(w) or not all(compare(s, g, x) for g, x in zip(got[1], w)):
                obs.violate("scan", "text=%r limit=%s overlap=%s\n real=%r\n reference=%r" % (s, limit, over, [(view(t), a, b, named_plain(t, NAMES)) for t, a, b in got[1]], [(_top(n), a, n.end, ref_named(n, NAMES)) for n, a in w]))
                return
            obs.hit("matches compared", len(w))
            obs.hit("empty matches", sum(1 for n, a in w if n.end <= a))
            if limit < len(want):
                obs.hit("scans cut by a limit")
            if over:
                obs.hit("overlapping scans")
        if len(want) >= 2:
            obs.mark()
            obs.distinct("streams of matches", [(a, n.end) for n, a in want])
        if not over:
            for limit in (None, case["limit"]):
                got = attempt(lambda: e.search_string(s) if limit is None else e.search_string(s, max_matches=limit))
                if got[0] == "deep":
                    continue
                w = want if limit is None else want[:limit]
                # groups are one token of the search, everything else is spread
                if got[0] != "ok":
                    obs.violate("search", "text=%r limit=%s %r" % (s, limit, got))
                    return
                flat = [N("item", n.start, n.end, [n]).view() for n, _ in w]
                if [x for x in view(got[1])] != flat:
                    obs.violate("search", "text=%r limit=%s\n real=%r\n reference=%r" % (s, limit, view(got[1]), flat))
                    return
                obs.hit("searches")
            if case["mode"] == "inter":
                waiting.append((s, e.scan_string(s), want))
    if waiting:
        # several scans of different texts advanced in turn, with parses in between
        got = [[] for _ in waiting]

        def go():
            live = list(range(len(waiting)))
            turn = 0
            while live:
                for j in list(live):
                    try:
                        got[j].append(next(waiting[j][1]))
                    except StopIteration:
                        live.remove(j)
                turn += 1
                e.matches(waiting[turn % len(waiting)][0])

        out = attempt(go)
        if out[0] == "deep":
            return
        if out[0] != "ok":
            obs.violate("interleaved", repr(out))
            return
        for (s, _, want), g in zip(waiting, got):
            if len(g) != len(want) or not all(compare(s, x, y) for x, y in zip(g, want)):
                obs.violate("interleaved", "text=%r\n real=%r\n reference=%r" % (s, [(view(t), a, b) for t, a, b in g], [(_top(n), a, n.end) for n, a in want]))
                return
        obs.hit("interleaved scans")
