"""C17: debugging and profiling observe without changing the outcome"""
import contextlib
import io
import random
import re
import time

from rv import env as m
from rv.checks import c14
from rv.checks.c07 import texts
from rv.real import attempt, build, plain, spec_names
import mo_parsing.debug as debug
import mo_parsing.profile as profile

ID = "C17"
RULE = (
    "random grammars with recording actions, conditions and fail actions parse, scan, transform, split and search; each use is done plain, under a Debugger (silent and printing), under a "
    "Profiler, and under nestings and repetitions of these, some left by an exception injected in an action; tokens, positions, names, failure texts, recorded calls and the sequence of elements "
    "tried must be those of the plain use, the parse function must be the original afterwards, and what the instruments counted and printed must be what an independent count saw. Non-trivial: an action was called under instrumentation."
)
ASSUME = [
    "jx_python is not installed here: the file, clock, date and sort the Profiler writes its report with are stand-ins, everything else of it is the real code",
    "instruments are closed in the reverse of the order they were opened, each used by one thread",
    "an element whose action refuses the match may be counted as matched (parse_impl matched) or as failed",
    "of nested instruments only the innermost observes",
]
NEED = {"uses compared": 15000, "calls under instruments": 30000, "fail actions called": 8000, "failures compared": 3000, "counts compared": 10000, "lines printed": 20000, "left by exception": 1000, "nested": 4000}
PARSE = m.ParserElement._parse
reports = []


class _File(object):
    def __init__(self, name):
        self.name = name

    def set_extension(self, _):
        return self

    def add_suffix(self, _):
        return self

    def write(self, content):
        reports.append(content)


class _Date(object):
    @staticmethod
    def now():
        return _Date()

    def format(self, _):
        return "now"


class _jx(object):
    @staticmethod
    def sort(rows, by):
        rows = list(rows)
        reports.append(rows)
        return sorted(rows, key=lambda r: -r["total_parse"])


def install():
    for k, v in (("File", _File), ("Date", _Date), ("jx", _jx), ("process_time", time.process_time), ("text", str)):
        if not hasattr(profile, k) or k in ("File", "Date", "jx"):
            setattr(profile, k, v)


install()
HOWS = ["silent", "silent", "print", "profile", "profile", "silent/profile", "profile/silent", "silent/silent", "profile/profile", "print/profile", "silent+silent", "profile+silent"]


def plan(tier):
    k = 2 if tier == "quick" else 60
    return [("flat", 8 * k, 50), ("back", 8 * k, 50), ("rec", 8 * k, 50), ("wide", 12 * k, 50), ("search", 4 * k, 50)]


def gen(kind, rng):
    case = c14.gen(kind, rng)
    for h in case["hooks"]:
        h["fail"] = rng.random() < 0.4
        if rng.random() < 0.06:
            h["steps"].insert(rng.randint(0, len(h["steps"])), {"is": "act", "shape": "f3", "give": rng.choice(["late", "late", "back"])})
    case["inputs"] = case["inputs"][:5] + texts(case["spec"], rng, 1)
    case["hows"] = [rng.choice(HOWS) for _ in case["inputs"]]
    case["uses"] = [rng.choice(["parse", "parse", "parse", "all", "scan", "trans", "split", "search"]) for _ in case["inputs"]]
    case["leave"] = [rng.random() for _ in case["inputs"]]
    return case


class FRecorder(c14.Recorder):
    def core(self, hid, k, args):
        st = self.hooks[hid]["steps"][k]
        if st.get("give") in ("late", "back"):
            t = args[0]
            self.log.append((hid, k, args[1], t.start, t.end, plain(t)))
            if st["give"] == "late":
                return m.ParseResults(t.type, min(t.start + 1, t.end), t.end, t.tokens, [])
            return m.ParseResults(t.type, t.start, max(t.start, t.end - 1), t.tokens, [])
        return c14.Recorder.core(self, hid, k, args)


class FBuilder(c14.HBuilder):
    def b_act(self, sp):
        e = c14.HBuilder.b_act(self, sp)
        if self.rec.hooks[sp[2]]["fail"] and not isinstance(e, m.Forward):
            h = sp[2]

            def failed(expr, start, string, cause):
                self.rec.log.append(("failed", h, start, str(cause)))

            e.setFailAction(failed)
        return e


def use(e, how, s):
    if how in ("parse", "all"):
        return e.parse_string(s, parse_all=how == "all")
    if how == "scan":
        return list(e.scan_string(s))
    if how == "trans":
        return e.transform_string(s)
    if how == "split":
        return list(e.split(s))
    return e.search_string(s)


def shown(v, names):
    if isinstance(v, m.ParseResults):
        return (plain(v), v.start, v.end, [plain(v[n]) for n in names])
    if isinstance(v, (list, tuple)):
        return [shown(x, names) for x in v]
    return v


def outcome(e, how, s, rec, names):
    """outcome, calls; None when out of reach"""
    rec.text, rec.log, rec.bad = s, [], None
    got = attempt(lambda: use(e, how, s))
    if got[0] == "ok":
        got = ("ok", shown(got[1], names))
    elif got[0] == "fail":
        got = ("fail", str(got[1]), got[1].loc, got[1].message)
    elif got[0] == "exc":
        # without the lines it went through
        got = got[:2] + (got[2].split("\n")[0],)
    return got, list(rec.log), rec.bad


class Count(object):
    """every call of the parse function, whatever it is at the moment"""

    def __init__(self):
        self.tried = []
        self.ok = {}
        self.bad = {}
        self.aborted = 0

    def __enter__(self):
        inner = m.ParserElement._parse
        count = self

        def counted(self, string, start, do_actions=True):
            # one more frame: the innermost instrument is what is under this
            name = str(self)
            count.tried.append((name, start))
            try:
                r = inner(self, string, start, do_actions)
            except m.ParseException:
                count.bad[name] = count.bad.get(name, 0) + 1
                raise
            except BaseException:
                count.aborted += 1
                raise
            count.ok[name] = count.ok.get(name, 0) + 1
            return r

        self.inner = inner
        m.ParserElement._parse = counted
        return self

    def __exit__(self, *a):
        m.ParserElement._parse = self.inner


class Unrestored(Exception):
    pass


class Watched(object):
    """an instrument that is to leave everything as it was found; perhaps one that was used before"""

    def __init__(self, inner, again):
        self.inner = inner
        if again:
            with inner:
                pass
            del reports[:]

    def __enter__(self):
        self.before = m.ParserElement._parse, debug.DEBUGGER
        return self.inner.__enter__()

    def __exit__(self, *a):
        out = self.inner.__exit__(*a)
        now = m.ParserElement._parse, debug.DEBUGGER
        if now[0] is not self.before[0] or now[1] is not self.before[1]:
            raise Unrestored("was %r, is left %r" % (self.before, now))
        return out

    def __getattr__(self, name):
        return getattr(self.inner, name)


def instruments(how, rng, again=0.3):
    def one(k):
        x = {"silent": lambda: m.Debugger(silent=True), "print": lambda: m.Debugger(), "profile": lambda: profile.Profiler("x")}[k]()
        return Watched(x, rng.random() < again)

    # made, and perhaps used, before any is in use
    return [lambda x=x: x for x in [one(k) for k in re.split("[/+]", how)]]


def restored(what):
    if m.ParserElement._parse is not PARSE:
        # for the cases after this one
        m.ParserElement._parse = PARSE
        return "%s the parse function is %r" % (what, m.ParserElement._parse)
    if debug.DEBUGGER is not None:
        left, debug.DEBUGGER = debug.DEBUGGER, None
        return "%s the debugger is %r" % (what, left)


def judge(case, obs):
    HOOKS[0] = case["hooks"]
    rec = FRecorder(case["hooks"])
    b = attempt(lambda: build(FBuilder(case["style"], rec), case["spec"], case["pre"]))
    if b[0] != "ok":
        obs.hit("refused at build")
        return
    e = b[1]
    names = sorted(spec_names(case["spec"]))
    for s, how, do, leave in zip(case["inputs"], case["hows"], case["uses"], case["leave"]):
        rng = random.Random(s)
        with Count() as base:
            want = outcome(e, do, s, rec, names)
        if want[0][0] == "deep" or len(base.tried) > 4000:
            obs.hit("too deep")
            continue
        del reports[:]
        out = io.StringIO()
        made = []
        seen = Count()
        try:
            with contextlib.redirect_stdout(out):
                if "+" in how:
                    # one after the other
                    got = None
                    for mk in instruments(how, rng):
                        del reports[:]
                        made.append(mk())
                        seen = Count()
                        with made[-1]:
                            with seen:
                                got = outcome(e, do, s, rec, names)
                        if got[0][0] != "deep" and got != want:
                            break
                else:
                    with contextlib.ExitStack() as stack:
                        for mk in instruments(how, rng):
                            made.append(mk())
                            stack.enter_context(made[-1])
                        with seen:
                            got = outcome(e, do, s, rec, names)
                        if len(made) > 1:
                            obs.hit("nested")
        except Exception as cause:
            restored("")
            return obs.violate("instrument", "input=%r under %s %s raised %s %s" % (s, how, do, type(cause).__name__, cause))
        bad = restored("after %s" % how)
        if bad:
            return obs.violate("restore", bad)
        if got[0][0] == "deep":
            continue
        obs.hit("uses compared")
        obs.hit("calls under instruments", len(got[1]))
        obs.hit("fail actions called", sum(1 for c in got[1] if c[0] == "failed"))
        if got[0][0] == "fail":
            obs.hit("failures compared")
        if got[1]:
            obs.mark()
        if got[0] != want[0] or got[2] != want[2]:
            return obs.violate("outcome", "input=%r %s under %s gives %r, without %r" % (s, do, how, got[0], want[0]))
        if got[1] != want[1]:
            return obs.violate("calls", "input=%r %s under %s makes calls %r, without %r" % (s, do, how, got[1], want[1]))
        if seen.tried != base.tried:
            return obs.violate("tried", "input=%r %s under %s tries %d elements, without %d" % (s, do, how, len(seen.tried), len(base.tried)))
        obs.distinct("traces", repr(seen.tried))
        bad = counts(how, made, seen, out.getvalue(), got, obs)
        if bad:
            return obs.violate("counts", "input=%r %s under %s %s" % (s, do, how, bad))
        if leave < 0.35 and want[1]:
            bad = interrupted(e, do, s, how, rec, leave, want, names, case, obs)
            if bad:
                return obs.violate("left by exception", "input=%r %s under %s %s" % (s, do, how, bad))


def counts(how, made, seen, printed, got, obs):
    """what the instruments tell, against what was seen"""
    last = re.split("[/+]", how)[-1]
    n = len(seen.tried)
    exact = got[0][0] in ("ok", "fail") and not seen.aborted
    if last in ("silent", "print"):
        d = made[-1]
        if d.parse_count != n:
            return "counted %d, there were %d" % (d.parse_count, n)
        if n and d.max_stack_depth <= 0:
            return "stack depth is %d" % d.max_stack_depth
        obs.hit("counts compared")
    if last == "silent" and "print" not in how and printed:
        return "printed %r" % printed[:200]
    if how == "print":
        tries = [l for l in printed.split("\n") if l.startswith("  Attempt ")]
        good = [l for l in printed.split("\n") if l.startswith("> Matched ")]
        bad = [l for l in printed.split("\n") if l.startswith("  Except  ")]
        obs.hit("lines printed", len(tries) + len(good) + len(bad))
        if len(tries) != n:
            return "printed %d attempts, there were %d" % (len(tries), n)
        if exact and (len(good), len(bad)) != (sum(seen.ok.values()), sum(seen.bad.values())):
            return "printed %d matches and %d failures, there were %d and %d" % (len(good), len(bad), sum(seen.ok.values()), sum(seen.bad.values()))
        index = [int(re.search(r"index=(-?\d+)", l).group(1)) for l in tries]
        if index != [i for _, i in seen.tried]:
            return "printed attempts at %r, they were at %r" % (index, [i for _, i in seen.tried])
    if last == "profile":
        # the innermost closes first; after it comes the outer, which saw nothing
        rows = [r for r in reports if isinstance(r, list)]
        tabs = [r for r in reports if isinstance(r, str)]
        if not rows or len(rows) != len(tabs):
            return "%d reports written of %d" % (len(tabs), len(rows))
        if len(rows) > 1 and sum(r["call_count"] for r in rows[1]):
            return "the outer profiler counted what the inner did: %r" % (rows[1],)
        ok, bad = {}, {}
        for r in rows[0]:
            ok[r["parser"]] = ok.get(r["parser"], 0) + r["matches"]
            bad[r["parser"]] = bad.get(r["parser"], 0) + r["failures"]
            if r["call_count"] != r["matches"] + r["failures"] + r["cache_hits"]:
                return "call_count of %r" % (r,)
            if r["total_parse"] < 0 or r["total_overhead"] < -1e-3:
                return "times of %r" % (r,)
        if len(tabs[0].split("\n")) != 1 + max(1, len(rows[0])):
            return "report of %d lines for %d elements" % (len(tabs[0].split("\n")), len(rows[0]))
        for name in set(list(ok) + list(bad) + [t for t, _ in seen.tried]):
            total = sum(1 for t, _ in seen.tried if t == name)
            if ok.get(name, 0) + bad.get(name, 0) != total:
                return "%r has %d matches and %d failures, it was tried %d times" % (name, ok.get(name, 0), bad.get(name, 0), total)
            if exact and (ok.get(name, 0) < seen.ok.get(name, 0)):
                return "%r has %d matches, it matched %d times" % (name, ok.get(name, 0), seen.ok.get(name, 0))
        if exact and not any(x["is"] in ("refuse", "cond") for h in HOOKS[0] for x in h["steps"]):
            if ok != {k: seen.ok.get(k, 0) for k in ok} or bad != {k: seen.bad.get(k, 0) for k in bad}:
                return "matches %r failures %r, were %r and %r" % (ok, bad, seen.ok, seen.bad)
        obs.hit("counts compared")


HOOKS = [[]]


def interrupted(e, do, s, how, rec, leave, want, names, case, obs):
    """an exception of an action passes through, everything is as it was"""
    calls = [c for c in want[1] if c[0] != "failed"]
    if not calls:
        return
    fault = c14.exc(case["fault"][1])("injected")

    def go(wrap):
        rec.log, rec.text = [], s
        made = 0
        real = rec.core

        def core(hid, k, args):
            n = sum(1 for c in rec.log if c[0] != "failed")
            r = real(hid, k, args)
            if n == int(leave / 0.35 * len(calls)):
                raise fault
            return r

        rec.core = core
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                with contextlib.ExitStack() as stack:
                    for mk in wrap:
                        stack.enter_context(mk())
                    return ("ok", shown(use(e, do, s), names))
        except BaseException as cause:
            return ("raised", type(cause).__name__, c14.holds(cause, fault), cause is fault)
        finally:
            del rec.core

    a = go([])
    mine = list(rec.log)
    b = go(instruments(how, random.Random(s)))
    bad = restored("after leaving %s by %r" % (how, fault))
    if bad:
        return bad
    if a != b or mine != rec.log:
        return "an exception in an action gives %r, without %r" % ((b, rec.log), (a, mine))
    again = outcome(e, do, s, rec, names)
    if again != want:
        return "afterwards gives %r, before %r" % (again, want)
    obs.hit("left by exception")
