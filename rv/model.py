"""
Grammar specifications (plain JSON lists), their construction through the public API of mo_parsing,
and an independent reference interpreter (the oracle).

A spec is a list [kind, ...]; see `build` for the kinds.  `Ref` interprets a spec against a string by the
documented PEG meaning, without using any code of mo_parsing.
"""
import re

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
IDENT = ALNUM + "_$"
STD_WHITE = " \n\r\t"
INF = float("inf")


class Fail(Exception):
    pass


class SyntaxFail(Fail):
    pass


class OutOfModel(Exception):
    """the case has no defined meaning in the model (e.g. left recursion, or too deep)"""


class N(object):
    """reference parse node"""

    __slots__ = ["kind", "start", "end", "kids", "name", "group", "ann"]

    def __init__(self, kind, start, end, kids, name=None, group=False, ann=False):
        self.kind = kind
        self.start = start
        self.end = end
        self.kids = kids
        self.name = name
        self.group = group
        self.ann = ann

    def view(self):
        """nested list of tokens: groups nest, everything else is flat, annotations are invisible"""
        out = []
        for k in self.kids:
            if not isinstance(k, N):
                out.append(k)
            elif k.ann:
                continue
            elif k.group:
                out.append(k.view())
            else:
                out.extend(k.view())
        return out

    def leaves(self):
        for t in self.view():
            yield from _leaves(t)

    # NAMED ACCESS
    def values(self):
        if self.group:
            return [self]
        kids = self.kids
        if len(kids) == 1 and isinstance(kids[0], N) and kids[0].ann and not kids[0].name:
            kids = kids[0].kids  # the name is given to the lookahead itself
        return [v for t in kids for v in _flat(t)]

    def by_name(self, name):
        out = []
        for k in self.kids:
            if isinstance(k, N):
                if k.name == name:
                    out.extend(k.values())
                    continue
                elif k.name:
                    continue
                elif k.group:
                    continue
                out.extend(k.by_name(name))
        return out

    def names(self):
        """names visible from this node, in order of appearance"""
        out = []
        for k in self.kids:
            if isinstance(k, N):
                if k.name:
                    if k.name not in out and k.values():
                        out.append(k.name)
                elif k.group:
                    continue
                else:
                    for n in k.names():
                        if n not in out:
                            out.append(n)
        return out


def _leaves(t):
    if isinstance(t, list):
        for x in t:
            yield from _leaves(x)
    else:
        yield t


def _flat(t):
    if isinstance(t, N) and t.ann and not t.name:
        # a lookahead has no tokens, only names
        for n in t.names():
            yield N("ann", t.start, t.end, t.by_name(n), name=n, ann=True)
    elif not isinstance(t, N) or t.group or t.name:
        yield t
    else:
        for k in t.kids:
            yield from _flat(k)


def named_view(values):
    """plain comparable form of a list of values as found by name"""
    out = []
    for v in values:
        if isinstance(v, N):
            if v.ann:
                out.append(["ANN", v.name, named_view(v.kids)])
            else:
                out.append([("G" if v.group else "N"), v.name or "", v.view()])
        else:
            out.append(v)
    return out


class RWs(object):
    """reference whitespace: a set of characters, and regular expressions to ignore"""

    def __init__(self, chars=STD_WHITE, ignores=()):
        self.chars = chars
        self.ignores = list(ignores)
        self._re = [re.compile(p, re.DOTALL) for p in self.ignores]

    def skip(self, s, i):
        n = len(s)
        if i >= n:
            return i
        while True:
            while i < n and s[i] in self.chars:
                i += 1
            for r in self._re:
                m = r.match(s, i)
                if m and m.end() > i:
                    i = m.end()
                    break
            else:
                return i


# kinds that hold sub specs, and where
KIDS = {
    "and": "list", "first": "list", "or": "list", "all": "list",
    "many": 1, "opt": 1, "zom": 1, "oom": 1, "not": 1, "ahead": 1, "behind": 1, "skipto": 1,
    "group": 1, "suppress": 1, "combine": 1, "name": 1, "pname": 1, "act": 1, "cond": 1, "ws": 2,
    "noop": 1, "const": 1, "dict": 1, "copy": 1,
}


def sub_specs(spec):
    w = KIDS.get(spec[0])
    if w == "list":
        return list(spec[1])
    if w is not None:
        out = [spec[w]]
        if spec[0] == "skipto":
            out += [x for x in spec[2:5] if isinstance(x, list)]
        if spec[0] in ("many", "zom", "oom") and isinstance(spec[-1], list):
            out.append(spec[-1])
        return out
    if spec[0] == "let":
        return [spec[1][k] for k in sorted(spec[1])] + [spec[2]]
    return []


def kinds_in(spec, acc=None):
    acc = set() if acc is None else acc
    acc.add(spec[0])
    for s in sub_specs(spec):
        kinds_in(s, acc)
    return acc


def _bare(sp):
    while sp[0] in ("pname", "name", "noop", "copy", "act", "cond"):
        sp = sp[1]
    return sp


class Ref(object):
    """
    Interpret spec over string s.
    acts: name -> python function(list of tokens view) -> list of tokens, or None (keep), or Fail
    """

    def __init__(self, s, ws=None, keyword_chars=IDENT, acts=None, conds=None, budget=200000, allow_ll=False):
        self.s = s
        self.ws = ws or RWs()
        self.kw = keyword_chars
        self.acts = acts or {}
        self.conds = conds or {}
        self.env = {}
        self.far = -1  # FURTHEST POSITION WHERE SOME TERMINAL WAS REFUSED
        self.trying = 0  # WHAT skipto LOOKS FOR
        self.mute = 0  # INSIDE LOOKAHEAD
        self.budget = budget
        self.log = []  # (act name, start, end, tokens) IN ORDER OF CALLS
        self.active = set()
        self.allow_ll = allow_ll

    def fail(self, i):
        if not self.mute and i > self.far:
            self.far = i
        raise Fail(i)

    def top_ws(self, spec):
        """the whitespace that applies before the first token"""
        return self.ws

    def parse(self, spec, parse_all=False, skip_lead=True):
        start = self.ws.skip(self.s, 0) if skip_lead else 0
        node = self.ev(spec, start, self.ws)
        if parse_all:
            end = self.ws.skip(self.s, node.end)
            if not re.match(r"(?:\r?\n)*\Z", self.s[end:]):
                self.fail(end)
        return node

    def ev(self, spec, i, ws):
        self.budget -= 1
        if self.budget < 0:
            raise OutOfModel("budget")
        return getattr(self, "x_" + spec[0])(spec, i, ws)

    # ---- terminals
    def tok(self, kind, i, e, toks):
        return N(kind, i, e, toks)

    def x_lit(self, sp, i, ws):
        if self.s.startswith(sp[1], i):
            return self.tok("lit", i, i + len(sp[1]), [sp[1]])
        self.fail(i)

    def x_clit(self, sp, i, ws):
        t = self.s[i : i + len(sp[1])]
        if len(t) == len(sp[1]) and t.lower() == sp[1].lower():
            return self.tok("clit", i, i + len(sp[1]), [sp[1]])
        self.fail(i)

    def x_kw(self, sp, i, ws):
        e = i + len(sp[1])
        if self.s.startswith(sp[1], i) and not (e < len(self.s) and self.s[e] in (sp[2] or self.kw)):
            return self.tok("kw", i, e, [sp[1]])
        self.fail(i)

    def x_ckw(self, sp, i, ws):
        e = i + len(sp[1])
        ident = sp[2] or self.kw
        ident = ident.lower() + ident.upper()
        if self.s[i:e].lower() == sp[1].lower() and e <= len(self.s) and not (e < len(self.s) and self.s[e] in ident):
            return self.tok("ckw", i, e, [sp[1]])
        self.fail(i)

    def x_word(self, sp, i, ws):
        _, init, body, mn, mx, exact, exclude = sp
        body = init if body is None else body
        if exact:
            mn = mx = exact
        mx = INF if mx is None else mx
        s = self.s
        if i >= len(s) or s[i] not in init or s[i] in exclude:
            self.fail(i)
        e = i + 1
        while e < len(s) and e - i < mx and s[e] in body and s[e] not in exclude:
            e += 1
        if e - i < mn:
            self.fail(i)
        return self.tok("word", i, e, [s[i:e]])

    def x_char(self, sp, i, ws):
        _, inc, exc = sp
        s = self.s
        if i < len(s) and (not inc or s[i] in inc) and s[i] not in exc:
            return self.tok("char", i, i + 1, [s[i]])
        self.fail(i)

    def x_notin(self, sp, i, ws):
        _, chars, mn, mx, exact = sp
        if exact:
            mn = mx = exact
        mx = mx or INF
        s = self.s
        e = i
        while e < len(s) and e - i < mx and s[e] not in chars:
            e += 1
        if e - i < mn:
            self.fail(i)
        return self.tok("notin", i, e, [s[i:e]])

    def x_any(self, sp, i, ws):
        if i < len(self.s):
            return self.tok("any", i, i + 1, [self.s[i]])
        self.fail(i)

    def x_empty(self, sp, i, ws):
        return self.tok("empty", i, i, [])

    def x_nomatch(self, sp, i, ws):
        self.fail(i)

    def x_strend(self, sp, i, ws):
        s = self.s
        m = re.compile(r"(?:\r?\n)*\Z").match(s, i)
        if i >= len(s) or m:
            return self.tok("strend", i, len(s), [])
        self.fail(i)

    def x_strstart(self, sp, i, ws):
        if i == 0:
            return self.tok("strstart", i, i, [])
        self.fail(i)

    def x_linestart(self, sp, i, ws):
        if i == 0 or self.s[i - 1] == "\n":
            return self.tok("linestart", i, i, [])
        self.fail(i)

    def x_lineend(self, sp, i, ws):
        m = re.compile(r"\r?(?:\n|\Z)").match(self.s, i)
        if m:
            return self.tok("lineend", i, m.end(), ["\n"])
        self.fail(i)

    def x_close(self, sp, i, ws):
        _, m, k = sp
        t = self.s[i : i + len(m)]
        if len(t) == len(m):
            miss = [j for j, (a, b) in enumerate(zip(t, m)) if a != b]
            if len(miss) <= k:
                return N("close", i, i + len(m), [
                    t,
                    N("ann", i, i, [m], name="original", ann=True),
                    N("ann", i, i, miss, name="mismatches", ann=True),
                ])
        self.fail(i)

    def x_white(self, sp, i, ws):
        _, chars, mn, mx, exact = sp
        if exact:
            mn = mx = exact
        mx = mx or INF
        s = self.s
        e = i
        while e < len(s) and e - i < mx and s[e] in chars:
            e += 1
        if e - i < max(mn, 1):
            self.fail(i)
        return self.tok("white", i, e, [s[i:e]])

    def x_wstart(self, sp, i, ws):
        s = self.s
        if i < len(s) and s[i] in sp[1] and (i == 0 or s[i - 1] not in sp[1]):
            return self.tok("wstart", i, i, [])
        self.fail(i)

    def x_wend(self, sp, i, ws):
        s = self.s
        if i > 0 and s[i - 1] in sp[1] and (i >= len(s) or s[i] not in sp[1]):
            return self.tok("wend", i, i, [])
        self.fail(i)

    def x_re(self, sp, i, ws):
        m = re.compile(sp[1], re.DOTALL).match(self.s, i)
        if m:
            return self.tok("re", i, m.end(), [m.group(0)])
        self.fail(i)

    # ---- combinators
    def x_and(self, sp, i, ws):
        kids = []
        end = index = i
        guarded = False
        for k in sp[1]:
            if k[0] == "guard":
                guarded = True
                continue
            if end > index:
                index = ws.skip(self.s, end)
            try:
                r = self.ev(k, end if k[0] == "behind" else index, ws)
            except Fail as f:
                if guarded and not isinstance(f, SyntaxFail):
                    raise SyntaxFail(*f.args)
                raise
            if k[0] == "behind":
                kids.append(r)
                continue
            # nothing repeated leaves nothing behind; any other zero-width match is kept, and moves the end past whitespace
            if r.end <= index and not r.kids and _droppable(k):
                continue
            kids.append(r)
            end = r.end if r.end > index else max(end, r.end)
        return N("and", i, end, kids)

    def x_first(self, sp, i, ws):
        for k in sp[1]:
            try:
                r = self.ev(k, i, ws)
            except Fail:
                continue
            return N("first", r.start, r.end, [r])
        self.fail(i)

    def x_or(self, sp, i, ws):
        best = None
        for k in sp[1]:
            try:
                r = self.ev(k, i, ws)
            except Fail:
                continue
            if best is None or r.end > best.end:
                best = r
        if best is None:
            self.fail(i)
        return N("or", best.start, best.end, [best])

    def x_all(self, sp, i, ws):
        # elements in any order; required ones once, optional ones at most once, repetitions any number of times
        todo = list(enumerate(sp[1]))
        order = []
        seen = set()
        used = {}
        pos = end = i
        while todo:
            for t in todo:
                try:
                    r = self.ev(t[1], pos, ws)
                except Fail:
                    continue
                if r.end == pos:
                    continue
                bare = _bare(t[1])
                if bare[0] == "many" and bare[3] is not None:
                    # the pieces together have at most so many
                    taken = len(r.kids) if (bare[2], bare[3]) != (1, 1) else 1
                    if used.get(t[0], 0) + taken > bare[3]:
                        continue
                    used[t[0]] = used.get(t[0], 0) + taken
                    if used[t[0]] >= bare[3]:
                        todo.remove(t)
                elif bare[0] not in ("zom", "oom", "many"):
                    todo.remove(t)
                end = r.end
                pos = ws.skip(self.s, end)
                order.append(r)
                seen.add(t[0])
                break
            else:
                break
        for j, k in enumerate(sp[1]):
            if j in seen:
                continue
            bare = _bare(k)
            if bare[0] not in ("opt", "zom") and not (bare[0] == "many" and bare[2] == 0):
                self.fail(pos)
            r = self.ev(k, pos, ws)  # absent, but may have a default
            end = r.end
            pos = ws.skip(self.s, end)
            order.append(r)
        return N("all", i, end, order)

    def _many(self, e, mn, mx, stop, i, ws):
        mx = INF if mx is None else mx
        kids = []
        end = i
        n = len(self.s)
        while end < n and len(kids) < mx:
            index = ws.skip(self.s, end)
            if stop is not None:
                self.mute += 1
                try:
                    self.ev(stop, index, ws)
                    hit = True
                except Fail:
                    hit = False
                finally:
                    self.mute -= 1
                if hit:
                    break
            try:
                r = self.ev(e, index, ws)
            except Fail:
                break
            if r.end == index:
                break
            kids.append(r)
            end = r.end
        if len(kids) < mn:
            self.fail(end if end >= n else i)
        return N("many", kids[0].start if kids else i, end, kids)

    def x_many(self, sp, i, ws):
        if sp[2] == 1 and sp[3] == 1 and sp[4] is None:
            # exactly one is the expression itself
            r = self.ev(sp[1], i, ws)
            return N("many", r.start, r.end, [r])
        return self._many(sp[1], sp[2], sp[3], sp[4], i, ws)

    def x_zom(self, sp, i, ws):
        return self._many(sp[1], 0, None, sp[2], i, ws)

    def x_oom(self, sp, i, ws):
        return self._many(sp[1], 1, None, sp[2], i, ws)

    def x_opt(self, sp, i, ws):
        try:
            r = self.ev(sp[1], i, ws)
            return N("opt", r.start, r.end, [r])
        except Fail:
            d = sp[2]
            return N("opt", i, i, [] if d is None else (list(d) if isinstance(d, list) else [d]))

    def x_not(self, sp, i, ws):
        self.mute += 1
        try:
            self.ev(sp[1], i, ws)
            hit = True
        except Fail:
            hit = False
        finally:
            self.mute -= 1
        if hit:
            self.fail(i)
        return N("not", i, i, [])

    def x_ahead(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        r.ann = True
        return N("ahead", i, i, [r])

    def x_behind(self, sp, i, ws):
        # a match of the expression that ends exactly here
        exact = _bare(sp[1])[0] in ("lit", "clit", "kw", "ckw", "char", "wstart", "wend", "strstart", "linestart", "ahead", "not")
        furthest = -1 if exact or len(sp) < 3 else max(-1, i - sp[2] - 1)
        whole, self.s = self.s, self.s if exact else self.s[:i]
        self.mute += 1
        try:
            for k in range(i, furthest, -1):
                try:
                    r = self.ev(sp[1], k, ws)
                except Fail:
                    continue
                if r.end == i:
                    r.ann = True
                    return N("behind", i, i, [r])
        finally:
            self.s = whole
            self.mute -= 1
        self.fail(i)

    def x_skipto(self, sp, i, ws):
        _, e, include, fail, ignore = sp
        loc = i
        n = len(self.s)
        while loc <= n:
            skip_end = loc
            loc = ws.skip(self.s, loc)
            if fail is not None:
                self.mute += 1
                try:
                    self.ev(fail, loc, ws)
                    hit = True
                except Fail:
                    hit = False
                finally:
                    self.mute -= 1
                if hit:
                    self.fail(i)
            if ignore is not None:
                while True:
                    self.mute += 1
                    try:
                        r = self.ev(ignore, loc, ws)
                    except Fail:
                        break
                    finally:
                        self.mute -= 1
                    if r.end == loc:
                        break
                    loc = skip_end = r.end
                    loc = ws.skip(self.s, loc)
            self.mute += 1
            self.trying += 1  # WITHOUT ACTIONS
            try:
                r = self.ev(e, loc, ws)
            except Fail:
                loc += 1
                continue
            finally:
                self.mute -= 1
                self.trying -= 1
            if include:
                r = self.ev(e, loc, ws)
            text = self.s[i:skip_end]
            kids = [text] if text else []
            if include:
                kids.append(r)
                return N("skipto", i, r.end, kids)
            return N("skipto", i, loc, kids)
        self.fail(i)

    def x_group(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        return N("group", r.start, r.end, [r], group=True)

    def x_suppress(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        return N("suppress", r.start, r.end, [])

    def x_combine(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        leaves = list(r.leaves())
        if not all(isinstance(x, str) for x in leaves):
            raise OutOfModel("only text can be combined")
        return N("combine", i, r.end, [sp[2].join(leaves)])

    def x_name(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        r.name = sp[2]
        return r

    def x_pname(self, sp, i, ws):
        return self.ev(sp[1], i, ws)

    def x_noop(self, sp, i, ws):
        return self.ev(sp[1], i, ws)

    def x_copy(self, sp, i, ws):
        return self.ev(sp[1], i, ws)

    def x_act(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        if self.trying:
            return r
        toks = r.view()
        self.log.append((sp[2], r.start, r.end, toks))
        out = self.acts[sp[2]](toks)
        if out is None:
            return r
        return N(r.kind, r.start, r.end, out, r.name, r.group)

    def x_cond(self, sp, i, ws):
        r = self.ev(sp[1], i, ws)
        if self.trying:
            return r
        toks = r.view()
        self.log.append((sp[2], r.start, r.end, toks))
        if self.conds[sp[2]](toks):
            return r
        self.fail(i)

    def x_ws(self, sp, i, ws):
        return self.ev(sp[2], i, mkws(sp[1]))

    def x_let(self, sp, i, ws):
        env = self.env
        self.env = dict(env)
        for k in sp[1]:
            self.env[k] = (sp[1][k], ws)
        try:
            return self.ev(sp[2], i, ws)
        finally:
            self.env = env

    def x_ref(self, sp, i, ws):
        key = (sp[1], i)
        if key in self.active:
            raise OutOfModel("left recursion")
        self.active.add(key)
        try:
            e, w = self.env[sp[1]]
            r = self.ev(e, i, w)
            return N("ref", r.start, r.end, [r])
        except RecursionError:
            raise OutOfModel("too deep")
        finally:
            self.active.discard(key)

    def x_guard(self, sp, i, ws):
        return N("guard", i, i, [])


def _droppable(k):
    k = _bare(k)
    while k[0] == "ws":
        k = _bare(k[2])
    return k[0] in ("zom", "opt") or (k[0] == "many" and k[2] == 0)


_wscache = {}


def mkws(conf):
    """conf: {"chars": ..., "ignore": [regex patterns]}"""
    key = (conf["chars"], tuple(conf.get("ignore", ())))
    if key not in _wscache:
        _wscache[key] = RWs(*key)
    return _wscache[key]


# ------------------------------------------------------------------ building with the public API
class Builder(object):
    """
    style: dict of booleans drawn by the caller; "op" uses operators where one exists, "fin" finalizes
    acts: name -> function given to add_parse_action;  conds: name -> function given to add_condition
    """

    def __init__(self, style=None, acts=None, conds=None, noop=None):
        from rv import env as m

        self.m = m
        self.style = style or {}
        self.acts = acts or {}
        self.conds = conds or {}
        self.noop = noop or (lambda t: None)
        self.env = {}

    def b(self, sp):
        return getattr(self, "b_" + sp[0])(sp)

    def lit_arg(self, sp):
        """operators and constructors accept plain strings for literals"""
        if sp[0] == "lit" and self.style.get("str"):
            return sp[1]
        return self.b(sp)

    def b_lit(self, sp):
        return self.m.Literal(sp[1])

    def b_clit(self, sp):
        return self.m.CaselessLiteral(sp[1])

    def b_kw(self, sp):
        return self.m.Keyword(sp[1], ident_chars=sp[2]) if sp[2] else self.m.Keyword(sp[1])

    def b_ckw(self, sp):
        if self.style.get("op"):
            return self.m.Keyword(sp[1], ident_chars=sp[2], caseless=True)
        return self.m.CaselessKeyword(sp[1], ident_chars=sp[2])

    def b_word(self, sp):
        _, init, body, mn, mx, exact, exclude = sp
        kw = {}
        if mn != 1:
            kw["min"] = mn
        if mx is not None:
            kw["max"] = mx
        if exact:
            kw["exact"] = exact
        if exclude:
            kw["exclude"] = exclude
        return self.m.Word(init, body, **kw) if body is not None else self.m.Word(init, **kw)

    def b_char(self, sp):
        return self.m.Char(sp[1], exclude=sp[2]) if sp[2] else self.m.Char(sp[1])

    def b_notin(self, sp):
        return self.m.CharsNotIn(sp[1], min=sp[2], max=sp[3], exact=sp[4])

    def b_any(self, sp):
        return self.m.AnyChar()

    def b_empty(self, sp):
        return self.m.Empty()

    def b_nomatch(self, sp):
        return self.m.NoMatch()

    def b_strend(self, sp):
        return self.m.StringEnd()

    def b_strstart(self, sp):
        return self.m.StringStart()

    def b_linestart(self, sp):
        return self.m.LineStart()

    def b_lineend(self, sp):
        return self.m.LineEnd()

    def b_close(self, sp):
        return self.m.CloseMatch(sp[1], sp[2])

    def b_white(self, sp):
        return self.m.White(sp[1], min=sp[2], max=sp[3], exact=sp[4])

    def b_wstart(self, sp):
        return self.m.WordStart(sp[1])

    def b_wend(self, sp):
        return self.m.WordEnd(sp[1])

    def b_re(self, sp):
        return self.m.Regex(sp[1])

    def b_and(self, sp):
        kids = sp[1]
        if self.style.get("op") and len(kids) > 1 and kids[0][0] != "guard":
            acc = self.b(kids[0])
            guard = False
            for j, k in enumerate(kids[1:]):
                if k[0] == "guard":
                    guard = True
                    continue
                kk = self.lit_arg(k)
                if guard:
                    acc = acc - kk
                    guard = False
                else:
                    acc = acc + kk
            return acc
        out = []
        for k in kids:
            if k[0] == "guard":
                out.append(self.m.And.SyntaxErrorGuard())
            else:
                out.append(self.lit_arg(k))
        return self.m.And(out)

    def b_guard(self, sp):
        return self.m.And.SyntaxErrorGuard()

    def _fold(self, sp, op, clazz):
        kids = sp[1]
        if self.style.get("op") and len(kids) > 1:
            acc = self.b(kids[0])
            for k in kids[1:]:
                acc = op(acc, self.lit_arg(k))
            return acc
        return clazz([self.lit_arg(k) for k in kids])

    def b_first(self, sp):
        return self._fold(sp, lambda a, b: a | b, self.m.MatchFirst)

    def b_or(self, sp):
        return self._fold(sp, lambda a, b: a ^ b, self.m.Or)

    def b_all(self, sp):
        # & of & nests, so one n-ary construction only
        return self.m.MatchAll([self.b(k) for k in sp[1]])

    def b_many(self, sp):
        _, e, mn, mx, stop = sp
        if stop is None and self.style.get("op"):
            x = self.b(e)
            if mn == mx:
                return x * mn
            if self.style.get("slice"):
                return x[mn:mx]
            return x * (mn, mx)
        kw = {"min_match": mn}
        if mx is not None:
            kw["max_match"] = mx
        if stop is not None:
            kw["stop_on"] = self.b(stop)
        return self.m.Many(self.b(e), **kw)

    def b_zom(self, sp):
        _, e, stop = sp
        if stop is None and self.style.get("op") and self.style.get("slice"):
            return self.b(e)[...]
        if stop is None:
            return self.m.ZeroOrMore(self.b(e))
        return self.m.ZeroOrMore(self.b(e), stop_on=self.b(stop))

    def b_oom(self, sp):
        _, e, stop = sp
        if stop is None and self.style.get("op") and self.style.get("slice"):
            return self.b(e)[1:]
        if stop is None:
            return self.m.OneOrMore(self.b(e))
        return self.m.OneOrMore(self.b(e), stop_on=self.b(stop))

    def b_opt(self, sp):
        _, e, d = sp
        if d is None:
            return self.m.Optional(self.b(e))
        return self.m.Optional(self.b(e), default=list(d) if isinstance(d, list) else d)

    def b_not(self, sp):
        if self.style.get("op"):
            return ~self.b(sp[1])
        return self.m.NotAny(self.b(sp[1]))

    def b_ahead(self, sp):
        return self.m.LookAhead(self.b(sp[1]))

    def b_behind(self, sp):
        if len(sp) > 2:
            return self.m.PrecededBy(self.b(sp[1]), retreat=sp[2])
        return self.m.PrecededBy(self.b(sp[1]))

    def b_skipto(self, sp):
        _, e, include, fail, ignore = sp
        kw = {}
        if include:
            kw["include"] = True
        if fail is not None:
            kw["fail_on"] = self.b(fail)
        if ignore is not None:
            kw["ignore"] = self.b(ignore)
        return self.m.SkipTo(self.b(e), **kw)

    def b_group(self, sp):
        return self.m.Group(self.b(sp[1]))

    def b_suppress(self, sp):
        if self.style.get("op") and not _droppable(sp[1]):
            return self.b(sp[1]).suppress()
        return self.m.Suppress(self.b(sp[1]))

    def b_combine(self, sp):
        if sp[2]:
            return self.m.Combine(self.b(sp[1]), separator=sp[2])
        return self.m.Combine(self.b(sp[1]))

    def b_name(self, sp):
        if self.style.get("op"):
            return self.b(sp[1])(sp[2])
        return self.b(sp[1]).set_token_name(sp[2])

    def b_pname(self, sp):
        return self.b(sp[1]).set_parser_name(sp[2])

    def b_noop(self, sp):
        return self.b(sp[1]) / self.noop

    def b_copy(self, sp):
        return self.b(sp[1]).copy()

    def b_act(self, sp):
        if self.style.get("op"):
            return self.b(sp[1]) / self.acts[sp[2]]
        return self.b(sp[1]).add_parse_action(self.acts[sp[2]])

    def b_cond(self, sp):
        return self.b(sp[1]).add_condition(self.conds[sp[2]])

    def b_ws(self, sp):
        with self.context(sp[1]):
            return self.b(sp[2])

    def context(self, conf):
        w = self.m.Whitespace(conf["chars"])
        return _Ctx(self.m, w, conf.get("ignore", ()))

    def b_let(self, sp):
        env = self.env
        self.env = dict(env)
        for k in sp[1]:
            self.env[k] = self.m.Forward()
        try:
            for k, v in sp[1].items():
                body = self.b(v)
                if self.style.get("ilshift"):
                    f = self.env[k]
                    f <<= body
                else:
                    self.env[k] << body
            return self.b(sp[2])
        finally:
            self.env = env

    def b_ref(self, sp):
        return self.env[sp[1]]


class _Ctx(object):
    def __init__(self, m, w, ignore):
        self.m = m
        self.w = w
        self.ignore = ignore

    def __enter__(self):
        c = self.w.__enter__()
        for p in self.ignore:
            c.add_ignore(self.m.Regex(p))
        return c

    def __exit__(self, *a):
        return self.w.__exit__(*a)


# ------------------------------------------------------------------ views of the real results
def view(r):
    """same form as N.view, from the public iteration protocol of ParseResults"""
    from rv import env as m

    out = []
    for x in r:
        if isinstance(x, m.ParseResults):
            out.append(view(x))
        else:
            out.append(x)
    return out


def real_named(v):
    """comparable form of result[name]; see named_view"""
    from rv import env as m

    return v
