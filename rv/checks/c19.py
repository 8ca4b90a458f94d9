"""C19: quoted strings decode exactly as their options say"""
import re

from rv import env as m
from rv.model import view
from rv.real import attempt

ID = "C19"
RULE = (
    "options: every generated combination of quote, end quote, escape character, escaped quote, multiline, unquoting and whitespace-escape flags parses texts that are "
    "encodings of random content, mutations of them, and noise; match, end and value are compared with a character-by-character reference scanner, alone, inside a "
    "sequence, in a scan, in an alternation, as ignored text, and as the target of a skip. round: encoding any content and parsing gives the content back. "
    "ready: the predefined quoted strings against Python's re. Non-trivial: the content holds a quote, an escape or a newline."
)
ASSUME = ["quote, end quote, escape character and escaped quote are distinct unless the escaped quote is a doubled or escaped end quote"]
NEED = {"matched": 10000, "refused": 5000, "round trips": 3000, "escapes decoded": 5000, "option sets": 300, "skipped as ignored": 800}

QUOTES = ['"', "'", "`", "|", "<<", "'''", "$$", "[[", "%", "/*", "(", "^", "-", "]", "q'", ".", "*"]
ENDS = {"<<": ">>", "[[": "]]", "/*": "*/", "(": ")", "q'": "'", "]": "["}
WS = {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}
CONTENT = ["a", "b", "0", " ", "x", "t", "n", "r", "f", "\\", "\t", "é", "☃", "z", "-", "#", "\\t", "\\n", "\\\\", "]", "[", "^"]


def plan(tier):
    k = 5 if tier == "quick" else 120
    return [("options", 12 * k, 70), ("round", 6 * k, 100), ("ready", 3 * k, 60)]


def options(rng):
    q = rng.choice(QUOTES)
    end = rng.choice([ENDS.get(q, ""), ENDS.get(q, ""), "", ">>" if q not in (">>",) else ""])
    e = end or q
    esc = rng.choice([None, None, "\\", "\\", "~", "!", "?"])
    if esc and (esc in q or esc in e):
        esc = None
    eq = rng.choice([None, None, e + e, "\\" + e, "~" + e, "&q;"])
    if eq and esc and eq[0] == esc:
        eq = None
    return {"q": q, "end": end, "esc": esc, "eq": eq, "ml": rng.random() < 0.4, "un": rng.random() < 0.75, "cw": rng.random() < 0.7}


def content(rng, o, n):
    e = o["end"] or o["q"]
    pool = CONTENT + [o["q"], e, e[0], o["q"][0], e[-1]] * 2
    if o["esc"]:
        pool = pool + [o["esc"]] * 2 + [o["esc"] + o["esc"], o["esc"] + e[0]]
    if o["eq"]:
        pool = pool + [o["eq"]] * 3 + [o["eq"][0]]
    if rng.random() < 0.4:
        pool = pool + ["\n", "\r\n", "\r"]
    return "".join(rng.choice(pool) for _ in range(rng.randint(0, n)))


def gen(kind, rng):
    if kind == "ready":
        texts = []
        for _ in range(10):
            q = rng.choice("\"'")
            body = "".join(rng.choice(["a", " ", "'", '"', '""', "''", "\\", "\\n", "\\x", "\\x4", "\\xg", "\n", "\\\n", "\\'", '\\"', "é", "u"]) for _ in range(rng.randint(0, 7)))
            texts.append(rng.choice(["", "", "u", "u", " ", "x"]) + q + body + rng.choice([q, q, q, "", '"']) + rng.choice(["", "a", q, " '", ' "b"']))
        return {"texts": texts}
    o = options(rng)
    if kind == "round":
        o["un"] = True
        return {"o": o, "contents": [content(rng, o, rng.choice([2, 5, 12])) for _ in range(8)]}
    texts = []
    for _ in range(8):
        c = content(rng, o, rng.choice([1, 3, 8, 20]))
        t = o["q"] + (encode(c, o) or c) + (o["end"] or o["q"])
        x = rng.random()
        if x < 0.2:
            p = rng.randint(0, len(t))
            t = t[:p] + t[p + 1 :]
        elif x < 0.35:
            t = t + content(rng, o, 4)
        elif x < 0.45:
            t = o["q"] + c + (o["end"] or o["q"])
        elif x < 0.5:
            t = c + t
        texts.append(rng.choice(["", "", " ", "\n "]) + t)
    if rng.random() < 0.1:  # unterminated and long: still answers
        texts.append(o["q"] + "".join(rng.choice(["a", (o["esc"] or "b") + "a", o["eq"] or "c"]) for _ in range(60)))
    return {"o": o, "texts": texts}


# ---------------------------------------------------------------- reference
def scan(o, s, i):
    """end of the quoted string at i, or None"""
    q, e, esc, eq = o["q"], o["end"] or o["q"], o["esc"], o["eq"]
    if not s.startswith(q, i):
        return None
    i += len(q)
    while i < len(s):
        if esc and s[i] == esc and i + 1 < len(s) and "!" <= s[i + 1] <= "~":
            i += 2
        elif eq and s.startswith(eq, i):
            i += len(eq)
        elif s.startswith(e, i):
            return i + len(e)
        elif s[i] == "\n" and not o["ml"]:
            return None
        else:
            i += 1
    return None


def decode(o, raw):
    if not o["un"]:
        return raw, 0
    e = o["end"] or o["q"]
    c = raw[len(o["q"]) : len(raw) - len(e)]
    out = ""
    n = i = 0
    while i < len(c):
        two = c[i : i + 2]
        if o["cw"] and len(two) == 2 and two[0] == "\\" and two[1] in WS:
            out += WS[two[1]]
            i += 2
            n += 1
        elif o["esc"] and c[i] == o["esc"] and len(two) == 2 and two[1] != "\n":
            out += two[1]
            i += 2
            n += 1
        elif o["eq"] and c.startswith(o["eq"], i):
            out += e
            i += len(o["eq"])
            n += 1
        else:
            out += c[i]
            i += 1
    return out, n


def encode(c, o):
    """a text for this content, or None"""
    e, esc, eq = o["end"] or o["q"], o["esc"], o["eq"]
    out = ""
    i = 0
    while i < len(c):
        ch = c[i]
        if esc and (ch == esc or ch == e[0] or (eq and ch == eq[0]) or (ch == "\\" and o["cw"])):
            if not "!" <= ch <= "~" or (esc == "\\" and o["cw"] and ch in WS):
                return None
            out += esc + ch
        elif not esc and eq and c.startswith(e, i):
            out += eq
            i += len(e)
            continue
        elif ch == "\n" and not o["ml"]:
            if o["cw"] and not (esc and esc != "\\"):
                out += "\\n"
            else:
                return None
        else:
            out += ch
        i += 1
    # the text says so only if no accidental escape or quote was formed
    full = o["q"] + out + e
    if scan(o, full, 0) != len(full) or decode(o, full)[0] != c:
        return None
    return out


def build(o):
    kw = {}
    if o["esc"]:
        kw["esc_char"] = o["esc"]
    if o["eq"]:
        kw["esc_quote"] = o["eq"]
    if o["end"]:
        kw["end_quote_char"] = o["end"]
    return m.QuotedString(o["q"], multiline=o["ml"], unquote_results=o["un"], convert_whitespace_escape=o["cw"], **kw)


def judge(case, obs):
    if case["kind"] == "ready":
        return ready(case, obs)
    o = case["o"]
    out = attempt(lambda: build(o))
    if out[0] != "ok":
        obs.violate("build", "%r %r" % (o, out))
        return
    e = out[1]
    obs.distinct("option sets", o)
    if case["kind"] == "round":
        for c in case["contents"]:
            t = encode(c, o)
            if t is None:
                obs.hit("not encodable")
                continue
            s = o["q"] + t + (o["end"] or o["q"])
            got = attempt(lambda: list(e.parse_string(s, parse_all=True)))
            if got != ("ok", [c]):
                obs.violate("round trip", "%r content %r as %r gave %r" % (o, c, s, got))
                return
            obs.hit("round trips")
            if t != c:
                obs.mark()
        return

    probe = attempt(lambda: (e + m.Literal("#"), "#" | e, e | "#", _ignoring(e), m.SkipTo(e, include=True), m.Group(e)("x")))
    if probe[0] != "ok":
        obs.violate("build", "%r %r" % (o, probe))
        return
    seq, alt, alt2, ign, skip, named = probe[1]
    for s in case["texts"]:
        i = 0
        while i < len(s) and s[i] in " \t\r\n":
            i += 1
        end = scan(o, s, i)
        if end is None:
            want = ("fail",)
            obs.hit("refused")
        else:
            val, n = decode(o, s[i:end])
            want = ("ok", [val], end)
            obs.hit("matched")
            obs.hit("escapes decoded", n)
            if n or "\n" in val:
                obs.mark()

        def run(x, s=s):
            got = attempt(lambda: (lambda r: (view(r), r.end))(x.parse_string(s)))
            return ("ok",) + got[1] if got[0] == "ok" else got[:1] if got[0] == "fail" else got

        for how, x, t, w in [
            ("alone", e, s if i == 0 else None, want),
            ("second alternative", alt, s, want if s[i : i + 1] != "#" else None),
            ("first alternative", alt2, s, want if end is not None or s[i : i + 1] != "#" else None),
            ("in a sequence", seq, (s[:end] + " # x") if end is not None else s, ("ok", [want[1][0], "#"], end + 2) if end is not None else ("fail",)),
            ("named group", named, s if i == 0 else None, ("ok", [want[1]], end) if end is not None else want),
        ]:
            if w is None or t is None:
                continue
            got = run(x, t)
            if got[0] == "ok" and w[0] == "ok" and how == "named group" and got[1] == want[1]:
                got = w
            if got != w:
                obs.violate("value", "%s: %r on %r\n real=%r\n reference=%r" % (how, o, t, got, w))
                return
        # the first one found from any position
        found = None
        for k in range(i, len(s) + 1):
            x = scan(o, s, k)
            if x is not None:
                found = (k, x)
                break
        got = attempt(lambda: [(a, b) for _, a, b in e.scan_string(s)][:1])
        # a scan skips whitespace before each attempt
        if got[0] != "ok" or got[1] != ([found] if found else []):
            obs.violate("scan", "%r scanning %r first found %r, reference %r" % (o, s, got, found))
            return
        got = attempt(lambda: view(skip.parse_string(s)))
        w = ("ok", [s[i : found[0]], decode(o, s[found[0] : found[1]])[0]]) if found else ("fail",)
        if got[0] == "ok" and w[0] == "ok" and not s[i : found[0]].strip():
            ok = got[1][-1:] == w[1][-1:]
        elif got[0] == "ok" and w[0] == "ok":
            ok = got[1][-1:] == w[1][-1:] and "".join(got[1][:-1]).strip() == s[i : found[0]].strip()
        else:
            ok = got[0] == w[0]
        if not ok:
            obs.violate("skip to", "%r skipping to it in %r gave %r, reference %r" % (o, s, got, w))
            return
        # as ignored text between two tokens
        if end is not None and not o["q"][0].isalnum() and o["q"][0] not in "#":
            t = "# " + s[i:end] + " #"
            got = attempt(lambda: view(ign.parse_string(t)))
            if got != ("ok", ["#", "#"]):
                obs.violate("ignored", "%r ignored in %r gave %r" % (o, t, got))
                return
            obs.hit("skipped as ignored")
        elif end is None and s[i : i + 1] not in ("#", "") and scan(o, s, i) is None:
            t = "# " + s[i:]
            got = attempt(lambda: view(ign.parse_string(t)))
            if got[0] != "fail":
                obs.violate("ignored", "%r ignored in %r gave %r" % (o, t, got))
                return


def _ignoring(e):
    with m.Whitespace(" \n") as w:
        w.add_ignore(e)
        return m.Literal("#") + m.Literal("#")


BODY = r"""(?:[^%s\n\r\\]|%s%s|\\(?:[^x]|x[0-9a-fA-F]+))*%s"""
DBL = '"' + BODY % ('"', '"', '"', '"')
SGL = "'" + BODY % ("'", "'", "'", "'")
READY = {
    "dblQuotedString": DBL,
    "sglQuotedString": SGL,
    "quoted_string": "%s|%s" % (DBL, SGL),
    "unicode_string": "u(?:%s|%s)" % (DBL, SGL),
}
_ready = {k: re.compile(v, re.DOTALL) for k, v in READY.items()}


def greedy(pat, name, s, i):
    """the closing quote is matched after the longest run of content, never given back"""
    if name == "unicode_string":
        if s[i : i + 1] != "u":
            return None
        i += 1
    q = s[i : i + 1]
    if q not in ('"', "'") or not q or (name[0] == "d" and q != '"') or (name[0] == "s" and q != "'"):
        return None
    x = re.compile((DBL if q == '"' else SGL)[:-1], re.DOTALL).match(s, i).end()
    return x + 1 if s[x : x + 1] == q else None


def ready(case, obs):
    for s in case["texts"]:
        i = 0
        while i < len(s) and s[i] in " \t\r\n":
            i += 1
        for name in _ready:
            e = getattr(m.helpers, name)
            end = greedy(_ready[name], name, s, i)
            want = ("fail",) if end is None else ("ok", [s[i:end]], end)
            got = attempt(lambda: (lambda r: (view(r), r.end))(e.parse_string(s)))
            got = ("ok",) + got[1] if got[0] == "ok" else got[:1] if got[0] == "fail" else got
            if got != want:
                obs.violate("ready", "%s on %r\n real=%r\n reference=%r" % (name, s, got, want))
                return
            obs.hit("matched" if end is not None else "refused")
            if end is not None:
                body = s[i + 1 : end - 1]
                if "\\" in body or s[i] in body:
                    obs.mark()
                q = s[end - 1]
                r = attempt(lambda: view((e / m.helpers.remove_quotes).parse_string(s)))
                w = [s[i + 1 : end - 1]]
                if r != ("ok", w):
                    obs.violate("remove_quotes", "%s on %r gave %r, want %r" % (name, s, r, w))
                    return
