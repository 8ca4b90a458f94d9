"""C23: HTML tag parsers recover tag names and attributes"""
from rv import env as m
from rv.checks.c22 import LET, DIG, quoted, run, white
from rv.real import attempt

ID = "C23"
RULE = (
    "tags with any name, letter case, spacing, attributes (namespaced, repeated, without value, unquoted, single and double quoted, empty) and ends, near misses of them, and documents made of them are given to makeHTMLTags, anyOpenTag, anyCloseTag, with_attribute, with_class, stripHTMLTags and the entity replacer: "
    "alone, in lists of named Groups, in scans, inside actions and around SkipTo bodies; what is accepted, where it ends, the tag, the attributes by name and in order, the empty mark and the conditions are compared with a tag scanner written by hand. Non-trivial: a tag with an attribute is accepted."
)
ASSUME = [
    "an unquoted value is any visible ASCII text up to whitespace or '>'; quoted values lose their quotes and nothing else; whitespace is allowed between the parts of a tag, even after '<'",
    "with_class compares the whole attribute; classes with spaces, repeated attributes and the expectation of an empty value where there is none are not judged",
]
NEED = {"tags accepted": 4000, "tags refused": 2500, "attributes": 6000, "by name": 6000, "empty": 800, "end tags": 1500, "conditions": 4000, "condition held": 1200, "condition failed": 1200, "documents": 1500, "tags in documents": 5000, "bodies": 1000, "stripped": 1000, "attributes without value": 500, "empty values": 300}
VISIBLE = "".join(chr(c) for c in range(33, 127))
NAMES = ["a", "td", "TD", "h1", "Body", "ns:tag", "x-y", "font", "b"]


def plan(tier):
    k = 4 if tier == "quick" else 80
    return [("tag", 6 * k, 160), ("cond", 4 * k, 160), ("doc", 4 * k, 120)]


# ---------------------------------------------------------------- the scanner
def keyword(name):
    def scan(s, i):
        e = i + len(name)
        if s[i:e].lower() != name.lower() or s[e : e + 1] in set(LET + DIG + "_$") and e < len(s):
            return None
        return e, name

    return scan


def word(first, rest):
    def scan(s, i):
        if i < len(s) and s[i] in first:
            e = run(s, i + 1, rest)
            return e, s[i:e]
        return None

    return scan


ATTR = word(LET, LET + DIG + "_-:")
ANY = word(LET, LET + DIG + "_:")
TAGS = {"any": ANY, "word": word(LET, LET), "hn": None}


def hn(s, i):
    if s[i : i + 1] == "h" and s[i + 1 : i + 2] in set("123") and i + 1 < len(s):
        return i + 2, s[i : i + 2]
    return None


TAGS["hn"] = hn


def tag_scanner(t):
    return TAGS[t[1]] if isinstance(t, list) else keyword(t)


def value(s, i):
    q = quoted('"', "'")(s, i)
    if q:
        return q[0], q[1][1:-1]
    e = i
    while e < len(s) and s[e] in VISIBLE and s[e] != ">":
        e += 1
    return (e, s[i:e]) if e > i else None


def open_tag(s, i, tag):
    if s[i : i + 1] != "<":
        return None
    t = tag(s, white(s, i + 1))
    if not t:
        return None
    i, name = t
    attrs = []
    while True:
        a = ATTR(s, white(s, i))
        if not a:
            break
        i, key = a
        v = None
        j = white(s, i)
        if s[j : j + 1] == "=":
            v = value(s, white(s, j + 1))
            if v:
                i, v = v
        attrs.append((key.lower(), v))
    j = white(s, i)
    empty = s[j : j + 1] == "/"
    if empty:
        j = white(s, j + 1)
    if s[j : j + 1] != ">":
        return None
    return j + 1, name, attrs, empty


def close_tag(s, i, tag):
    if not s.startswith("</", i):
        return None
    t = tag(s, white(s, i + 2))
    if not t:
        return None
    j = white(s, t[0])
    if s[j : j + 1] != ">":
        return None
    return j + 1, "</%s>" % t[1]


# ---------------------------------------------------------------- texts
def some(rng, chars, a, b):
    return "".join(rng.choice(chars) for _ in range(rng.randint(a, b)))


def anycase(rng, t):
    k = rng.randrange(4)
    return t if k == 0 else t.upper() if k == 1 else t.lower() if k == 2 else "".join(rng.choice([c.upper(), c.lower()]) for c in t)


def gap(rng):
    return rng.choice(["", "", "", " ", "\n", "  ", "\t"])


def some_value(rng):
    k = rng.randrange(10)
    if k < 4:
        q = rng.choice("\"'")
        return q + "".join(rng.choice(["a", "B", " ", "  ", ">", "/", "=", "&lt;", "'" if q == '"' else '"', "1", "\\\\", "\t", q + q]) for _ in range(rng.choice([0, 1, 2, 3, 5]))) + q
    if k < 8:
        return some(rng, LET + DIG + "#%./:-", 1, 6) + " "
    if k < 9:
        return some(rng, LET + DIG, 1, 4)
    return rng.choice(["it's ", "a=b ", "x/ ", '"', "'a", "<b ", "1\"2 "])


def some_attrs(rng, names):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        n = rng.choice(names) if rng.random() < 0.7 else rng.choice(LET) + some(rng, LET + DIG + "-_:", 0, 5)
        out.append(rng.choice([" ", " ", "\n", "  "]) + anycase(rng, n))
        if rng.random() < 0.75:
            out.append(gap(rng) + "=" + gap(rng) + some_value(rng))
    return "".join(out)


def some_name(rng, t):
    if isinstance(t, list):
        return {"any": lambda: rng.choice(LET) + some(rng, LET + DIG + "_:", 0, 4), "word": lambda: some(rng, LET, 1, 4), "hn": lambda: "h" + rng.choice("1234")}[t[1]]()
    return anycase(rng, t)


ATTRS = ["href", "class", "id", "b", "xml:lang", "data-x", "WIDTH"]


def some_open(rng, t):
    return "<" + rng.choice(["", "", "", " "]) + some_name(rng, t) + some_attrs(rng, ATTRS) + gap(rng) + rng.choice(["", "", "/", "/ "]) + ">"


def some_close(rng, t):
    return "</" + rng.choice(["", "", "", " "]) + some_name(rng, t) + gap(rng) + ">"


def spoil(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(t))
        k = rng.randrange(4)
        if k == 0:
            t.insert(i, rng.choice("<>/=\"' ab1-:\n"))
        elif i < len(t):
            if k == 1:
                del t[i]
            elif k == 2:
                t[i] = rng.choice("<>/=\"' ab1-:")
            else:
                t.insert(i, t[i])
    return "".join(t)


def gen(kind, rng):
    t = rng.choice(NAMES + [["any", "any"], ["any", "word"], ["any", "hn"]])
    if kind == "tag":
        texts = []
        for _ in range(4):
            x = some_open(rng, t)
            texts += [x, spoil(rng, x)]
        for _ in range(2):
            x = some_close(rng, t)
            texts += [x, spoil(rng, x)]
        texts.append(some_open(rng, rng.choice(NAMES)))
        return {"tag": t, "use": rng.choice(["alone", "group", "list", "copy"]), "inputs": texts}
    if kind == "cond":
        names = rng.sample(ATTRS, rng.choice([1, 1, 2, 3]))
        vals = ["x", "1", "a b", "", "X", "x/y"]
        conds = [[n.lower(), rng.choice(vals + [None, None, None])] for n in names]
        texts = []
        for _ in range(6):
            pairs = []
            for n, v in conds:
                if rng.random() < 0.85:
                    pairs.append([n, v if v is not None and rng.random() < 0.7 else rng.choice(vals + [None])])
            if rng.random() < 0.4:
                pairs.append(["other", rng.choice(vals)])
            rng.shuffle(pairs)
            texts.append("<" + some_name(rng, t) + "".join(" " + anycase(rng, n) + ("" if v is None else "=" + rng.choice(['"%s"', "'%s'"]) % v) for n, v in pairs) + rng.choice([">", "/>", " >"]))
        return {"tag": t, "conds": conds, "how": rng.choice(["attribute", "attribute", "class", "nsclass"]), "classname": rng.choice(["x", "1", "X"]), "inside": rng.random() < 0.3, "inputs": texts}
    texts = []
    for _ in range(4):
        bits = []
        for _ in range(rng.randint(1, 8)):
            bits.append(rng.choice([lambda: some_open(rng, t), lambda: some_open(rng, t), lambda: some_close(rng, t), lambda: some_open(rng, rng.choice(NAMES)), lambda: some(rng, "ab 1\n&;", 0, 6), lambda: rng.choice(["&lt;", "&amp;", "&quot;", "&gt;", "&apos;", "&nbsp;", "&foo;", "&lt", "<", "</", "< ", "<!-- x -->"])])())
        texts.append("".join(bits))
    return {"tag": t, "inputs": texts}


# ---------------------------------------------------------------- the real thing
def parsers(t):
    H = m.helpers
    if isinstance(t, list):
        if t[1] == "any":
            return H.anyOpenTag, H.anyCloseTag, "startAnyTag", "endAnyTag"
        e = m.Word(LET) if t[1] == "word" else m.helpers.one_of("h1 h2 h3") if hasattr(m.helpers, "one_of") else m.Regex("h[123]")
        a, b = H.makeHTMLTags(e.set_parser_name("my:own tag"))
        return a, b, "startMyOwnTag", "endMyOwnTag"
    a, b = H.makeHTMLTags(t)
    n = "".join(t.replace(":", " ").title().split())
    return a, b, "start" + n, "end" + n


def leaves(x):
    if isinstance(x, m.ParseResults):
        return [y for k in x for y in leaves(k)]
    return [x]


def check_tag(t, name, attrs, empty, obs):
    """t is the result of the tag, None if it is right"""
    kids = list(t)
    if not kids or kids[0] != name:
        return "tag is %r, not %r" % (kids[:1], name)
    if kids[-1] is not empty:
        return "ends with %r, not %r" % (kids[-1], empty)
    got = [leaves(k) for k in kids[1:-1]]
    want = [[k] if v is None else [k, v] for k, v in attrs]
    if got != want:
        return "attributes are %r, not %r" % (got, want)
    keys = [k for k, _ in attrs]
    if "tag" not in keys and t["tag"] != name:
        return "['tag'] is %r, not %r" % (t["tag"], name)
    if "empty" not in keys and t["empty"] is not empty:
        return "['empty'] is %r, not %r" % (t["empty"], empty)
    obs.hit("attributes", len(attrs))
    for k in set(keys) - {"tag", "empty"}:
        want = [v for n, v in attrs if n == k and v is not None]
        got = leaves(t[k])
        obs.hit("by name")
        if not want:
            obs.hit("attributes without value")
        if "" in want:
            obs.hit("empty values")
        if got != want:
            return "[%r] is %r, not %r" % (k, got, want)
        if len(want) == 1 and t[k] != want[0]:
            return "[%r] is %r, not %r" % (k, t[k], want[0])
        if want and any(want) and k not in t:
            return "%r is not in the result" % k
    for k in ("href", "class", "nothing"):
        if k not in keys and (k in t or leaves(t[k])):
            return "[%r] is %r, there is no such attribute" % (k, t[k])
    return None


def judge(case, obs):
    with m.whitespaces.Whitespace(" \t\r\n"):
        return {"tag": one, "cond": conditions, "doc": document}[case["kind"]](case, obs)


def one(case, obs):
    t = case["tag"]
    scan = tag_scanner(t)
    a, b, na, nb = parsers(t)
    use = case["use"]
    if use == "copy":
        a, b = a.copy(), b.copy()
    for s in case["inputs"]:
        if s[:1].isspace():
            continue
        for e, name, f in ((a, na, open_tag), (b, nb, close_tag)):
            want = f(s, 0, scan)
            if want and want[0] < len(s):
                want = None
            if use == "group":
                real = attempt(lambda: m.Group(e)("it").parse_string(s, parse_all=True))
            elif use == "list":
                real = attempt(lambda: m.OneOrMore(m.Group(e)).parse_string(s, parse_all=True))
            else:
                real = attempt(lambda: e.parse_string(s, parse_all=True))
            if real[0] not in ("ok", "fail"):
                return obs.violate("raised", "%s on %r: %r" % (name, s, real[:3]))
            many = use == "list" and not want
            if many:
                i = 0
                while True:
                    w = f(s, white(s, i), scan)
                    if not w:
                        break
                    i = w[0]
                many = i and not s[i:].strip()
            if s.strip() != s:
                continue
            if (real[0] == "ok") != bool(want or many):
                return obs.violate("accepts" if real[0] == "ok" else "refuses", "%s on %r, use %s: %s, expected %r" % (name, s, use, real[0], want))
            if many:
                continue
            obs.hit("tags accepted" if want else "tags refused")
            if not want:
                continue
            r = real[1]
            if f is close_tag:
                obs.hit("end tags")
                g = r if use not in ("group", "list") else r["it"] if use == "group" else list(r)[0]
                if leaves(g) != [want[1]] or use != "group" and leaves(g[name] if use == "list" else r[name]) != [want[1]]:
                    return obs.violate("end tag", "%r is %r named %r, not %r" % (s, list(r), leaves(r[name]), want[1]))
                continue
            if want[2]:
                obs.mark()
            if want[3]:
                obs.hit("empty")
            if use == "group":
                tag = r["it"][name]
            elif use == "list":
                tag = list(r)[0][name]
            else:
                tag = r[name]
            bad = check_tag(tag, want[1], want[2], want[3], obs)
            if bad:
                return obs.violate("tag", "%r, use %s: %s" % (s, use, bad))
            obs.distinct("tags", repr((want[1], want[2], want[3])))


def conditions(case, obs):
    t = case["tag"]
    scan = tag_scanner(t)
    a, b, na, nb = parsers(t)
    H = m.helpers
    how = case["how"]
    if how == "attribute":
        conds = case["conds"]
        pa = H.with_attribute(**{n: H.with_attribute.ANY_VALUE if v is None else v for n, v in conds})
    elif how == "class":
        conds = [["class", case["classname"]]]
        pa = H.with_class(case["classname"])
    else:
        conds = [["xml:class", case["classname"]]]
        pa = H.with_class(case["classname"], "xml")
    e = a.copy().add_parse_action(pa)
    if case["inside"]:
        e = m.Group(e) | m.Group(a.copy())("plainly")
    for s in case["inputs"]:
        if how == "nsclass":
            s = s.replace("class", "xml:class").replace("CLASS", "xml:class")
        if how != "attribute" and "other" in s:
            s = s.replace("other", "class" if how == "class" else "xml:class")
        w = open_tag(s, 0, scan)
        if not w:
            continue
        attrs = {}
        for k, v in w[2]:
            attrs.setdefault(k, []).append(v)
        if any(len(v) > 1 for v in attrs.values()):
            continue
        if any(v == "" and attrs.get(n) == [None] for n, v in conds):
            continue
        if how != "attribute" and any(" " in (v[0] or "") for v in attrs.values()):
            continue
        holds = all(n in attrs and (v is None or attrs[n][0] == v) for n, v in conds)
        real = attempt(lambda: e.parse_string(s))
        if real[0] not in ("ok", "fail"):
            return obs.violate("raised", "%s on %r: %r" % (conds, s, real[:3]))
        ok = real[0] == "ok"
        if case["inside"]:
            if not ok:
                return obs.violate("condition", "%s on %r fails" % (conds, s))
            ok = real[1].name != "plainly" and not leaves(real[1]["plainly"])
        obs.hit("conditions")
        obs.hit("condition held" if holds else "condition failed")
        if holds:
            obs.mark()
        if ok != holds:
            return obs.violate("condition", "%s on %r: %s" % (conds, s, "accepted" if ok else "refused"))
        obs.distinct("conditions", repr((conds, sorted(attrs.items()))))


ENTITIES = [("&gt;", ">"), ("&lt;", "<"), ("&amp;", "&"), ("&nbsp;", " "), ("&quot;", '"'), ("&apos;", "'")]


def document(case, obs):
    t = case["tag"]
    scan = tag_scanner(t)
    a, b, na, nb = parsers(t)
    H = m.helpers
    for s in case["inputs"]:
        obs.hit("documents")
        # every tag
        for e, f, name in ((a, open_tag, na), (b, close_tag, nb)):
            want = find(s, lambda s, i: f(s, i, scan))
            real = attempt(lambda: [(i, j, r) for r, i, j in e.scan_string(s)])
            if real[0] != "ok":
                return obs.violate("raised", "scan for %s in %r: %r" % (name, s, real[:3]))
            if [x[:2] for x in real[1]] != [(i, w[0]) for i, w in want]:
                return obs.violate("scan", "%s in %r are at %r, not %r" % (name, s, [x[:2] for x in real[1]], [(i, w[0]) for i, w in want]))
            obs.hit("tags in documents", len(want))
            if f is open_tag:
                for (i, j, r), (_, w) in zip(real[1], want):
                    if w[2]:
                        obs.mark()
                    bad = check_tag(r if r.name == name else r[name], w[1], w[2], w[3], obs)
                    if bad:
                        return obs.violate("scan", "%r in %r: %s" % (s[i:j], s, bad))
        # what is between the tags
        want = []
        i = 0
        while i <= len(s):
            w = open_tag(s, i, scan)
            if w:
                k, c = w[0], None
                while k <= len(s):
                    k = white(s, k)
                    c = close_tag(s, k, scan)
                    if c:
                        break
                    k += 1
                if c:
                    want.append((i, c[0]))
                    i = c[0]
                    continue
            i += 1
        real = attempt(lambda: [(i, j, r) for r, i, j in (a + m.SkipTo(b)("body") + b).scan_string(s)])
        if real[0] != "ok":
            return obs.violate("raised", "bodies in %r: %r" % (s, real[:3]))
        if [x[:2] for x in real[1]] != want:
            return obs.violate("body", "%s to %s in %r are at %r, not %r" % (na, nb, s, [x[:2] for x in real[1]], want))
        for i, j, r in real[1]:
            obs.hit("bodies")
            w = open_tag(s, i, scan)
            text = s[w[0] : j]
            got = "".join(leaves(r["body"]))
            k = find(text, lambda s, i: close_tag(s, i, scan))[0][0]
            if got.strip() != text[:k].strip():
                return obs.violate("body", "the body of %r is %r, not %r" % (s[i:j], got, text[:k]))
        # no tags
        out, i = [], 0
        while i < len(s):
            w = open_tag(s, i, ANY) or close_tag(s, i, ANY)
            if w:
                i = w[0]
            else:
                out.append(s[i])
                i += 1
        want = "".join(out)
        real = attempt(lambda: strip(s))
        obs.hit("stripped")
        if real[0] != "ok" or real[1] != want:
            return obs.violate("strip", "%r gives %r, not %r" % (s, real, want))
        want = replaced(s)
        real = attempt(lambda: (H.commonHTMLEntity / H.replaceHTMLEntity).transform_string(s))
        if real[0] != "ok" or real[1] != want:
            return obs.violate("entities", "%r gives %r, not %r" % (s, real, want))


def strip(s):
    e = m.Regex(r"[\s\S]+") / m.helpers.stripHTMLTags
    if not s:
        return ""
    r = list(e.parse_string(s))
    return "".join(r)


def replaced(s):
    out, i = [], 0
    while i < len(s):
        for k, v in ENTITIES:
            if s.startswith(k, i):
                out.append(v)
                i += len(k)
                break
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def find(s, f):
    out, i = [], 0
    while i <= len(s):
        w = f(s, i)
        if w:
            out.append((i, w))
            i = w[0]
        else:
            i += 1
    return out
