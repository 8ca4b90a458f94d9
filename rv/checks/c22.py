"""C22: ready-made value parsers accept and convert exactly their values"""
import datetime
import ipaddress

from rv import env as m
from rv.real import attempt

ID = "C22"
RULE = (
    "texts of every ready-made value parser of helpers.py (numbers, fractions, identifiers, hex, UUID, IPv4/IPv6, MAC, ISO dates and times, comments, quoted strings) and near misses of them are given to the parser as the whole text (parse_all), "
    "to a list of alternatives in random order (OneOrMore of named Groups), and to scan_string; acceptance, extent, value, type and named parts are compared with scanners written by hand from the documented forms. Non-trivial: at least one value is accepted."
)
ASSUME = [
    "the form of each value is that of its description: sign optional; real has a decimal point; sci_real a point or an exponent; number is an int unless it has a point or an exponent; a MAC address uses one separator throughout; a comment ends at the first closing mark",
    "IPv6 is what the ipaddress module accepts, for texts of hex groups, and ::ffff: followed by an IPv4 address for the mixed form",
    "mixed_integer is the sum of its integer and fraction; a zero denominator, a negative mixed number, an IPv4 part with leading zeros and a time that ends with a colon are not judged",
]
NEED = {"whole accepted": 8000, "whole refused": 8000, "lists": 3000, "values in lists": 10000, "scans": 2000, "found by scans": 2000, "dates converted": 500, "dates refused": 300, "ipv6 accepted": 400, "ipv6 refused": 400, "comments": 1000, "named parts": 1000}


def plan(tier):
    k = 4 if tier == "quick" else 80
    return [("whole", 6 * k, 200), ("list", 5 * k, 160), ("scan", 3 * k, 160), ("date", 2 * k, 200)]


DIG, HEX = "0123456789", "0123456789abcdefABCDEF"
LOW = "abcdefghijklmnopqrstuvwxyz"
LET = LOW + LOW.upper()


class Skip(Exception):
    pass


def run(s, i, chars):
    while i < len(s) and s[i] in chars:
        i += 1
    return i


def exactly(s, i, n, chars):
    return i + n if run(s, i, chars) >= i + n else None


def sign(s, i):
    return i + 1 if i < len(s) and s[i] in "+-" else i


def white(s, i):
    return run(s, i, " \t\r\n")


# a scanner returns (end, value, {name: part}) or None
def integer(s, i):
    e = run(s, i, DIG)
    return (e, int(s[i:e]), {}) if e > i else None


def hex_integer(s, i):
    e = run(s, i, HEX)
    return (e, int(s[i:e], 16), {}) if e > i else None


def signed_integer(s, i):
    j = sign(s, i)
    e = run(s, j, DIG)
    return (e, int(s[i:e]), {}) if e > j else None


def fraction(s, i):
    a = signed_integer(s, i)
    if not a:
        return None
    j = white(s, a[0])
    if s[j : j + 1] != "/":
        return None
    b = signed_integer(s, white(s, j + 1))
    if not b:
        return None
    if b[1] == 0:
        raise Skip
    return b[0], float(a[1]) / float(b[1]), {}


def mixed_integer(s, i):
    f = fraction(s, i)
    if f:
        return f
    a = signed_integer(s, i)
    if not a:
        return None
    j = white(s, a[0])
    if s[j : j + 1] == "-":
        f = fraction(s, white(s, j + 1)) or fraction(s, j)
    else:
        f = fraction(s, j)
    if not f:
        return a
    if s[i] == "-" or f[1] < 0:
        raise Skip
    return f[0], a[1] + f[1], {}


def point(s, j):
    """digits with a decimal point"""
    a = run(s, j, DIG)
    if s[a : a + 1] != ".":
        return None
    b = run(s, a + 1, DIG)
    return b if b - j > 1 else None


def exponent(s, j):
    if s[j : j + 1] in ("e", "E"):
        k = sign(s, j + 1)
        e = run(s, k, DIG)
        if e > k:
            return e
    return None


def real(s, i):
    e = point(s, sign(s, i))
    return (e, float(s[i:e]), {}) if e else None


def sci_real(s, i):
    j = sign(s, i)
    e = point(s, j)
    if e:
        e = exponent(s, e) or e
    else:
        e = run(s, j, DIG)
        e = exponent(s, e) if e > j else None
    return (e, float(s[i:e]), {}) if e else None


def number(s, i):
    return sci_real(s, i) or signed_integer(s, i)


def fnumber(s, i):
    j = sign(s, i)
    e = run(s, j, DIG)
    if e == j:
        return None
    if s[e : e + 1] == ".":
        e = run(s, e + 1, DIG)
    e = exponent(s, e) or e
    return e, float(s[i:e]), {}


def identifier(s, i):
    if i < len(s) and s[i] in LET + "_":
        e = run(s, i, LET + DIG + "_")
        return e, s[i:e], {}
    return None


def octet(s, i):
    """all the ends of a part"""
    out = []
    for n in (1, 2, 3):
        e = exactly(s, i, n, DIG)
        if e and int(s[i:e]) < 256:
            if n > 1 and s[i] == "0":
                raise Skip
            out.append(e)
    return out


def ipv4(s, i):
    j = i
    for n in range(4):
        ends = octet(s, j)
        if not ends:
            return None
        if n == 3:
            return ends[-1], s[i : ends[-1]], {}
        ends = [e for e in ends if s[e : e + 1] == "."]
        if not ends:
            return None
        j = ends[0] + 1


def ipv6(s, i):
    """whole text only"""
    assert i == 0
    t = s.rstrip("\r\n")
    if "." in t:
        if t.startswith("::ffff:"):
            f = ipv4(t, 7)
            if f and f[0] == len(t):
                return len(t), t, {}
            return None
        raise Skip
    if "%" in t or "/" in t:
        return None
    try:
        ipaddress.IPv6Address(t)
        return len(t), t, {}
    except ValueError:
        return None


def mac(s, i):
    e = exactly(s, i, 2, HEX)
    if not e or s[e : e + 1] not in (":", ".", "-"):
        return None
    sep = s[e]
    for _ in range(5):
        if s[e : e + 1] != sep:
            return None
        e = exactly(s, e + 1, 2, HEX)
        if not e:
            return None
    return e, s[i:e], {}


def uuid(s, i):
    e = exactly(s, i, 8, HEX)
    for n in (4, 4, 4, 12):
        if not e or s[e : e + 1] != "-":
            return None
        e = exactly(s, e + 1, n, HEX)
    return (e, s[i:e], {}) if e else None


def iso_date(s, i):
    e = exactly(s, i, 4, DIG)
    if not e:
        return None
    parts = {"year": s[i:e]}
    for name in ("month", "day"):
        n = exactly(s, e + 1, 2, DIG) if s[e : e + 1] == "-" else None
        if not n:
            break
        parts[name] = s[e + 1 : n]
        e = n
    return e, s[i:e], parts


def iso_datetime(s, i):
    d = iso_date(s, i)
    if not d or "day" not in d[2]:
        return None
    e, _, parts = d
    if s[e : e + 1] not in ("T", " "):
        return None
    n = exactly(s, e + 1, 2, DIG)
    if not n or s[n : n + 1] != ":":
        return None
    parts["hour"] = s[e + 1 : n]
    e = exactly(s, n + 1, 2, DIG)
    if not e:
        return None
    parts["minute"] = s[n + 1 : e]
    if s[e : e + 1] == ":":
        n = exactly(s, e + 1, 2, DIG)
        if not n:
            raise Skip
        if s[n : n + 1] == ".":
            n = run(s, n + 1, DIG)
        parts["second"] = s[e + 1 : n]
        e = n
    if s[e : e + 1] == "Z":
        parts["tz"] = "Z"
        e += 1
    elif s[e : e + 1] in ("+", "-"):
        n = exactly(s, e + 1, 2, DIG)
        if n:
            n = exactly(s, n + 1 if s[n : n + 1] == ":" else n, 2, DIG)
        if n:
            parts["tz"] = s[e:n]
            e = n
    return e, s[i:e], parts


def between(a, b):
    def scan(s, i):
        if not s.startswith(a, i):
            return None
        e = s.find(b, i + len(a))
        return (e + len(b), s[i : e + len(b)], {}) if e >= 0 else None

    return scan


def to_eol(a, continued=False):
    def scan(s, i):
        if not s.startswith(a, i):
            return None
        e = i + len(a)
        while e < len(s):
            if continued and s.startswith("\\\n", e):
                e += 2
            elif s[e] == "\n":
                break
            else:
                e += 1
        return e, s[i:e], {}

    return scan


def quoted(*quotes):
    def scan(s, i):
        q = s[i : i + 1]
        if not q or q not in quotes:
            return None
        j = i + 1
        while j < len(s):
            c = s[j]
            if c == q:
                if s[j + 1 : j + 2] == q:
                    j += 2
                    continue
                return j + 1, s[i : j + 1], {}
            if c in "\r\n":
                return None
            if c == "\\":
                if j + 1 >= len(s):
                    return None
                if s[j + 1] == "x":
                    k = run(s, j + 2, HEX)
                    if k == j + 2:
                        return None
                    j = k
                else:
                    j += 2
                continue
            j += 1
        return None

    return scan


def unicode_string(s, i):
    if s[i : i + 1] != "u":
        return None
    q = quoted('"', "'")(s, i + 1)
    return q and (q[0], s[i : q[0]], {})


def either(*scans):
    def scan(s, i):
        for f in scans:
            r = f(s, i)
            if r:
                return r
        return None

    return scan


H = m.helpers
# name -> (attribute of helpers, scanner)
P = {
    "integer": integer,
    "hex_integer": hex_integer,
    "signed_integer": signed_integer,
    "fraction": fraction,
    "mixed_integer": mixed_integer,
    "real": real,
    "sci_real": sci_real,
    "number": number,
    "fnumber": fnumber,
    "identifier": identifier,
    "ipv4_address": ipv4,
    "ipv6_address": ipv6,
    "mac_address": mac,
    "uuid": uuid,
    "iso8601_date": iso_date,
    "iso8601_datetime": iso_datetime,
    "cStyleComment": between("/*", "*/"),
    "html_comment": between("<!--", "-->"),
    "restOfLine": to_eol(""),
    "dblSlashComment": to_eol("//", True),
    "cppStyleComment": either(between("/*", "*/"), to_eol("//", True)),
    "javaStyleComment": either(between("/*", "*/"), to_eol("//", True)),
    "pythonStyleComment": to_eol("#"),
    "dblQuotedString": quoted('"'),
    "sglQuotedString": quoted("'"),
    "quoted_string": quoted('"', "'"),
    "unicode_string": unicode_string,
}
INLIST = [k for k in P if k not in ("restOfLine", "ipv6_address")]


# ---------------------------------------------------------------- texts
def some(rng, chars, a, b):
    return "".join(rng.choice(chars) for _ in range(rng.randint(a, b)))


def sg(rng):
    return rng.choice(["", "", "", "+", "-"])


def exp(rng):
    return rng.choice("eE") + sg(rng) + some(rng, DIG, 1, 2)


def pt(rng):
    return rng.choice([some(rng, DIG, 1, 4) + "." + some(rng, DIG, 0, 4), "." + some(rng, DIG, 1, 4)])


def sp(rng):
    return rng.choice(["", "", " ", "  ", "\t"])


def v6(rng):
    g = lambda: some(rng, HEX, 1, 4)
    n = rng.choice([8, 8, 7, 9, rng.randint(1, 9)])
    groups = [g() for _ in range(n)]
    r = rng.random()
    if r < 0.35:
        t = ":".join(groups)
    elif r < 0.9:
        k = rng.randint(0, n)
        t = ":".join(groups[:k]) + "::" + ":".join(groups[k:][: rng.choice([9, 6, 3, 2, 1, 0])])
    else:
        t = "::ffff:" + v4(rng)
    return t


def v4(rng):
    part = lambda: str(rng.choice([rng.randrange(10), rng.randrange(100), rng.randrange(256), rng.randrange(256), rng.choice([199, 200, 249, 250, 255])] + ([256, 260, 299, 300, 999] if rng.random() < 0.05 else [])))
    return ".".join(part() for _ in range(rng.choice([4, 4, 4, 4, 4, 3, 5])))


def day(rng, wild=0.2):
    y = some(rng, DIG, 4, 4)
    if rng.random() < wild:
        return y + "-" + some(rng, DIG, 2, 2) + "-" + some(rng, DIG, 2, 2)
    return "%s-%02d-%02d" % (y, rng.randint(1, 12), rng.choice([rng.randint(1, 28), 28, 29, 30, 31]))


def hour(rng, wild=0.2):
    if rng.random() < wild:
        return some(rng, DIG, 2, 2) + ":" + some(rng, DIG, 2, 2)
    return "%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59))


def body(rng, bits):
    return "".join(rng.choice(bits) for _ in range(rng.randint(0, 6)))


T = {
    "integer": lambda r: some(r, DIG, 1, 6),
    "hex_integer": lambda r: some(r, HEX, 1, 8),
    "signed_integer": lambda r: sg(r) + some(r, DIG, 1, 5),
    "fraction": lambda r: sg(r) + some(r, DIG, 1, 3) + sp(r) + "/" + sp(r) + sg(r) + some(r, DIG, 1, 2),
    "mixed_integer": lambda r: r.choice([lambda: sg(r) + some(r, DIG, 1, 3), lambda: T["fraction"](r), lambda: some(r, DIG, 1, 3) + r.choice([" ", "-", " - ", "- ", " -"]) + some(r, DIG, 1, 2) + "/" + some(r, DIG, 1, 2)])(),
    "real": lambda r: sg(r) + pt(r),
    "sci_real": lambda r: sg(r) + r.choice([pt(r), pt(r) + exp(r), some(r, DIG, 1, 4) + exp(r)]),
    "number": lambda r: sg(r) + r.choice([pt(r), pt(r) + exp(r), some(r, DIG, 1, 4) + exp(r), some(r, DIG, 1, 5)]),
    "fnumber": lambda r: sg(r) + some(r, DIG, 1, 4) + r.choice(["", ".", "." + some(r, DIG, 1, 3)]) + r.choice(["", exp(r)]),
    "identifier": lambda r: r.choice(LET + "_") + some(r, LET + DIG + "_", 0, 6),
    "ipv4_address": v4,
    "ipv6_address": v6,
    "mac_address": lambda r: (lambda s: s.join(some(r, HEX, 2, 2) for _ in range(r.choice([6, 6, 6, 6, 5, 7]))))(r.choice(":.-")),
    "uuid": lambda r: "-".join(some(r, HEX, n, n) for n in (8, 4, 4, 4, 12)),
    "iso8601_date": lambda r: day(r)[: r.choice([10, 10, 7, 4, 8, 5])],
    "iso8601_datetime": lambda r: day(r) + r.choice("TTT ") + hour(r) + r.choice(["", ":" + some(r, "012345", 2, 2), ":59." + some(r, DIG, 0, 6)]) + r.choice(["", "", "Z", "+01:00", "-0330", "+1", "Zz"]),
    "cStyleComment": lambda r: "/*" + body(r, ["*", "/", " ", "a", "\n", "**", "//", "'"]) + r.choice(["*/", "*/", "**/", "*", ""]),
    "html_comment": lambda r: "<!--" + body(r, ["-", "--", ">", " ", "a", "\n", "<!--"]) + r.choice(["-->", "-->", "--", ""]),
    "restOfLine": lambda r: body(r, ["a", " ", "\t", ",", "#", "\r", "\n"]),
    "dblSlashComment": lambda r: "//" + body(r, ["a", " ", "\\", "\\\n", "//", "*/", "\n"]),
    "cppStyleComment": lambda r: T[r.choice(["cStyleComment", "dblSlashComment"])](r),
    "javaStyleComment": lambda r: T[r.choice(["cStyleComment", "dblSlashComment"])](r),
    "pythonStyleComment": lambda r: "#" + body(r, ["a", " ", "\\", "\\\n", "#", "\n"]),
    "dblQuotedString": lambda r: '"' + body(r, ["a", " ", "'", '""', '"', "\\\\", '\\"', "\\x41", "\\x", "\\n", "x", "\t"]) + r.choice(['"', '"', '"', ""]),
    "sglQuotedString": lambda r: "'" + body(r, ["a", " ", '"', "''", "'", "\\\\", "\\'", "\\x41f", "\\xg", "\\n", "x", "  "]) + r.choice(["'", "'", "'", ""]),
    "quoted_string": lambda r: T[r.choice(["dblQuotedString", "sglQuotedString"])](r),
    "unicode_string": lambda r: "u" + T["quoted_string"](r),
}
ALPHABET = DIG + "abefxzAEF" + ".-+:/ _T*'\"<>#u"


def spoil(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randint(0, len(t))
        k = rng.randrange(4)
        if k == 0:
            t.insert(i, rng.choice(ALPHABET))
        elif i < len(t):
            if k == 1:
                del t[i]
            elif k == 2:
                t[i] = rng.choice(ALPHABET)
            else:
                t.insert(i, t[i])
    return "".join(t)


def gen(kind, rng):
    if kind == "whole":
        name = rng.choice(sorted(P))
        if rng.random() < 0.06:
            name = "ipv6_address"
        texts = []
        for _ in range(5):
            t = T[name](rng)
            texts.append(t)
            texts.append(spoil(rng, t))
        texts.append(T[rng.choice(sorted(P))](rng))
        return {"name": name, "inputs": texts, "use": rng.choice(["plain", "plain", "copy", "named", "group"])}
    if kind == "date":
        k = rng.choice(["date", "datetime"])
        if k == "date":
            texts = [day(rng)[: rng.choice([10, 10, 10, 7, 4])] for _ in range(6)]
        else:
            texts = [day(rng) + rng.choice("TTTT ") + hour(rng) + rng.choice([":%02d" % rng.randint(0, 59), ":61", ":60", "", ":%02d" % rng.randint(0, 59)]) + rng.choice([".%s" % some(rng, DIG, 1, 6)] * 5 + ["", ".", ".1234567", "Z"]) for _ in range(6)]
        return {"what": k, "inputs": texts, "inside": rng.random() < 0.5}
    names = rng.sample(INLIST, rng.randint(1, 5))
    sep = rng.choice([" ", "\n", "  ", ",", ", ", ""]) if kind == "list" else rng.choice([" ", "; ", "\n", "xx", ""])
    texts = []
    for _ in range(4):
        bits = []
        for _ in range(rng.randint(1, 6)):
            t = T[rng.choice(names) if rng.random() < 0.9 else rng.choice(INLIST)](rng)
            bits.append(spoil(rng, t) if rng.random() < 0.15 else t)
        texts.append(sep.join(bits))
    return {"names": names, "comma": "," in sep, "inputs": texts}


# ---------------------------------------------------------------- judging
def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


def judge(case, obs):
    kind = case["kind"]
    if kind == "whole":
        return whole(case, obs)
    if kind == "date":
        return date(case, obs)
    if kind == "list":
        return lists(case, obs)
    return scan(case, obs)


def parts_of(r, names):
    return {n: r[n] for n in names}


DATE_NAMES = ("year", "month", "day", "hour", "minute", "second", "tz")


def whole(case, obs):
    name = case["name"]
    e = getattr(H, name)
    if case["use"] == "copy":
        e = e.copy()
    elif case["use"] == "named":
        e = e("it")
    elif case["use"] == "group":
        e = m.Group(e)
    for s in case["inputs"]:
        if s[:1].isspace() and (name != "restOfLine" or case["use"] == "group"):
            continue  # depends on the whitespace of the parser
        if name == "ipv6_address" and s != s.rstrip():
            continue
        try:
            want = P[name](s, 0)
        except Skip:
            continue
        if want and want[0] < len(s):
            if not s[want[0] :].strip():
                continue  # depends on the whitespace of the parser
            want = None
        real = attempt(lambda: e.parse_string(s, parse_all=True))
        if real[0] not in ("ok", "fail"):
            return obs.violate("raised", "%s on %r: %r" % (name, s, real[:3]))
        ok = real[0] == "ok"
        if "ipv6" in name:
            obs.hit("ipv6 accepted" if want else "ipv6 refused")
        if "omment" in name:
            obs.hit("comments")
        obs.hit("whole accepted" if want else "whole refused")
        if ok != bool(want):
            return obs.violate("accepts" if ok else "refuses", "%s %s %r, it %s" % (name, "accepts" if ok else "refuses", s, "is %r" % (want[1],) if want else "is not one"))
        if not ok:
            continue
        obs.mark()
        r = real[1]
        got = list(r)
        if len(got) == 1 and isinstance(got[0], m.ParseResults):
            got = list(got[0])  # Group
        if name.startswith("iso8601"):
            got = [s[r.start : r.end]]
            for n in DATE_NAMES:
                obs.hit("named parts")
                if case["use"] == "plain" and (r[n] or None) != (want[2].get(n) or None):
                    return obs.violate("part", "%s of %r: %s is %r, not %r" % (name, s, n, r[n], want[2].get(n)))
        elif name == "restOfLine" and not want[1]:
            got = got or [""]
        if len(got) != 1 or not same(got[0], want[1]):
            return obs.violate("value", "%s of %r is %r, not %r" % (name, s, got, want[1]))
        if case["use"] == "named" and not name.startswith("iso") and want[1] != "" and not same(r["it"], want[1]):
            return obs.violate("name", "%s of %r named it: %r, not %r" % (name, s, r["it"], want[1]))
        obs.distinct("values", (name, repr(want[1])))


def date(case, obs):
    what = case["what"]
    if what == "date":
        e = H.iso8601_date.copy() / H.convertToDate()
    else:
        e = H.iso8601_datetime.copy() / H.convertToDatetime()
    if case["inside"]:
        e = e | m.Word("0123456789-:T .Z") / (lambda t: "text")
    for s in case["inputs"]:
        try:
            found = (iso_date if what == "date" else iso_datetime)(s, 0)
        except Skip:
            continue
        if found and found[0] < len(s):
            found = None
        want = None
        if found:
            p = found[2]
            try:
                if what == "date":
                    want = datetime.date(int(p["year"]), int(p["month"]), int(p["day"]))
                elif "T" in s and "tz" not in p and "." in p["second"] and 1 <= len(p["second"]) - 3 <= 6:
                    sec, _, fr = p["second"].partition(".")
                    if int(sec) in (60, 61):
                        continue  # strptime takes them in its own way
                    want = datetime.datetime(int(p["year"]), int(p["month"]), int(p["day"]), int(p["hour"]), int(p["minute"]), int(sec), int(fr.ljust(6, "0")))
            except (ValueError, KeyError):
                want = None
        real = attempt(lambda: e.parse_string(s, parse_all=True))
        if real[0] not in ("ok", "fail"):
            return obs.violate("raised", "%s on %r: %r" % (what, s, real[:3]))
        got = list(real[1]) if real[0] == "ok" else None
        if got and isinstance(got[0], m.ParseResults):
            got = list(got[0])
        obs.hit("dates converted" if want else "dates refused")
        if want is None and case["inside"]:
            if got != ["text"] and not (found is None and got is None):
                return obs.violate("date", "%r is not a %s, the other alternative applies, got %r" % (s, what, got))
            continue
        if (got is None) != (want is None) or got and (len(got) != 1 or not same(got[0], want)):
            return obs.violate("date", "%r gives %r, not %r" % (s, got, want))
        if want:
            obs.mark()
            obs.distinct("values", (what, repr(want)))


def first(names, s, i):
    for n in names:
        r = P[n](s, i)
        if r:
            return n, r
    return None


def lists(case, obs):
    names = case["names"]
    alt = m.MatchFirst([m.Group(getattr(H, n))(n) for n in names])
    with m.whitespaces.Whitespace(" \t\r\n"):
        e = m.OneOrMore(alt if not case["comma"] else alt + m.Optional(m.Suppress(",")))
    for s in case["inputs"]:
        want, i, ends = [], 0, [0]
        try:
            while True:
                j = white(s, i)
                r = first(names, s, j)
                if not r:
                    break
                want.append((r[0], r[1][1], r[1][2]))
                i = r[1][0]
                if case["comma"]:
                    j = white(s, i)
                    if s[j : j + 1] == ",":
                        i = j + 1
        except Skip:
            continue
        real = attempt(lambda: e.parse_string(s))
        if real[0] not in ("ok", "fail"):
            return obs.violate("raised", "list of %s on %r: %r" % (names, s, real[:3]))
        obs.hit("lists")
        if (real[0] == "ok") != bool(want):
            return obs.violate("list", "%s on %r: %r, not %r" % (names, s, real[0] == "ok" and list(real[1]), want))
        if not want:
            continue
        obs.mark()
        r = real[1]
        if white(s, r.end) != white(s, i):
            return obs.violate("list end", "%s on %r: ends at %d, not %d: %r, not %r" % (names, s, r.end, i, list(r), want))
        groups = list(r)
        if len(groups) != len(want):
            return obs.violate("list", "%s on %r: %r, not %r" % (names, s, groups, want))
        for g, (n, v, parts) in zip(groups, want):
            obs.hit("values in lists")
            if g.name != n:
                return obs.violate("list kind", "%s on %r: %r is taken as %s, not %s" % (names, s, v, g.name, n))
            if n.startswith("iso8601"):
                g = g[0] if isinstance(g[0], m.ParseResults) else g
                bad = [k for k in DATE_NAMES if (g[k] or None) != (parts.get(k) or None)]
                if bad:
                    return obs.violate("part", "%s of %r: %s" % (n, v, bad))
                continue
            got = list(g)
            if len(got) != 1 or not same(got[0], v):
                return obs.violate("list value", "%s on %r: %r, not %r" % (names, s, got, v))
        obs.distinct("lists", repr(want))


def scan(case, obs):
    name = case["names"][0]
    if name in ("fraction", "mixed_integer"):
        return
    e = getattr(H, name)
    for s in case["inputs"]:
        want, i = [], 0
        try:
            while i <= len(s):
                r = P[name](s, i)
                if r and r[0] > i:
                    want.append((i, r[0], r[1]))
                    i = r[0]
                else:
                    i += 1
        except Skip:
            continue
        real = attempt(lambda: [(b, c, list(t)) for t, b, c in e.scan_string(s)])
        if real[0] != "ok":
            return obs.violate("raised", "%s scanning %r: %r" % (name, s, real[:3]))
        obs.hit("scans")
        obs.hit("found by scans", len(want))
        if want:
            obs.mark()
        iso = name.startswith("iso8601")
        got = [(b, c, s[b:c] if iso else t[0]) for b, c, t in real[1]]
        if len(got) != len(want) or any(x[:2] != y[:2] or not same(x[2], y[2]) for x, y in zip(got, want)):
            return obs.violate("scan", "%s in %r: %r, not %r" % (name, s, got, want))
