"""Drive the real code and reduce what it did to plain comparable values."""
from rv import env as m
from rv.model import view, kinds_in
from rv.monitor import CPU_LIMIT, guard


def attempt(fn, limit=CPU_LIMIT):
    """
    -> ("ok", value) | ("fail", ParseException) | ("exc", type name, message) ; Hang passes through
    """
    try:
        with guard(limit):
            return ("ok", fn())
    except m.ParseException as e:
        return ("fail", e)
    except RecursionError:
        return ("deep", "RecursionError")
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:400])


def shape(out):
    """outcome without the identity of objects"""
    if out[0] == "ok":
        return out
    if out[0] == "fail":
        return ("fail",)
    return out


def build(builder, spec, pre="none"):
    """
    the element under test, possibly prepared in one of the ways that must make no difference
    """
    e = builder.b(spec)
    if pre == "finalize":
        return e.finalize()
    if pre == "streamline":
        return e.streamline()
    if pre == "copy":
        return e.copy()
    if pre == "twice":
        e.finalize()
        return e.finalize()
    return e


STYLE = ("op", "str", "slice", "ilshift")


def draw_style(rng):
    return {k: rng.random() < 0.5 for k in STYLE}


def top_is_regex(sp):
    while sp[0] in ("group", "suppress", "name", "combine", "pname", "act", "cond", "noop", "copy", "opt", "zom", "oom", "many", "not", "ahead", "skipto"):
        sp = sp[1]
    return sp[0] in ("re",)


def plain_top(sp):
    """
    the whitespace at the very start belongs to the top expression: make that unambiguous
    (a Regex says "no whitespace", and alternatives with different whitespace are refused by the library)
    """
    if top_is_regex(sp) or "ws" in kinds_in(sp):
        return ["and", [sp, ["empty"]]]
    return sp


def parse_view(e, s, parse_all=False):
    r = e.parse_string(s, parse_all=parse_all)
    return (r.end, view(r))


def want_view(node):
    """what the top level result should look like; a named group at the top is returned inside its enclosing result"""
    v = node.view()
    if node.name and node.group:
        return [v]
    return v


def at(s, end):
    """
    whether the end of a match includes the whitespace around an absent optional element at the end is not specified,
    so ends are compared after skipping whitespace
    """
    while end < len(s) and s[end] in " \t\r\n":
        end += 1
    return end


def plain(v):
    """nested plain form of anything found in a result"""
    if isinstance(v, m.ParseResults):
        return [plain(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def named_plain(r, names):
    out = {}
    for n in names:
        v = r[n]
        if v is m.mo_parsing.results.NO_RESULTS:
            continue
        out[n] = plain(v)
    return out


def spec_names(sp, acc=None):
    from rv.model import sub_specs

    acc = set() if acc is None else acc
    if sp[0] == "name":
        acc.add(sp[2])
    for k in sub_specs(sp):
        spec_names(k, acc)
    return acc


def map_spec(sp, fn):
    """rebuild bottom-up, fn(spec) -> spec"""
    from rv.model import KIDS

    w = KIDS.get(sp[0])
    sp = list(sp)
    if w == "list":
        sp[1] = [map_spec(k, fn) for k in sp[1]]
    elif w is not None:
        sp[w] = map_spec(sp[w], fn)
        if sp[0] == "skipto":
            for j in (2, 3, 4):
                if isinstance(sp[j], list):
                    sp[j] = map_spec(sp[j], fn)
        if sp[0] in ("many", "zom", "oom") and isinstance(sp[-1], list):
            sp[-1] = map_spec(sp[-1], fn)
    elif sp[0] == "let":
        sp[1] = {k: map_spec(v, fn) for k, v in sp[1].items()}
        sp[2] = map_spec(sp[2], fn)
    return fn(sp)


def ref_named(node, names):
    """what the names give on the result of a parse whose reference tree is node"""
    from rv.model import N

    base = N("top", node.start, node.end, [node]) if node.name else node
    out = {}
    for n in names:
        vals = base.by_name(n)
        if not vals:
            continue
        flat = []
        for v in vals:
            if not isinstance(v, N):
                flat.append(v)
            elif v.ann:
                continue
            elif v.group or len(vals) == 1:
                flat.append(v.view())
            else:
                flat.extend(v.view())
        out[n] = flat[0] if len(vals) == 1 and flat else flat
    return out
