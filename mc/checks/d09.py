"""D09: column headers split into name and units."""
import itertools as itt

from pandalone.pandata import parse_value_with_units

from .. import lib

PID = "D09"
CHARS = ["a", " ", "[", "]", "<", ">", "\u03b1", "/", "("]
NAMES = ["", "a", "a b", "value", "a  b", "x/y", "m.3", "\u03b1\u03b2", "a]", "a>", "a(b)", "-", "1"]
UNITS = ["", "u", "bar/krow", "m s", " u", "u ", "m^2", "%", "(u)", "\u03b1", "1", "]", "u>v", "u<v", "[u", "u[", "<u", "a-b"]
BLANKS = ["", " ", "  ", "\t", "\n", "\u00a0"]
LINES = ["a", "\n", "[", "]", "<", ">", "\r"]
BOUNDS = {
    "quick": "all texts of up to 7 characters of %r; all names (%i) x units (%i) x delimiters x blanks around each part; all texts of up to 6 of %r; names & units of up to 1000 characters" % (CHARS, len(NAMES), len(UNITS), LINES),
    "thorough": "all texts of up to 8 characters",
}
ASSUMPTIONS = [
    "Not decided: angled units holding angles or closing parentheses (the notation is "
    "ambiguous there).",
]


def cases(tier):
    for n in range(4):
        for t in itt.product(CHARS, repeat=n):
            yield ("text", "".join(t))
    for t in itt.product(CHARS, repeat=4):
        yield ("ext", "".join(t))
    for n in range(1, 7):
        for t in itt.product(LINES, repeat=min(n, 3)):
            yield ("lines", "".join(t), max(0, n - 3))
    for n in list(range(3, 41)) + [100, 255, 256, 257, 1000]:
        yield ("size", n)
    for n in NAMES:
        for u in UNITS:
            yield ("asm", n, u)


def ref_parse(s):
    """(name, units) | None, or Unspecified."""
    i = min([s.find(c) for c in "[<" if c in s] or [-1])
    if i < 0:
        return s.strip(), None
    name, rest = s[:i].strip(), s[i:].rstrip()
    close = {"[": "]", "<": ">"}[rest[0]]
    if close not in rest:
        return None
    inner = rest[1:-1]
    if rest[0] == "[":
        if rest.index("]") != len(rest) - 1:
            return None
    else:
        if rest[-1] != ">":
            return None
        if set(inner) & set("<>)"):
            raise Unspecified
    return name, inner


class Unspecified(Exception):
    pass


def one(ck, s):
    try:
        exp = ref_parse(s)
    except Unspecified:
        return
    got = parse_value_with_units(s)
    ck.step()
    ck.state(exp)
    if exp is None:
        ck.check(got is None, "refuse", "%r should be refused, but parsed as %r", s, got)
    else:
        ck.check(got is not None and tuple(got) == exp and got.name == exp[0] and got.units == exp[1], "parse", "%r parsed as %r, expected %r", s, got, exp)


def run_case(ck, case):
    if case[0] == "text":
        one(ck, case[1])
    elif case[0] == "ext":
        for n in range(4 if ck.quick else 5):
            for t in itt.product(CHARS, repeat=n):
                one(ck, case[1] + "".join(t))
    elif case[0] == "size":
        for x, y in itt.product(["a", "a b", "1", "\u03b1", "-/"], repeat=2):
            n, u = (x * case[1])[: case[1]].strip(), (y * case[1])[: case[1]].strip()
            for s in (n, "%s [%s]" % (n, u), "%s <%s>" % (n, u), "a[%s]" % u, "%s<m>" % n, n + " " * case[1] + "[m]", n + "[m" + " " * case[1] + "]", "%s [%s" % (n, u), "%s [%s] x" % (n, u)):
                one(ck, s)
    elif case[0] == "lines":
        for t in itt.product(LINES, repeat=case[2]):
            one(ck, case[1] + "".join(t))
    else:
        _, n, u = case
        for (o, c), b in itt.product(("[]", "<>"), itt.product(BLANKS, repeat=3)):
            s = b[0] + n + b[1] + o + u + c + b[2]
            if set(n) & set("[<"):
                continue
            one(ck, s)
            for tail in ("x", "[u]", "]", ">", "<"):
                one(ck, s + tail)
            if not (set(u) & set("[]<>)")) and u == u.strip():
                got = parse_value_with_units(s)
                ck.check(got is not None and got == (n, u), "assembled", "%r assembled from %r and %r parsed as %r", s, n, u, got)
        one(ck, n)
