"""D01: JSON-pointer escaping and splitting."""
import itertools as itt

from jsonschema.exceptions import RefResolutionError

from pandalone import pandata

from .. import lib

PID = "D01"
CHARS = ["~", "/", "0", "1", "a", " ", "\u03b1", "\\", "."]
CORE = ["~", "/", "0", "1", "a"]
#: What other escapings may take for theirs.
ODD = ["~", "/", "%", "2", "F", "\n", "#", "A"]
SIZES = list(range(5, 41)) + [100, 1000]
BOUNDS = {
    "quick": "all strings up to length 6 over %r and 4 over %r; all lists of up to 3 strings of length <=2 over the former and of "
    "4 strings of length <=1; all strings up to length 4 over %r; every 2-character text repeated, and lists of them, up to 40, 100 & 1000 times" % (CORE, CHARS, ODD),
    "thorough": "strings up to length 8 / 6; lists of up to 3 strings of length <=2, 5 of length <=1, pairs of length <= 3",
}


def strings(chars, n):
    return ["".join(t) for k in range(n + 1) for t in itt.product(chars, repeat=k)]


def cases(tier):
    q = tier == "quick"
    for k in range((6 if q else 8) + 1):
        for t in itt.product(CORE, repeat=k):
            yield ("esc", "".join(t))
    for k in range((4 if q else 6) + 1):
        for t in itt.product(CHARS, repeat=k):
            if set(t) - set(CORE):
                yield ("esc", "".join(t))
    for k in range(5):
        for t in itt.product(ODD, repeat=k):
            if set(t) & set(ODD[2:]):
                yield ("esc", "".join(t))
    for n in SIZES:
        for t in itt.product(CORE, repeat=2):
            yield ("esc", "".join(t) * n)
            yield ("list", ("".join(t),) * n)
    two = strings(CORE, 2)
    for n in (0, 1, 2, 3):
        for t in itt.product(two, repeat=n):
            yield ("list", t)
    one = strings(CORE, 1)
    for n in (4,) if q else (4, 5):
        for t in itt.product(one, repeat=n):
            yield ("list", t)
    if not q:
        for t in itt.product(strings(CORE, 3), repeat=2):
            yield ("list", t)


def ref_escape(s):
    return "".join({"~": "~0", "/": "~1"}.get(c, c) for c in s)


def run_case(ck, case):
    kind, x = case
    if kind == "esc":
        e = pandata.escape_jsonpointer_part(x)
        ck.step()
        ck.state(e)
        ck.check("/" not in e, "slash", "escaped %r still has a slash: %r", x, e)
        ck.check(e == ref_escape(x), "escape", "%r escaped to %r", x, e)
        back = pandata.unescape_jsonpointer_part(e)
        ck.step()
        ck.check(back == x, "unescape", "%r escaped to %r and back to %r", x, e, back)
        # The text as a pointer: strict splitting accepts exactly '' and '/...'.
        st, got = lib.outcome(lambda: list(pandata.iter_jsonpointer_parts(x)))
        rst, rel = lib.outcome(lambda: list(pandata.iter_jsonpointer_parts_relaxed(x)))
        ck.step(2)
        if x == "" or x.startswith("/"):
            ck.check(st == "ok", "strict", "strict splitting of %r gave %r", x, got)
        else:
            ck.check(st == "ex" and isinstance(got, RefResolutionError), "strict-refusal", "strict splitting of %r gave %r", x, got)
        ck.check(rst == "ok" and len(rel) == x.count("/") + 1, "relaxed", "relaxed splitting of %r gave %r", x, rel)
        if st == "ok" and rst == "ok":
            ck.check([""] + got == rel, "agree", "strict %r and relaxed %r splitting of %r", got, rel, x)
    else:
        x = list(x)
        ptr = "".join("/" + pandata.escape_jsonpointer_part(s) for s in x)
        got = list(pandata.iter_jsonpointer_parts(ptr))
        ck.step()
        ck.state(ptr)
        ck.check(got == x, "parts", "parts of %r: %r, expected %r", ptr, got, x)
        rel = list(pandata.iter_jsonpointer_parts_relaxed(ptr))
        ck.check(rel == [""] + x, "rparts", "relaxed parts of %r: %r", ptr, rel)
        if x:
            got = list(pandata.iter_jsonpointer_parts_relaxed(ptr[1:]))
            ck.check(got == x, "relparts", "relaxed parts of %r: %r", ptr[1:], got)
