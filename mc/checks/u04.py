"""U04: boolean texts."""
import itertools as itt

from pandalone.utils import obj2bool, str2bool

from .. import lib

PID = "U04"
TRUE = ["yes", "true", "on"]
FALSE = ["no", "false", "off", "0", ""]
BLANKS = ["", " ", "  ", "\t", "\n", " \t", "\r\n", "\u00a0", "\x0b\x0c"]
CHARS = ["0", "1", "o", "n", "f", "N", "F", " ", "-", ".", "y", "E", "s", "\u0130", "x"]
BOUNDS = {
    "quick": "every letter-case of the 8 words x all pairs of %i blanks around them, and one char inserted, dropped or doubled anywhere; "
    "up to 4097 blanks around, or repetitions of, them; every text up to length 4 of %i characters; a list of non-texts with their truth" % (len(BLANKS), len(CHARS)),
    "thorough": "every text up to length 5",
}


class Odd(object):
    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def strip(self):
        return "off"


class Sized(object):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n



class Text(str):
    pass


NONTEXTS = [
    None, True, False, 0, 1, -1, 2.5, 0.0, float("nan"), float("inf"), 0j, 1j, (), (0,), [], [False], {}, {"no": 0}, set(), {0}, object, object(), range(0), range(3), Sized(0), Sized(2),
    ["off"], ("no",), {"off": 1}, ["0"],
]
ASSUMPTIONS = ["bytes are left out (they have texts' methods, but compare with no text)"]


def cases(tier):
    for w in TRUE + FALSE:
        for up in itt.product((0, 1), repeat=len(w)):
            yield ("word", "".join(c.upper() if u else c for c, u in zip(w, up)))
    for n in (0, 1, 2):
        for pre in itt.product(CHARS, repeat=n):
            yield ("text", "".join(pre), 0 if n < 2 else (2 if tier == "quick" else 3))
    yield ("objects",)
    for size in (3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 255, 256, 257, 1024, 4097):
        yield ("long", size)


def expected(t):
    t = t.strip().lower()
    return t not in FALSE


def both(ck, text, exp):
    for t in (text, Text(text)):
        ck.step(2)
        for fn in (str2bool, obj2bool):
            st, got = lib.outcome(fn, t)
            ck.check(st == "ok" and got is exp, fn.__name__, "%s(%r) gave %r, not %r", fn.__name__, t, got, exp)
    ck.state((text, exp))


def run_case(ck, case):
    if case[0] == "word":
        w = case[1]
        variants = [w] + [w[:i] + c + w[i:] for i in range(len(w) + 1) for c in CHARS] + [w[:i] + w[i + 1 :] for i in range(len(w))]
        for a, b in itt.product(BLANKS, repeat=2):
            for v in variants:
                both(ck, a + v + b, expected(v))
    elif case[0] == "long":
        n = case[1]
        for w in TRUE + FALSE + ["x", "maybe", "1", "00", "nono", "offf"]:
            for a, b in (("", " " * n), (" " * n, ""), ("\t\n" * n, "\r\u00a0" * n), ("x", " " * n), (" " * n, "."), (w * n, ""), ("", w * n)):
                for t in (a + w + b, a + w.upper() + b, a + w.title() + b):
                    both(ck, t, expected(t))
    elif case[0] == "text":
        for n in range(case[2] + 1):
            for more in itt.product(CHARS, repeat=n):
                t = case[1] + "".join(more)
                both(ck, t, expected(t))
    else:
        for i, v in enumerate(NONTEXTS):
            ck.step(2)
            ck.state(i)
            st, got = lib.outcome(str2bool, v)
            ck.check(st == "ex" and isinstance(got, ValueError), "str2bool-nontext", "str2bool(%r) gave %r", v, got)
            st, got = lib.outcome(obj2bool, v)
            ck.check(st == "ok" and got is bool(v), "obj2bool-nontext", "obj2bool(%r) gave %r", v, got)
