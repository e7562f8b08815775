"""U08: text helpers (names, listings, first lines, writing to loggers), for every short text, against by-hand references."""
import itertools as itt
import logging
import string
from collections import OrderedDict, deque

from pandalone import utils
from pandalone.utils import LoggerWriter

from .. import lib

PID = "U08"
CAMEL = "aB0_- É"
LINES = ["\n", " ", "\t", "a", "b:", "\r", "\x0b"]
WRITE = ["a", "%", "s", "\n", "\r", " ", "{}"]
KEYS = ["", "k", "abc", "abcd", "abcde", "x" * 8, "x" * 9, "%s", "é"]
VALUES = [1, "v", None, (1,), (1, 2), {"a": 1}, "%d", [], "x\ny"]
BOUNDS = {
    "quick": "texts, keys, listings and writes of 27 sizes up to 4097; names: every text of up to 6 characters of %r; lines: every text of up to 6 out of %r; logging: every sequence of up to 3 writes of texts of up to 4 pieces out of %r (single writes) or of a few ones; listings: every 2 pairs of %i keys x %i values x 4 indents; %s"
    % (CAMEL, LINES, WRITE, len(KEYS), len(VALUES), "sequences and non-sequences to lists"),
    "thorough": "one more character everywhere",
}


SIZES = [8, 9, 15, 16, 17, 20, 31, 32, 33, 64, 65, 72, 79, 80, 81, 100, 120, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4096, 4097]


def cases(tier):
    for n in SIZES:
        yield ("long", n)
    more = tier != "quick"
    for pre in itt.product(CAMEL, repeat=2):
        yield ("camel", "".join(pre), 4 + more)
    for pre in itt.product(LINES, repeat=2):
        yield ("lines", "".join(pre), 4 + more)
    for pre in itt.product(WRITE, repeat=1):
        yield ("write", "".join(pre), 4 + more)
    yield ("writes", 3 + more)
    for k1, k2 in itt.product(range(len(KEYS)), repeat=2):
        yield ("pairs", k1, k2)
    yield ("aslist",)


def texts(pre, alphabet, n):
    for k in range(n + 1):
        for t in itt.product(alphabet, repeat=k):
            yield pre + "".join(t)
    for k in range(len(pre)):
        yield pre[:k]


def ref_snake(s):
    out = []
    for prev, c in zip(" " + s, s):
        if c in string.ascii_uppercase and prev in string.ascii_lowercase + string.digits:
            out.append("_")
        out.append(c.lower())
    return "".join(out)


def ref_first(doc):
    for l in doc.split("\n"):
        if l.strip():
            return l.strip()


class Kept(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.recs = []

    def emit(self, record):
        self.recs.append((record.levelno, record.getMessage()))


def log_writes(level, msgs):
    logger = logging.Logger("vp-u08", 1)
    h = Kept()
    logger.addHandler(h)
    dis = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        w = LoggerWriter(logger, level)
        for m in msgs:
            w.write(m)
            w.flush()
    finally:
        logging.disable(dis)
    return h.recs


def logged(level, msgs):
    """The records to be logged for some messages: each without its last line-ending, unless nothing remains."""
    cores = []
    for msg in msgs:
        for le in ("\r\n", "\n\r", "\n"):
            if msg.endswith(le):
                msg = msg[: len(msg) - len(le)]
                break
        if msg:
            cores.append((level, msg))
    return cores


def run_case(ck, case):
    kind = case[0]
    if kind == "camel":
        for s in texts(case[1], CAMEL, case[2]):
            ck.step(2)
            want = ref_snake(s)
            ck.state(("camel", want))
            got = lib.outcome(utils.camel_to_snake_case, s)
            ck.check(got == ("ok", want), "snake", "camel_to_snake_case(%r) gave %r, not %r", s, got, want)
            got = lib.outcome(utils.camel_to_cmd_name, s)
            ck.check(got == ("ok", want.replace("_", "-")), "cmd", "camel_to_cmd_name(%r) gave %r", s, got)
    elif kind == "lines":
        for s in texts(case[1], LINES, case[2]):
            ck.step()
            want = ref_first(s)
            ck.state(("first", want))
            got = lib.outcome(utils.first_line, s)
            ck.check(got == ("ok", want), "first-line", "first_line(%r) gave %r, not %r", s, got, want)
    elif kind == "write":
        for s in texts(case[1], WRITE, case[2]):
            for level in (10, 35):
                ck.step()
                got = log_writes(level, [s])
                ck.state(("log", got))
                want = logged(level, [s])
                ck.check(got == want, "logged", "writing %r logged %r, not %r", s, got, want)
    elif kind == "writes":
        some = ["", "a", "a\n", "\n", "b%s\r\n", "{x}", "two\nlines\n", "a\n\n", "\r\n\r\n"]
        for msgs in itt.product(some, repeat=case[1]):
            ck.step(len(msgs))
            got = log_writes(20, msgs)
            want = logged(20, msgs)
            ck.state(("logs", got))
            ck.check(got == want, "logged", "writing %r logged %r, not %r", msgs, got, want)
    elif kind == "pairs":
        for indent in (16, 4, 1, 3):
            for v1, v2 in itt.product(VALUES, repeat=2):
                for items in (
                    [(KEYS[case[1]], v1), (KEYS[case[2]], v2)],
                    [(KEYS[case[1]], v1)],
                    OrderedDict([(KEYS[case[1]], v1), (KEYS[case[2]] + "'", v2)]).items(),
                    [],
                ):
                    ck.step()
                    want = []
                    for k, v in items:
                        width = indent
                        while width < len(k):
                            width += indent
                        want.append(k + " " * (width - len(k)) + " = " + str(v))
                    ck.state(("pairs", want))
                    got = lib.outcome(utils.format_pairs, items, indent)
                    ck.check(got == ("ok", "\n".join(want)), "pairs", "format_pairs(%r, %r) gave %r, not %r", items, indent, got, want)
                    if indent == 16:
                        got = lib.outcome(utils.format_pairs, items)
                        ck.check(got == ("ok", "\n".join(want)), "pairs", "format_pairs(%r) gave %r, not %r", items, got, want)
    elif kind == "long":
        n = case[1]
        for s in ("a" * n, "A" * n, "aB" * n, "a B" * n, "ab0C" * n, "_" * n + "aB", "x" * n + "Y" + "z" * n):
            ck.step()
            got = lib.outcome(utils.camel_to_snake_case, s)
            ck.check(got == ("ok", ref_snake(s)), "snake", "camel_to_snake_case(%r) gave %r", s, got)
            got = lib.outcome(utils.camel_to_cmd_name, s)
            ck.check(got == ("ok", ref_snake(s).replace("_", "-")), "cmd", "camel_to_cmd_name(%r) gave %r", s, got)
        for s in ("a" * n, "\n" * n + "b" * n, " " * n + "c d" * n + " " * n + "\nno", "\n ".join(["line"] * n), "\n" * n):
            ck.step(2)
            got = lib.outcome(utils.first_line, s)
            ck.check(got == ("ok", ref_first(s)), "first-line", "first_line(%r) gave %r", s, got)
            for t in (s, s + "\n", s + "\r\n", s + "%s"):
                got = log_writes(20, [t, t])
                ck.check(got == logged(20, [t, t]), "logged", "writing %r twice logged %r", t, got)
        got = log_writes(20, ["w%i\n" % i for i in range(n)])
        ck.check(got == [(20, "w%i" % i) for i in range(n)], "logged", "%i writes logged %r", n, got)
        for indent in (16, 4, 1, n - 1, n, n + 1):
            for items in ([("k" * n, 1), ("j", "v" * n)], [("k%i" % i, i) for i in range(n)], [("m" * (i % 40), [i]) for i in range(n)]):
                want = []
                for k, v in items:
                    width = max(1, -(-len(k) // indent)) * indent
                    want.append(k + " " * (width - len(k)) + " = " + str(v))
                ck.step()
                got = lib.outcome(utils.format_pairs, items, indent)
                ck.check(got == ("ok", "\n".join(want)), "pairs", "format_pairs(%r, %r) gave %r", items, indent, got)
        for o in (list(range(n)), tuple(range(n)), range(n), "a" * n, {"k%i" % i: i for i in range(n)}):
            want = list(o) if isinstance(o, (list, tuple, range)) else [o]
            got = lib.outcome(utils.as_list, o)
            ck.check(got == ("ok", want), "as-list", "as_list(%r) gave %r", o, got)
        ck.state(("long", n))
    elif kind == "aslist":
        gen = iter([1, 2])
        for o, want in [
            ([], []), ((), []), ([1, 2], [1, 2]), ((1, (2, 3)), [1, (2, 3)]), (range(3), [0, 1, 2]), ("", [""]), ("ab", ["ab"]), (None, [None]), (0, [0]),
            ({"a": 1}, [{"a": 1}]), ({1, 2}, [{1, 2}]), ([None], [None]), ([[1]], [[1]]), (1.5, [1.5]), (gen, [gen]), (int, [int]), ({}, [{}]), (False, [False]),
        ]:
            ck.step()
            got = lib.outcome(utils.as_list, o)
            ck.state(("aslist", repr(want)))
            ck.check(got == ("ok", want) and type(got[1]) is list, "as-list", "as_list(%r) gave %r, not %r", o, got, want)
            if isinstance(o, list) and got[0] == "ok":
                was = list(o)
                got[1].append(9)
                ck.check(o == was, "as-list", "as_list() shares its argument: %r", o)
    else:
        raise AssertionError(kind)
