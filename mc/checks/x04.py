"""X04: whole lassos over in-memory sheets: scalar or rows & columns of the model's rectangle."""
import copy
import datetime
import itertools as itt

import numpy as np
from pandalone import xleash
from pandalone.xleash import ArraySheet, Coords, EmptyCaptureException

from .. import lib, refxl

PID = "X04"
BOUNDS = {
    "quick": "every full/empty pattern of sheets up to 2x3 and 3x2 (and the 0-sized ones), holding numbers, texts, booleans, dates, NaN and falsy values, "
    "given as nested lists and as arrays x 12 1st edges x no/11 2nd edges x 5 expansions, x empty captures tolerated, refused by the xl-ref, or by base opts; "
    "every pattern up to 2x3 in Excel files of 3 layouts x a third of these captures; "
    "and single full columns (rows) of 18 lengths up to 65537 (16384) cells around the powers of two x 15-17 xl-refs",
    "thorough": "also 3x3, 1x4 and 4x1 sheets and 12 expansions",
}
VALUES = [7, "txt", 0, "", False, 2.5, datetime.datetime(2001, 2, 3, 4, 5), "é\n'\"", True, -1e300, 1 << 70, "None"]
FIRST = [
    ("", None),
    ("A1", ("1", "A", None, None)),
    ("^^", ("^", "^", None, None)),
    ("A1(RD)", ("1", "A", "RD", None)),
    ("__(UL+)", ("_", "_", "UL", "+")),
    ("B2", ("2", "B", None, None)),
    ("C3", ("3", "C", None, None)),
    ("D_(L)", ("_", "D", "L", None)),
    ("R-1C-1", ("-1", "-1", None, None)),
    ("B4(U)", ("4", "B", "U", None)),
    ("A1(DR+)", ("1", "A", "DR", "+")),
    ("R.C.", (".", ".", None, None)),
]
SECOND = [
    ("", None),
    ("..", (".", ".", None, None)),
    ("..(RD)", (".", ".", "RD", None)),
    ("..(DL-)", (".", ".", "DL", "-")),
    ("__", ("_", "_", None, None)),
    ("A1", ("1", "A", None, None)),
    ("B2", ("2", "B", None, None)),
    ("D4", ("4", "D", None, None)),
    ("C1(LD)", ("1", "C", "LD", None)),
    (".3(U)", ("3", ".", "U", None)),
    ("^^(R+)", ("^", "^", "R", "+")),
]
EXPS = ["", "LURD", "R1D", "U1", "DL2"]
FILES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)]
MORE = ["L", "R", "U", "D", "R2", "LD?", "URDL1"]
SIZES = [(0, 0), (1, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]
BASE = Coords(1, 0)


def cases(tier):
    deep = tier != "quick"
    for h, w in SIZES + ([(1, 4), (4, 1), (3, 3)] if deep else []):
        for bits in range(1 << (h * w)):
            yield (h, w, bits, deep)
            if h * w < 5:
                yield (h, w, bits, deep, 5)
    for h, w in FILES + ([(3, 2)] if deep else []):
        for bits in range(1 << (h * w)):
            for layout in ("plain", "blanks", "trailing"):
                yield ("file", h, w, bits, layout, deep)
    for n in TALL:
        for across in (False, True):
            if n < 20000 or not across:
                for off in (0, 3):
                    yield ("big", n, across, off)


TALL = [26, 27, 52, 127, 128, 129, 255, 256, 257, 702, 703, 16384, 32767, 32768, 32769, 65535, 65536, 65537]


def excel_col(n):
    s = ""
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def big(ck, n, across, off):
    """A single full vector of `n` cells, from `off` on, with the model computed by hand."""
    total = n + off + 2
    vals = [i if off <= i < off + n else None for i in range(total)]
    vec = vals[off : off + n]
    last = off + n - 1
    if across:
        sheet = ArraySheet([vals])
        name, margin, moves, at = (lambda i: excel_col(i) + "1"), (lambda m: m + "1"), ("R", "L"), (lambda i: (0, i))
        shape = lambda v: [v]
        rc = lambda i: "R1C%i" % (i + 1)
        out = excel_col(total + 3) + "1(LU)"
    else:
        sheet = ArraySheet([[v] for v in vals])
        name, margin, moves, at = (lambda i: "A%i" % (i + 1)), (lambda m: "A" + m), ("D", "U"), (lambda i: (i, 0))
        shape = lambda v: [[i] for i in v]
        rc = lambda i: "R%iC1" % (i + 1)
        out = "A%i(UL)" % (total + 4)
    fwd, bck = moves
    refs = [
        ("#" + margin("_"), last, at(last), None),
        ("#" + margin("^"), off, at(off), None),
        ("#__", last, at(last), None),
        ("#" + name(last), last, at(last), None),
        ("#" + rc(last), last, at(last), None),
        ("#" + (("R1C-1" if across else "R-1C1")), last, at(last), None),
        ("#%s(%s+)" % (name(off), fwd), last, at(last), None),
        ("#%s(%s)" % (name(total - 1), bck), last, at(last), None),
        ("#" + out, last, at(last), None),
        ("#:", vec, at(off), at(last)),
        ("#^^:__", vec, at(off), at(last)),
        ("#^^:..(%s)" % fwd, vec, at(off), at(last)),
        ("#%s(%s):%s(%s+)" % (name(0), fwd, name(off), fwd), vec, at(off), at(last)),
        ("#%s:%s" % (name(last - 1), name(last)), vec[-2:], at(last - 1), at(last)),
        ("#%s(%s):%s" % (name(total - 1), bck, name(off)), vec, at(off), at(last)),
    ]
    if n < 2000:
        refs += [("#%s::%s" % (name(off + n // 2), "LURD"), vec, at(off), at(last)), ("#^^::%s" % fwd, vec, at(off), at(last))]
    for text, want, a, z in refs:
        ck.step()
        ck.state((n, across, off, text))
        st, got = lib.outcome(xleash.lasso, text, sheet=sheet, return_lasso=True)
        if not ck.check(st == "ok", "big-error", "%r on %i cells gave %r", text, n, got):
            continue
        ck.check((tuple(got.st), got.nd and tuple(got.nd)) == (a, z), "big-rect", "%r on %i cells captured %r:%r, not %r:%r", text, n, got.st, got.nd, a, z)
        vals = got.values if z is None else list(itt.chain(*got.values))
        ok = vals == want and (z is None or len(got.values) == (1 if across else len(want)))
        ck.check(ok, "big-values", "%r on %i cells gave %s, not %s", text, n, str(got.values)[:80], str(want)[:80])


def grid(h, w, bits, off):
    return [[VALUES[(i * w + j + off) % len(VALUES)] if bits >> (i * w + j) & 1 else None for j in range(w)] for i in range(h)]


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


def rect_ok(got, data, rect):
    """Rows & columns of the rect in order; cells beyond the sheet's limits may be absent or None."""
    (r1, c1), (r2, c2) = rect
    h, w = len(data), len(data[0]) if data else 0
    if not isinstance(got, list) or not all(isinstance(r, list) for r in got):
        return False
    nrows, ncols = r2 - r1 + 1, c2 - c1 + 1
    inrows, incols = max(0, min(r2 + 1, h) - r1), max(0, min(c2 + 1, w) - c1)
    if not inrows <= len(got) <= nrows:
        return False
    for i, row in enumerate(got):
        if len(row) > ncols or i < inrows and len(row) < incols:
            return False
        for j, v in enumerate(row):
            r, c = r1 + i, c1 + j
            if not same(v, data[r][c] if r < h and c < w else None):
                return False
    return True


def run_case(ck, case):
    if case[0] == "big":
        return big(ck, *case[1:])
    if case[0] == "file":
        from . import x09

        return x09.run_pattern(ck, *case[1:])
    h, w, bits, deep = case[:4]
    off = case[4] if len(case) > 4 else 0
    data = grid(h, w, bits, off)
    full = {(i, j) for i in range(h) for j in range(w) if data[i][j] is not None}
    arr = np.empty((h, w), dtype=object)
    for i, j in itt.product(range(h), range(w)):
        arr[i, j] = data[i][j]
    lists = copy.deepcopy(data)
    kept = arr.copy()
    sheets = [ArraySheet(lists), ArraySheet(arr)]
    for n, ((t1, e1), (t2, e2), exp, based) in enumerate(itt.product(FIRST, SECOND, EXPS + (MORE if deep else []), (0, 1))):
        if based and t1 != "R.C.":
            continue
        text = "#" + t1
        # A lone fragment-less reference means '^^:__'.
        if not t1 and not t2 and not exp:
            text += ":"
            st, nd = ("^", "^", None, None), ("_", "_", None, None)
        elif not t2 and not exp:
            st, nd = e1, None
        else:
            text += ":" + t2 + (":" + exp if exp else "")
            st, nd = e1 or ("^", "^", None, None), e2 or ("_", "_", None, None)
        ck.state((h, w, bits, text))
        sheet = sheets[n % 2 if h * w > 4 else n % 3 % 2]
        kwds = {"base_coords": BASE} if based else {}
        want = None
        try:
            if not h * w:
                want = ("empty",)
            else:
                want = ("rect",) + refxl.capture(full, st, nd, refxl.expansions(exp) if exp else None, tuple(BASE) if based else None, 12)
        except refxl.Empty:
            want = ("empty",)
        except refxl.Value:
            want = ("value",)
        if want[0] == "value" or not h * w and "." in st[:2] or not h * w and "-1" in st[:2]:
            ck.step()
            got = lib.outcome(xleash.lasso, text, sheet=sheet, **kwds)
            if want[0] == "value":
                ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "not-refused", "%r gave %r", text, got)
            continue
        if want[0] == "empty":
            ck.step(4)
            for t, kw in ((text, {}), (text, {"base_opts": {"lax": False, "no_empty": False}})):
                got = lib.outcome(xleash.lasso, t, sheet=sheet, **dict(kwds, **kw))
                ck.check(got == ("ok", []), "empty", "%r on %r gave %r, not []", t, data, got)
            for t, kw in ((text + ':{"opts": {"no_empty": true}}', {}), (text, {"base_opts": {"no_empty": True}})):
                got = lib.outcome(xleash.lasso, t, sheet=sheet, **dict(kwds, **kw))
                ck.check(got[0] == "ex" and isinstance(got[1], EmptyCaptureException), "no_empty", "%r with %r on %r gave %r, no EmptyCaptureException", t, kw, data, got)
            continue
        a, z = want[1:]
        ck.step()
        if based and (n + bits) % 2:  # The sheet as the first of a workbook.
            with xleash.SheetsFactory() as sf:
                sf.add_sheet(sheet, "wb")
                got = lib.outcome(xleash.lasso, "wb" + text, sheets_factory=sf, return_lasso=True, **kwds)
        else:
            got = lib.outcome(xleash.lasso, text, sheet=sheet, return_lasso=True, **kwds)
        if z is None:
            if a[0] < h and a[1] < w:
                ck.check(got[0] == "ok" and same(got[1].values, data[a[0]][a[1]]), "scalar", "%r on %r gave %r, not %r", text, data, got, data[a[0]][a[1]])
            else:
                ck.check(got[0] == "ex" or got[1].values is None, "scalar", "%r beyond %r gave %r", text, data, got)
        elif ck.check(got[0] == "ok", "error", "%r on %r gave %r", text, data, got):
            ck.check(rect_ok(got[1].values, data, (a, z)), "values", "%r on %r gave %r, not the cells of %r", text, data, got[1].values, (a, z))
            scribble(got[1].values)
        if got[0] == "ok":
            ck.check((tuple(got[1].st), got[1].nd and tuple(got[1].nd)) == (a, z), "rect", "%r on %r captured %r:%r, not %r:%r", text, data, got[1].st, got[1].nd, a, z)
    ck.check(lists == data and all(same(a, b) for a, b in zip(arr.flat, kept.flat)), "modified", "sheet modified: %r, %r, originally %r", lists, arr, data)


def scribble(values):
    """Writing on results must not reach the sheet."""
    if values and values[0]:
        values[0][0] = "SCRIBBLE"
        values.append(1)
