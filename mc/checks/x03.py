"""X03: coordinates in every notation denote the cell they describe."""
import itertools as itt

import numpy as np
from pandalone.xleash import ArraySheet, Cell, Coords, Edge, coords2Cell, lasso, parse_xlref, resolve_capture_rect

from .. import lib, refxl

PID = "X03"
ROWS = [str(i) for i in (1, 2, 3, 4, 7, 9, 10, 11, 100)] + ["-1", "-2", "-3", "-4", "-5", "-9", "^", "_", "."]
A1COLS = ["A", "b", "C", "D", "Z", "aA", "AZ", "BA", "ZZ", "AAA", "xfd", "^", "_", "."]
RCCOLS = ROWS
BAD = ["0", "", "a1", "1a", "-", "--1", "+", "1.5", "@", "%$", "-0", "00", "^^", "..", "A B", " A", "A ", "A\n", " ", "A-", "A_", "A.", "$A", "0X1", "1E1", "\u00e9", None]
LARGE = [26, 27, 100, 127, 128, 129, 255, 256, 257, 300, 703, 1000]
BOUNDS = {
    "quick": "all 16384 columns and rows up to 20000 and around 2^20, both ways; every margin of a 4x4 sheet x %i rows x %i columns (A1 & RC) x bases; "
    "%i malformed coordinates per axis; every full/empty pattern up to 3x3 cells for the margins; tall, wide and sparse sheets of %s rows or columns" % (len(ROWS), len(A1COLS) + len(RCCOLS), len(BAD), LARGE),
    "thorough": "also columns up to 4 letters, all rows up to 2^20, and patterns up to 4x4",
}


def cases(tier):
    deep = tier != "quick"
    for lo in range(0, 26 ** 4 if deep else 18500, 500):
        yield ("letters", lo)
    for lo in list(range(0, 1 << 20 if deep else 20000, 5000)) + [1048570]:
        yield ("rows", lo)
    for m in itt.product(range(4), repeat=4):
        if m[0] <= m[2] and m[1] <= m[3]:
            yield ("margins", m)
    for axis in (0, 1):
        for b in range(len(BAD)):
            yield ("bad", axis, b)
    for n in LARGE:
        for how in ("tall", "wide", "corner"):
            yield ("large", n, how)
    for h, w in itt.product(range(1, 5 if deep else 4), repeat=2):
        for first in range(1 << min(h * w, 4)):
            yield ("patterns", h, w, first)


def letters(n):
    out = ""
    n += 1
    while n:
        n, d = divmod(n - 1, 26)
        out = refxl.UPPER[d] + out
    return out


EMPTY = np.zeros((1, 1), dtype=bool)
O = (Coords(0, 0), Coords(0, 0))


def resolve(cell, margins=O, base=None, states=EMPTY):
    st, got = lib.outcome(resolve_capture_rect, states, margins, Edge(cell), None, None, base)
    return st, (got[0] if st == "ok" else got)


def same(got, exp):
    return tuple(int(i) for i in got) == tuple(exp)


def run_case(ck, case):
    kind = case[0]
    if kind == "letters":
        for n in range(case[1], case[1] + 500):
            name = letters(n)
            ck.step(3)
            ck.state(name)
            for text in (name, name.lower(), name.capitalize()):
                st, got = resolve(Cell("5", text))
                ck.check(st == "ok" and same(got, (4, n)), "column", "column %r gave %r, not %i", text, got, n)
            st, got = resolve(Cell("5", str(n + 1)))
            ck.check(st == "ok" and same(got, (4, n)), "rc-column", "column %i gave %r", n + 1, got)
            if n < 16384:  # what Excel has
                st, got = lib.outcome(coords2Cell, 4, n)
                ck.check(st == "ok" and got == Cell("5", name), "coords2Cell", "coords2Cell(4, %i) gave %r, not %r", n, got, name)
                if n % 97 == 0:
                    e = parse_xlref("#%s5" % name)["st_edge"].land
                    ck.check((e.row, e.col) == ("5", name), "parsed-cell", "%s5 parsed as %r", name, e)
    elif kind == "rows":
        for n in range(case[1], case[1] + 5000):
            if n >= 1048576:
                break
            ck.step(2)
            st, got = resolve(Cell(str(n + 1), "C"))
            ck.check(st == "ok" and same(got, (n, 2)), "row", "row %i gave %r", n + 1, got)
            st, got = lib.outcome(coords2Cell, n, 2)
            ck.check(st == "ok" and got == Cell(str(n + 1), "C"), "coords2Cell", "coords2Cell(%i, 2) gave %r", n, got)
        ck.state(case)
    elif kind == "margins":
        r1, c1, r2, c2 = case[1]
        margins = (Coords(r1, c1), Coords(r2, c2))
        states = np.zeros((4, 4), dtype=bool)
        states[r1, c1] = states[r2, c2] = states[r1, c2] = True
        for base in (None, (0, 0), (2, 3), (10, 7), (1, 0)):
            b = base or (None, None)
            for row in ROWS:
                for col, rc in [(c, 0) for c in A1COLS] + [(c, 1) for c in RCCOLS]:
                    ck.step()
                    try:
                        exp = (refxl.coord(row, r1, r2, b[0]), refxl.coord(col.upper(), c1, c2, b[1]))
                    except refxl.Value:
                        exp = None
                    st, got = resolve(Cell(row, col), margins, base and Coords(*base), states)
                    ck.state((case[1], base, exp))
                    if exp is None:
                        ck.check(st == "ex" and isinstance(got, ValueError), "not-refused", "Cell(%r, %r) with margins %r, base %r gave %r", row, col, margins, base, got)
                    else:
                        ck.check(st == "ok" and same(got, exp), "cell", "Cell(%r, %r) with margins %r, base %r gave %r, not %r", row, col, margins, base, got, exp)
                    # As 2nd edge, the base is the 1st target.
                    if base and exp is not None:
                        rect = [tuple(f(*p) for p in zip(b, exp)) for f in (min, max)]
                        for outer in (None, (5, 6), (0, 0)):  # The base of the 1st one is not of the 2nd.
                            st, got = lib.outcome(resolve_capture_rect, states, margins, Edge(Cell(str(b[0] + 1), str(b[1] + 1))), Edge(Cell(row, col)), None, outer and Coords(*outer))
                            ck.check(st == "ok" and same(got[0], rect[0]) and same(got[1], rect[1]), "2nd-cell", "Cell(%r, %r) after %r, based on %r, gave %r, not %r", row, col, base, outer, got, rect)
    elif kind == "bad":
        bad = BAD[case[2]]
        for good in ("1", "^", "_", "-1", "3"):
            cell = Cell(bad, good) if case[1] == 0 else Cell(good, bad)
            if bad == "" and case[1] == 1:
                continue  # nothing to convert in letters: left open
            for margins in (O, (Coords(1, 1), Coords(3, 3))):
                ck.step()
                st, got = resolve(cell, margins)
                ck.state((cell, margins))
                ck.check(st == "ex" and isinstance(got, ValueError), "bad-coord", "%r gave %r", cell, got)
    elif kind == "large":
        _, n, how = case
        h, w = {"tall": (n, 2), "wide": (2, n), "corner": (n, n)}[how]
        lo = (min(h - 1, n // 2), min(w - 1, n // 2))  # first full cell
        full = {(r, c) for r in range(lo[0], h) for c in range(lo[1], w)} if how != "corner" else {lo, (n - 1, n - 1)}
        vals = [[(r * n + c if (r, c) in full else None) for c in range(w)] for r in range(h)]
        sheet = ArraySheet(vals)
        up, dn = refxl.margins(full)
        mu, md = sheet.get_margin_coords()
        ck.step()
        ck.state(case)
        ck.check(same(mu, up) and same(md, dn), "margins", "margins of %r gave %r, not %r", case, (mu, md), (up, dn))
        near = lambda a, b, size: sorted({i for m in (0, a, b) for i in range(m - 1, m + 2) if 0 <= i < size})
        for r, c in itt.product(near(up[0], dn[0], h), near(up[1], dn[1], w)):
            texts = ["#%s%i" % (letters(c), r + 1), "#R%iC%i" % (r + 1, c + 1), "#R%iC%i" % (r - dn[0] - 1, c - dn[1] - 1) if r <= dn[0] and c <= dn[1] else None]
            if (r, c) == dn:
                texts += ["#__", "#R_C_"]
            if (r, c) == up:
                texts += ["#^^", "#R^C^"]
            for text in filter(None, texts):
                ck.step()
                got = lib.outcome(lasso, text, sheet=sheet)
                ck.check(got[0] == "ok" and got[1] == vals[r][c], "lasso-cell", "%s of %r gave %r, not %r", text, case, got, vals[r][c])
    else:
        h, w, first = case[1:]
        n = h * w
        low = min(n, 4)
        for rest in range(1 << (n - low)):
            bits = first | rest << low
            full = {divmod(i, w) for i in range(n) if bits >> i & 1}
            vals = [[(r, c).__repr__() if (r, c) in full else None for c in range(w)] for r in range(h)]
            sheet = ArraySheet(vals)
            up, dn = refxl.margins(full)
            ck.step(3)
            ck.state((h, w, bits))
            mu, md = sheet.get_margin_coords()
            ck.check(same(mu, up) and same(md, dn), "margins", "margins of %r gave %r, not %r", vals, (mu, md), (up, dn))
            for text, cell in (("#^^", up), ("#__", dn), ("#R-1C-1", dn), ("#_^", (up[0], dn[1]))):
                got = lasso(text, sheet=sheet)
                exp = vals[cell[0]][cell[1]]
                ck.check(got == exp, "lasso-cell", "%s of %r gave %r, not %r", text, vals, got, exp)
