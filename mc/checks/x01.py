"""X01: targeting, over every full/empty pattern of small sheets, every landing, moves & modifier."""
import itertools as itt

import numpy as np
from pandalone.xleash import Cell, Coords, Edge, EmptyCaptureException, resolve_capture_rect
from pandalone.xleash.io.backend import margin_coords_from_states_matrix

from .. import lib, refxl

PID = "X01"
MODS = [None, "+", "-", "?"]
BOUNDS = {
    "quick": "1st edge: every pattern of full cells of sheets up to 3x3, 2x4 and 4x2 (1x5, 5x1), every landing up to 2 cells outside them, the 12 moves and 4 modifiers; "
    "16 shapes (lines, broken ones, diagonals, frames, blocks, lone cells) of 9 sizes up to 65x65 x landings around their ends, middle and beyond x moves and modifiers, also for 2nd edges; "
    "2nd edge: every pattern up to 2x3 and 3x2, every 1st landing up to 1 cell outside x (no moves, DR+, L+, UR+) x dependent ('..', '._', '^.', '.2', 'B.', R-1C.) and absolute 2nd landings x 12 moves x 4 modifiers",
    "thorough": "1st edge: also 2x5, 5x2, 3x4, 4x3; 2nd edge: also 3x3, and all 12 moves of the 1st",
}
SIZES1 = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (3, 3), (2, 4), (4, 2)]
SIZES2 = [(1, 2), (2, 2), (2, 3), (3, 2)]
SECONDS = [(".", "."), (".", "_"), ("^", "."), ("2", "."), (".", "B"), ("-1", "."), ("1", "A"), ("_", "_"), ("4", "C"), ("2", "D")]


BIG = [8, 9, 10, 11, 16, 17, 27, 33, 65]
SHAPES = {
    "row": lambda n: {(0, i) for i in range(n)},
    "column": lambda n: {(i, 0) for i in range(n)},
    "broken row": lambda n: {(1, i) for i in range(n) if i != n // 2},
    "broken column": lambda n: {(i, 1) for i in range(n) if i != n // 2},
    "corners": lambda n: {(0, 0), (0, n - 1), (n - 1, 0), (n - 1, n - 1)},
    "last": lambda n: {(n - 1, n - 1)},
    "top right": lambda n: {(0, n - 1)},
    "bottom left": lambda n: {(n - 1, 0)},
    "diagonal": lambda n: {(i, i) for i in range(n)},
    "other diagonal": lambda n: {(i, n - 1 - i) for i in range(n)},
    "cross": lambda n: {(i, n // 2) for i in range(n)} | {(n // 2, i) for i in range(n)},
    "frame": lambda n: {(i, j) for i in range(n) for j in range(n) if i in (0, n - 1) or j in (0, n - 1)},
    "block": lambda n: {(i, j) for i in range(n) for j in range(n)},
    "holed": lambda n: {(i, j) for i in range(n) for j in range(n) if (i, j) != (n // 2, n - 2)},
    "comb": lambda n: {(i, j) for i in range(n) for j in range(n) if i % 2 == 0 or j == 0},
    "far block": lambda n: {(i, j) for i in range(n - 3, n) for j in range(n - 2, n)},
}


def run_big(ck, shape, n):
    full = SHAPES[shape](n)
    h, w = max(r for r, _ in full) + 1, max(c for _, c in full) + 1
    states = np.zeros((h, w), dtype=bool)
    for rc in full:
        states[rc] = True
    margins = margin_coords_from_states_matrix(states)
    up, dn = refxl.margins(full)
    ck.check(tuple(map(tuple, margins)) == (up, dn), "margins", "margins of %s of %i are %r", shape, n, margins)
    ck.state((shape, n))
    spots = sorted({0, 1, n // 2, n - 2, n - 1, n, n + 1})
    lands = [(str(r + 1), str(c + 1)) for r, c in itt.product(spots, repeat=2)] + [("^", "^"), ("_", "_"), ("-1", "^"), ("^", "_")]
    for land in lands:
        compare(ck, full, states, margins, land + (None, None), limit=n + 5)
        for mov in refxl.MOVES:
            for mod in MODS[:3] if n < 34 else MODS[:2]:
                compare(ck, full, states, margins, land + (mov, mod), limit=n + 5)
    for land in [("1", "A"), ("^", "^"), ("_", "_"), (str(n // 2 + 1), str(n // 2 + 1))]:
        for nd in [(".", "."), (".", "_"), ("_", "."), (str(n), ".")]:
            for mov in refxl.MOVES:
                for mod in MODS[:2]:
                    compare(ck, full, states, margins, land + (None, None), nd + (mov, mod), limit=n + 5)


def cases(tier):
    deep = tier != "quick"
    for shape in SHAPES:
        for n in BIG:
            yield ("big", shape, n)
    for h, w in SIZES1 + ([(2, 5), (5, 2), (3, 4), (4, 3)] if deep else []):
        for first in range(1 << min(h * w, 6)):
            yield ("st", h, w, first)
    for h, w in SIZES2 + ([(3, 3)] if deep else []):
        for first in range(1 << (h * w)):
            yield ("nd", h, w, first, deep)


def sheet(h, w, bits):
    full = {divmod(i, w) for i in range(h * w) if bits >> i & 1}
    states = np.zeros((h, w), dtype=bool)
    for rc in full:
        states[rc] = True
    return full, states, margin_coords_from_states_matrix(states)


def run(states, margins, st, nd=None, exp=None, base=None):
    def edge(e):
        return e and Edge(Cell(e[0], e[1]), e[2], e[3])

    try:
        a, z = resolve_capture_rect(states, margins, edge(st), edge(nd), exp, base)
    except EmptyCaptureException:
        return "empty"
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, ex)
    return tuple(map(int, a)), z and tuple(map(int, z))


def model(full, st, nd=None, exp=None, limit=12):
    try:
        return refxl.capture(full, st, nd, exp, None, limit)
    except refxl.Empty:
        return "empty"
    except refxl.Value:
        return "ValueError"


def compare(ck, full, states, margins, st, nd=None, limit=12):
    ck.step()
    exp = model(full, st, nd, None, limit)
    got = run(states, margins, st, nd)
    if nd and nd[3] is None:  # The base of the 1st edge says nothing about the 2nd one.
        based = run(states, margins, st, nd, None, Coords(1, 3))
        ck.check(based == got or str(got).startswith("ValueError"), "2nd-based", "on full %r of %r, %r to %r based on B4 gave %r, not %r", sorted(full), states.shape, st, nd, based, got)
    if exp == "ValueError":
        ck.check(isinstance(got, str) and got.startswith("ValueError"), "not-refused", "%r to %r gave %r", st, nd, got)
    else:
        ck.check(got == exp, "target" if nd is None else "2nd-target", "on full %r of %r, %r to %r gave %r, not %r", sorted(full), states.shape, st, nd, got, exp)


def run_case(ck, case):
    if case[0] == "big":
        return run_big(ck, *case[1:])
    kind, h, w, first = case[:4]
    if kind == "st":
        low = min(h * w, 6)
        for rest in range(1 << (h * w - low)):
            bits = first | rest << low
            full, states, margins = sheet(h, w, bits)
            ck.state((h, w, bits))
            for r, c in itt.product(range(1, h + 3), range(1, w + 3)):
                land = (str(r), refxl.UPPER[c - 1])
                compare(ck, full, states, margins, land + (None, None))
                for mov in refxl.MOVES:
                    for mod in MODS:
                        compare(ck, full, states, margins, land + (mov, mod))
    else:
        full, states, margins = sheet(h, w, first)
        ck.state((h, w, first))
        for r, c in itt.product(range(1, h + 2), range(1, w + 2)):
            for m1 in [None] + (refxl.MOVES if case[4] else ["DR", "L", "UR"]):
                st = (str(r), refxl.UPPER[c - 1], m1, m1 and "+")
                if isinstance(model(full, st), str):
                    compare(ck, full, states, margins, st, (".", ".", "DR", None))
                    continue
                for land in SECONDS:
                    compare(ck, full, states, margins, st, land + (None, None))
                    for mov in refxl.MOVES:
                        for mod in MODS:
                            compare(ck, full, states, margins, st, land + (mov, mod))
