"""X02: expansions, over every pattern of small sheets, every rectangle, and every short expansion."""
import itertools as itt

from pandalone.xleash import Cell, Edge

from .. import lib, refxl
from .x01 import model, run, sheet

PID = "X02"
TOKENS = [d + n for d in "LURD" for n in ("", "1", "2", "?")]
MORE = ["LURD", "DRUL", "RULD", "L10", "U1R1D1L1", "L2U2", "R3DL", "LU1URD?", "RDRD", "UUL2", "R1D2R", "lurd", "L1L1", "LD3LD", "RL", "D?R?", "L?U?R?D?", "r?d?R?l?", "U?U?U?L", "D?R1D?L?U2R?"]
CHAINS = ["".join(p) for n in (1, 2, 3) for p in itt.product("LURD", repeat=n)]
LONGER = ["".join(p) for p in itt.permutations("LURD")] + ["LLRR", "RRDD", "DDDR", "LURL", "RDLR"]
FAR = ["R", "R9", "R10", "R11", "R12", "R20", "R10L1", "L10", "L", "RL", "L12R10", "R100", "R010", "R1R10", "r10", "R5?", "R??", "R2R9"]
BOUNDS = {
    "quick": "every pattern of full cells of sheets up to 2x4, 4x2 and 3x3 x every rectangle (also 1 cell beyond, up to 6 cells) given by all its corners x %i expansions (all single tokens, and longer ones; half of them beyond 6 cells); "
    "patterns up to 2x3 and 3x2 x every pair of the %i tokens; the %i unbounded chains of up to 3 directions, and %i of 4, on 3x3 and 4x4 sheets with up to %i holes, from every cell; "
    "far expansions along rows and columns of 14 cells" % (len(TOKENS) + len(MORE), len(TOKENS), len(CHAINS), len(LONGER), 2),
    "thorough": "also all the expansions and rectangles beyond all sheets, 3x4 and 4x3 sheets, every pair of tokens on 3x3, every triple up to 2x3 & 3x2",
}
SIZES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2), (3, 3)]


def cases(tier):
    deep = tier != "quick"
    for h, w in SIZES + ([(3, 4), (4, 3)] if deep else []):
        for first in range(1 << min(h * w, 7)):
            yield (h, w, first, 1)
    for h, w in SIZES[:6] + ([(3, 3)] if deep else []):
        for first in range(1 << min(h * w, 7)):
            yield (h, w, first, 2)
    for h, w, holes in [(3, 3, 2), (4, 4, 2 if deep else 1)]:
        for n in range(holes + 1):
            for gaps in itt.combinations(range(h * w), n):
                yield ("chain", h, w, gaps)
    for gap in [None] + list(range(14)):
        yield ("far", 1, 14, gap)
        yield ("far", 14, 1, gap)
    if deep:
        for h, w in SIZES[:6]:
            for first in range(1 << min(h * w, 7)):
                yield (h, w, first, 3)


def name(r, c):
    return (str(r + 1), refxl.UPPER[c], None, None)


def expand_all(ck, h, w, bits, rects, exps):
    full, states, margins = sheet(h, w, bits)
    ck.state((h, w, bits))
    for (r1, c1, r2, c2), (text, exp) in itt.product(rects, exps):
        ck.step()
        want = refxl.expand(full, (r1, c1, r2, c2), exp)
        got = run(states, margins, name(r1, c1), name(r2, c2), text)
        ck.check(got == (want[:2], want[2:]), "expansion", "on full %r of %r, %r:%s gave %r, not %r", sorted(full), states.shape, (r1, c1, r2, c2), text, got, want)


def run_case(ck, case):
    if case[0] == "chain":
        _, h, w, gaps = case
        bits = (1 << (h * w)) - 1 - sum(1 << g for g in gaps)
        rects = [(r, c, r, c) for r in range(h) for c in range(w)] + [(0, 0, 1, 0), (0, 1, 0, 2), (1, 1, 2, 2)]
        exps = CHAINS + LONGER
        if len(gaps) > 1 and ck.quick:
            exps = exps[4:20:3] + exps[20::5]
        return expand_all(ck, h, w, bits, rects, [(e, refxl.expansions(e)) for e in exps])
    if case[0] == "far":
        _, h, w, gap = case
        bits = (1 << 14) - 1 - (0 if gap is None else 1 << gap)
        rects = [(0, k, 0, k) if h == 1 else (k, 0, k, 0) for k in (0, 1, 3, 7, 12, 13)]
        turn = str.maketrans("RLrl", "RLrl" if h == 1 else "DUdu")
        exps = []
        for e in FAR:
            e = e.translate(turn)
            st, parsed = lib.outcome(refxl.expansions, e)
            if st == "ok":
                exps.append((e, parsed))
        return expand_all(ck, h, w, bits, rects, exps)
    h, w, first, n = case
    low = min(h * w, 7)
    exps = TOKENS + MORE if n == 1 else ["".join(p) for p in itt.product(TOKENS, repeat=n)]
    if n == 1 and ck.quick and h * w > 6:
        exps = TOKENS[::2] + MORE[::2]
    parsed = [(e, refxl.expansions(e)) for e in exps]
    for rest in range(1 << (h * w - low)):
        full, states, margins = sheet(h, w, first | rest << low)
        ck.state(case[:2] + (first | rest << low,))
        beyond = 0 if ck.quick and h * w > 6 else 1
        for r1, c1 in itt.product(range(h + beyond), range(w + beyond)):
            for r2, c2 in itt.product(range(r1, h + beyond), range(c1, w + beyond)):
                corners = [((r1, c1), (r2, c2)), ((r2, c2), (r1, c1)), ((r1, c2), (r2, c1)), ((r2, c1), (r1, c2))]
                for i, (text, exp) in enumerate(parsed):
                    a, z = corners[i % 4]
                    ck.step()
                    want = refxl.expand(full, (r1, c1, r2, c2), exp)
                    want = (want[:2], want[2:])
                    nd = None if a == z and i % 3 == 0 else name(*z)
                    got = run(states, margins, name(*a), nd, text)
                    ck.check(got == want, "expansion", "on full %r of %r, %r:%r:%s gave %r, not %r", sorted(full), states.shape, a, z, text, got, want)
