"""X10: redimensioning every small shape to every dimension, against a reference on plain lists."""
import copy
import datetime
import itertools as itt
import json

import numpy as np
from pandalone.xleash import ArraySheet, Coords, Lasso, Ranger, SheetsFactory, installed_filters, lasso

from .. import lib

PID = "X10"
DATE = datetime.datetime(2020, 1, 2)
#: What elements are made of: all numbers, or mixing types.
LEAVES = {
    "ints": lambda i: i,
    "mixed": lambda i: [i, "s%s" % i, None, 0.5 + i, True, DATE, "", {"k": i}][i % 8],
    "texts": lambda i: "t" * (i % 3) + str(i),
    "nones": lambda i: None,
}
DIMS = [None, 0, 1, 2, 3, 4]
MOREDIMS = DIMS + [5, 6, 7, 8]
BOUNDS = {
    "quick": "every nested list of up to 4 dimensions sized 1-3 (and 0-sized ones), and scalars, x 4 kinds of elements x target dimension 0-4 or none, transposed or not; "
    "14 shapes with an axis of up to 65 elements; shapes of up to 8 dimensions sized 1-2, up to 3 of them 2; "
    "every chain of 2 dimensions; every rect up to 3x3 of a sheet x which of the 5 rect-classes gets which dimension",
    "thorough": "as quick, with up to 5 dimensions, and chains of 3",
}


def shapes(maxdim):
    for n in range(maxdim + 1):
        for shape in itt.product([1, 2, 3], repeat=n):
            yield shape
        if n:
            for shape in itt.product([1, 2], repeat=n - 1):
                yield shape + (0,)


SIZES = [4, 5, 8, 9, 10, 16, 17, 26, 32, 33, 64, 65]


def cases(tier):
    deep = tier != "quick"
    for n in SIZES:
        some = {(n,), (1, n), (n, 1), (2, n), (n, 2), (n, 0), (n, 1, 1), (1, n, 1), (1, 1, n), (2, n, 1), (n, 1, 2), (1, 2, n), (3, 1, n, 1), (n, n if n < 20 else 3)}
        for shape in sorted(some):
            for leaves in sorted(LEAVES):
                yield ("one", shape, leaves)
            yield ("chain", shape, "mixed", 2)
    for rank in range(5, 9):
        for shape in itt.product([1, 2], repeat=rank):
            if sum(s > 1 for s in shape) < 4:
                yield ("one", shape, "ints" if rank < 7 else "mixed")
    for shape in shapes(5 if deep else 4):
        for leaves in sorted(LEAVES):
            yield ("one", shape, leaves)
        for kind in ["ints", "mixed"]:
            yield ("chain", shape, kind, 3 if deep else 2)
    for r, c in itt.product([1, 2, 3], repeat=2):
        for form in ("rect", "cell") if (r, c) == (1, 1) else ("rect",):
            for at in itt.product([0, 1], repeat=2):
                yield ("sheet", (r, c), form, at)


def build(shape, leaf):
    count = itt.count()

    def rec(sh):
        if not sh:
            return leaf(next(count))
        return [rec(sh[1:]) for _ in range(sh[0])]

    return rec(shape)


def flat(val, ndim):
    if not ndim:
        return [val]
    return [e for v in val for e in flat(v, ndim - 1)]


def nest(elems, shape):
    if not shape:
        return elems[0]
    n = shape[0]
    size = len(elems) // n if n else 0
    return [nest(elems[i * size : (i + 1) * size], shape[1:]) for i in range(n)]


def newshape(shape, dim):
    """Pad on the left; or drop the first trivial dimensions; or else flatten."""
    if dim is None or dim == len(shape):
        return shape
    if dim > len(shape):
        return (1,) * (dim - len(shape)) + shape
    off = len(shape) - dim
    if shape.count(1) < off:
        size = 1
        for s in shape:
            size *= s
        return (1,) * (dim - 1) + (size,)
    out = list(shape)
    for _ in range(off):
        out.remove(1)
    return tuple(out)


def transposed(val, shape):
    if len(shape) < 2:
        return val, shape
    elems = flat(val, len(shape))
    idx = dict(zip(itt.product(*map(range, shape)), elems))
    new = shape[::-1]
    return nest([idx[k[::-1]] for k in itt.product(*map(range, new))], new), new


def same(a, b):
    """Equal, with elements of the same type."""
    if isinstance(a, list) or isinstance(b, list):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


RANGER = None


def redim(val, *dims):
    global RANGER
    RANGER = RANGER or Ranger(SheetsFactory())
    ls = Lasso(values=val, st=Coords(0, 0), nd=None, opts={})
    return RANGER.make_call(ls, "redim", list(dims), {}).values


def model(val, shape, dim, transpose):
    if transpose:
        val, shape = transposed(val, shape)
    new = newshape(shape, dim)
    return (nest(flat(val, len(shape)), new) if 0 not in shape else empty(new)), new


def empty(shape):
    if not shape:
        return None
    return [empty(shape[1:]) for _ in range(shape[0])]


def run_case(ck, case):
    if case[0] == "one":
        _, shape, leaves = case
        val = build(shape, LEAVES[leaves])
        for dim, tr in itt.product(MOREDIMS, ["plain", False, True]):
            if dim and dim > 4 and len(shape) < 4:
                continue
            arg = dim if tr == "plain" else [dim, tr]
            keep = copy.deepcopy(val)
            ck.step()
            exp, new = model(val, shape, dim, tr is True)
            ck.state(("one", leaves, exp))
            got = lib.outcome(redim, val, arg)
            ck.check(got[0] == "ok" and same(got[1], exp), "redim", "%r redimmed by %r gave %r, not %r", val, arg, got, exp)
            ck.check(same(val, keep), "side-effect", "%r redimmed by %r was modified from %r", val, arg, keep)
        if 0 not in shape and leaves == "ints":
            for dim in DIMS:
                ck.step()
                got = lib.outcome(redim, np.array(val), dim)
                got = (got[0], got[1].tolist() if hasattr(got[1], "tolist") else got[1])
                exp = model(val, shape, dim, False)[0]
                ck.check(got[0] == "ok" and same(got[1], exp), "ndarray", "array(%r) redimmed by %r gave %r, not %r", val, dim, got, exp)
    elif case[0] == "chain":
        _, shape, leaves, n = case
        val = build(shape, LEAVES[leaves])
        for dims in itt.product([0, 1, 2, 3, 4], repeat=n):
            exp, sh = val, shape
            got = ("ok", val)
            for d in dims:
                exp, sh = model(exp, sh, d, False)
                ck.step()
                got = lib.outcome(redim, got[1], d)
                if got[0] != "ok":
                    break
            ck.state(("chain", leaves, exp))
            ck.check(got[0] == "ok" and same(got[1], exp), "chain", "%r redimmed by %r gave %r, not %r", val, dims, got, exp)
    else:
        _, (r, c), form, at = case
        cells = [["%s.%s" % (i, j) if (i + j) % 2 else 10 * i + j for j in range(5)] for i in range(5)]
        rect = [row[at[1] : at[1] + c] for row in cells[at[0] : at[0] + r]]
        ref = "#R%iC%i" % (at[0] + 1, at[1] + 1)
        if form == "rect":
            ref += ":R%iC%i" % (at[0] + r, at[1] + c)
            klass = "cell" if (r, c) == (1, 1) else "row" if r == 1 else "col" if c == 1 else "table"
        else:
            klass, rect = "scalar", rect[0][0]
        shape = (r, c) if form == "rect" else ()
        for name in ["scalar", "cell", "row", "col", "table"]:
            for dim, tr in itt.product(DIMS, [None, True]):
                arg = dim if tr is None else [dim, tr]
                kwds = {"scalar": 3, "cell": 4, "row": 3, "col": 4, "table": 3}
                kwds[name] = arg
                kwds = {k: v for k, v in kwds.items() if k == name or k != klass}
                exp = model(rect, shape, dim, tr)[0] if name == klass else rect
                pos = [kwds.get(k) for k in ["scalar", "cell", "row", "col", "table"]]
                for how in ("kwds", "args"):
                    spec = json.dumps(["redim", kwds if how == "kwds" else pos])
                    ck.step()
                    ck.state((shape, klass, exp))
                    got = lib.outcome(lasso, "%s:%s" % (ref, spec), sheet=ArraySheet(cells))
                    ck.check(got[0] == "ok" and same(got[1], exp), "lasso", "%s:%s gave %r, not %r", ref, spec, got, exp)


assert "redim" in installed_filters
