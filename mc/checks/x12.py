"""X12: diving into every small nested value, against a reference on plain values; and recursing sheets."""
import copy
import itertools as itt
from collections import OrderedDict

import pandas as pd
from pandalone.xleash import ArraySheet, Coords, Lasso, Ranger, SheetsFactory, lasso, make_default_Ranger
from pandalone.xleash._filter import pyeval_filter, recursive_filter, run_filter_elementwise

from .. import lib

PID = "X12"
#: Strings: references, one giving a list of another, non-references, and a failing one.
LEAVES = ["a", "xx", 5]
KEYS = ["k", "l"]
FILTERS = [(), "k", ["k"], ["l", "z"], []]
DEPTHS = [None, -1, 0, 1, 2, 3, 4]
SUBS = [[], ["wrap"], ["wrap", ["wrap2", ["q"]]], [["boom", {"lax": True}], "wrap"], ["boom"], ["none", "wrap"], ["boom", "wrap"]]
SHEET_CELLS = [7, "tt x", "#B1", "#R.C2", "#R_C.", "#A1:B1", "no!where"]
#: Texts that are no references, or failing ones, lassoed alone or inside others.
TEXTS = ["no # ref", "#", "#A", "C#", "a#b#c", "#A1:", "##A1", "# A1", "$#A1$", "$#zz$", "#A0", "#A1:B", "#A1(X)", "#a1", "http://h/x#y", "#A1:{", '#A1:"nofilt"',
         "#ZZ9", "#Z9(L)", "#A1!B1", "#R.C.:..", "", " ", "#:", "#!:", "x#A1", '#A1:["py", "1+1"]', '#A1:["pipe", 5]']
BIGS = [5, 8, 9, 10, 11, 16, 17, 20, 26, 27, 32, 33, 64, 65]
BOUNDS = {
    "quick": "every nested value of lists & dicts up to depth 3 and width 2 (width 1 of the 3rd) over %i leaves x every include/exclude of %r x depth of %r, failing elements, 7 lists of sub-filters; element-functions of one's own, replying values or lassos; "
    "values and sheets of %s elements, keys, or levels, includes and excludes of as many; dictionaries with odd keys; the same for evaluating expressions; pandas objects up to 2x2 with any, also duplicate, labels; every 2x2 sheet out of %i cells x rects, redimensioned or not, and each of %i odd texts next to each of them; expressions in 2x2 sheets" % (len(LEAVES), FILTERS, DEPTHS, BIGS, len(SHEET_CELLS), len(TEXTS)),
    "thorough": "as quick, with all leaves in the 3rd level too, and every 2x3 sheet out of 5 cells",
}


def grow(vals, leaves, width=2):
    """Lists and dicts of up to `width` items."""
    yield []
    yield {}
    for v in vals:
        yield [v]
        for k in KEYS:
            yield {k: v}
    if width > 1:
        for v, w in itt.product(vals, repeat=2):
            yield [v, w]
            yield {"l": v, "k": w}
    else:
        for v, w in itt.product(vals, leaves[:2]):
            yield [v, w]
            yield [w, v]
            yield {"k": v, "l": w}
            yield {"l": v, "k": w}


def nested(depth, leaves, width3=1):
    lvl0 = list(leaves)
    lvl1 = list(grow(lvl0, leaves))
    lvl2 = list(grow(lvl1 + lvl0[:1], leaves)) if depth > 1 else []
    out = [lvl0, lvl1]
    if depth > 1:
        out.append(lvl2)
    if depth > 2:
        out.append(grow(lvl2, leaves, width3))
    return itt.chain.from_iterable(out)




def deeply(n, how, leaf):
    for i in range(n):
        leaf = [leaf] if how == "list" or how == "mix" and i % 2 else {"k": leaf, "z": 5} if how != "odict" else OrderedDict([("l", "xx"), ("k", leaf)])
    return leaf


def run_big(ck, n):
    els = [("a", "xx", 5, "b", None, "a")[i % 6] for i in range(n)]
    keys = ["k%i" % i for i in range(n)]
    dic = dict(zip(keys, els))
    for v in (els, dic, [els] * 3, [dic, els], [[e] for e in els], [{"k": e} for e in els], {k: [e] for k, e in dic.items()}, OrderedDict(dic)):
        for include, exclude, depth in [(None, None, -1), (keys[::2], None, -1), (None, keys[1::2], -1), (keys, keys[:1], -1), (keys[-1], None, -1), (None, keys[-1:], -1), (None, None, 1), (None, None, 2)]:
            judge(ck, v, include, exclude, depth)
        judge_custom(ck, v, None, None, -1, 1)
    for how, leaf in itt.product(("list", "dict", "mix", "odict"), ("a", ["a", "xx"], {"k": "b"})):
        v = deeply(n, how, leaf)
        for depth in (-1, None, n - 1, n, n + 1, n + 2, n // 2, 1):
            judge(ck, v, None, None, depth)
        judge(ck, v, "k", None, -1)
        judge(ck, v, None, "k", -1)
        judge_custom(ck, v, None, None, -1, 2)
    for fail in sorted({0, n // 2, n - 1}):
        judge(ck, ["!" if i == fail else e for i, e in enumerate(els)], None, None, -1)
    # References in long sheets, to cells around themselves, which are plain.
    for across in (False, True):
        cells = [["#R.C^", "v%i" % i] if i % 3 == 0 else ["#A1" if i % 3 == 1 else i, i] for i in range(1, n)]
        cells = [["head", None]] + cells
        if across:
            cells = [list(row) for row in zip(*cells)]
            cells = [["#R^C." if isinstance(v, str) and v[:2] == "#R" else v for v in row] for row in cells]
            cells = [cells[0], cells[1]]
        sheet_big(ck, cells)


def sheet_big(ck, cells):
    def one(row, col):
        v = cells[row][col]
        if not isinstance(v, str) or v[:1] != "#":
            return v
        got = lib.outcome(lasso, v, sheet=ArraySheet(cells), base_coords=Coords(row, col))
        return got[1] if got[0] == "ok" else None

    exp = [[one(r, c) for c in range(len(row))] for r, row in enumerate(cells)]
    ck.step()
    ck.state((cells, repr(exp)))
    got = lib.outcome(lasso, '#A1:R%iC%i:"recurse"' % (len(cells), len(cells[0])), sheet=ArraySheet(cells))
    ck.check(got[0] == "ok" and strict(got[1], exp), "recurse", "recursing %r gave %r, not %r", cells, got, exp)


def cases(tier):
    deep = tier != "quick"
    for n in BIGS:
        yield ("big", n)
    for v in nested(2, LEAVES):
        yield ("dive", v)
    for v in nested(3, LEAVES[:2] if not deep else LEAVES):
        yield ("deep", v)
    for v in nested(2, ["a", "!", "b"]):
        yield ("fail", v)
    for v in nested(1, ["a", "xx", 5, "b", (1, "a"), None, "", {"a"}]):
        yield ("subs", v)
        yield ("dive", v)
    for v in nested(2, ["a", "xx", 5]):
        yield ("eval", v)
    for v in nested(1, ["a", "b", "xx", "!", 5, None, "", ("a",)]):
        yield ("eval", v)
    for keys in itt.permutations(range(len(ODDKEYS)), 2):
        yield ("keys", keys)
    for v in nested(2, ["a", 5, None]):
        yield ("custom", v)
    for v in nested(1, ["a", 5, "!", None, 0, "", ("a",), "5"]):
        yield ("custom", v)
    for v in nested(2, ["b", "c", 5]):
        yield ("evalsubs", v)
    for v in nested(1, ["b", "c", "d", None]):
        yield ("evalsubs", v)
    for cells in itt.product(range(len(EVAL_CELLS)), repeat=4):
        yield ("evalsheet", 2, cells)
    for labels in itt.product(KEYS, repeat=2):
        for vals in itt.product(["a", "xx", 5], repeat=2):
            yield ("series", labels, vals)
        for idx in itt.product(KEYS, repeat=2):
            for vals in itt.product(["a", "xx", 5], repeat=4):
                yield ("df", labels, idx, vals)
    for cells in itt.product(range(len(SHEET_CELLS)), repeat=4):
        yield ("sheet", 2, cells)
    for text in range(len(TEXTS)):
        for other in range(len(SHEET_CELLS)):
            yield ("texts", text, other)
    if deep:
        for cells in itt.product([0, 2, 3, 4, 5], repeat=6):
            yield ("sheet", 3, cells)


ODDKEYS = [1, "1", None, 0, "", "k", "kk", 1.5, ("k",), "K"]
ODDFILTERS = [None, 1, "1", [1], ["1"], [None], [0], [""], "kk", ["kk"], ["k", 1], [1.5], "k"]
EVAL_CELLS = [7, "context.base_coords", "elval", "1 +", "[[1], 2]"]
LOGGED = "(ranger.log.append((elval, context.base_coords, context.sheet)), %s)[1]"
EXPRS = {"a": LOGGED % "('got', 'a')", "b": LOGGED % "['a', {'k': 'b'}]", "xx": "1 +", "!": "nope.nope"}


class Visits(Ranger):
    """Tells apart strings without any sheets, recording what it is asked for."""

    def __init__(self, *args, **kwds):
        super(Visits, self).__init__(*args, **kwds)
        self.log = []

    def do_lasso(self, xlref, **context_kwds):
        self.log.append((xlref, context_kwds.get("base_coords"), context_kwds.get("sheet")))
        if xlref.startswith("x"):
            raise SyntaxError("not an xl-ref")
        if xlref == "!":
            raise KeyError("a bad xl-ref")
        return Lasso(values=capture(xlref), opts={}, xl_ref=xlref)


def capture(xlref):
    return ["a", {"k": "b"}] if xlref == "b" else ("got", xlref)


def _boom(ranger, lasso):
    raise KeyError("boom")


AVAIL = {
    "wrap": {"func": lambda ranger, lasso: lasso._replace(values=("wrap", lasso.values))},
    "wrap2": {"func": lambda ranger, lasso, q: lasso._replace(values=("wrap2", q, lasso.values))},
    "boom": {"func": _boom},
    "none": {"func": lambda ranger, lasso: lasso._replace(values=None)},
}


#: Evaluation errors get printed, besides logged.
class Bad(Exception):
    pass


def aslist(f):
    return [f] if isinstance(f, (str, int)) else list(f or [])


def model(val, include, exclude, depth, log, level=0, wrap=lambda v: v):
    if depth is not None and level == depth:
        return val
    if isinstance(val, dict):
        inc, exc = aslist(include), aslist(exclude)
        return type(val)(
            (k, model(v, include, exclude, depth, log, level + 1, wrap) if (not inc or k in inc) and k not in exc else v)
            for k, v in val.items()
        )
    if isinstance(val, list):
        return [model(v, include, exclude, depth, log, level + 1, wrap) for v in val]
    if isinstance(val, str):
        log.append(val)
        if val == "!":
            raise Bad()
        return val if val.startswith("x") else wrap(capture(val))
    return val


def strict(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict, a, b))
    return a == b


def judge(ck, val, include, exclude, depth, filters=(), sub=lambda v: v, failing=False):
    elog = []
    try:
        exp = ("ok", model(val, include, exclude, depth, elog, wrap=sub))
        if failing and elog and any(not s.startswith("x") for s in elog):
            exp = ("ex", None)
    except Bad:
        exp = ("ex", None)
    ranger = Visits(SF, available_filters=AVAIL)
    keep = copy.deepcopy(val)
    ck.step()
    ck.state((val, exp))
    ls = Lasso(values=val, opts={}, st=Coords(2, 3), sheet="SHEET")
    got = lib.outcome(recursive_filter, ranger, ls, list(filters), include, exclude, depth)
    what = "recursing %r, include: %r, exclude: %r, depth: %r, filters: %r" % (keep, include, exclude, depth, filters)
    if exp[0] == "ex":
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "error", "%s gave %r, not a value error", what, got)
    else:
        ok = got[0] == "ok" and strict(got[1].values, exp[1])
        ck.check(ok, "value", "%s gave %r, not %r", what, got[1].values if got[0] == "ok" else got, exp)
        ck.check(sorted(e[0] for e in ranger.log) == sorted(elog), "visits", "%s visited %r, not %r", what, ranger.log, elog)
        ck.check(all(e[2] == "SHEET" for e in ranger.log), "sheet", "%s visited %r without its sheet", what, ranger.log)
    ck.check(strict(val, keep), "side-effect", "%s modified the original: %r", what, val)


def exprs(val):
    if isinstance(val, dict):
        return type(val)((k, exprs(v)) for k, v in val.items())
    if isinstance(val, list):
        return [exprs(v) for v in val]
    return EXPRS.get(val, val) if isinstance(val, str) else val


def judge_eval(ck, val, include, exclude, depth, eval_all):
    """Evaluating python expressions is as recursing references, by other means."""
    elog = []

    def expected(v, level=0):
        if depth is not None and level == depth:
            return exprs(v)
        if isinstance(v, dict):
            inc, exc = aslist(include), aslist(exclude)
            return type(v)((k, expected(i, level + 1) if (not inc or k in inc) and k not in exc else exprs(i)) for k, i in v.items())
        if isinstance(v, list):
            return [expected(i, level + 1) for i in v]
        if v in ("xx", "!", "") and isinstance(v, str):
            if eval_all and v:
                raise Bad()
            return exprs(v) if v else None
        if isinstance(v, str):
            elog.append(EXPRS[v])
            return capture(v)
        return v

    try:
        exp = ("ok", expected(val))
    except Bad:
        exp = ("ex", None)
    ranger = Visits(SF)
    orig, keep = exprs(val), exprs(val)
    ck.step()
    ck.state(("eval", val, exp))
    args = ((), eval_all, include, exclude, depth)
    got = lib.outcome(pyeval_filter, ranger, Lasso(values=orig, opts={}, st=Coords(2, 3), sheet="SHEET"), *args)
    what = "evaluating %r with %r" % (keep, args)
    if exp[0] == "ex":
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "eval-error", "%s gave %r, not a value error", what, got)
    else:
        ck.check(got[0] == "ok" and strict(got[1].values, exp[1]), "eval", "%s gave %r, not %r", what, got[1].values if got[0] == "ok" else got, exp[1])
        ck.check(sorted(e[0] for e in ranger.log) == sorted(elog), "eval-visits", "%s visited %r, not %r", what, ranger.log, elog)
    ck.check(strict(orig, keep), "side-effect", "%s modified the original: %r", what, orig)


def rebuild(val, leaf, include=None, exclude=None, depth=-1, level=0):
    """Apply `leaf()` on all elements of a nested value."""
    if depth is not None and level == depth:
        return val
    if isinstance(val, dict):
        inc, exc = aslist(include), aslist(exclude)
        return type(val)(
            (k, rebuild(v, leaf, include, exclude, depth, level + 1) if (not inc or k in inc) and k not in exc else v) for k, v in val.items()
        )
    if isinstance(val, list):
        return [rebuild(v, leaf, include, exclude, depth, level + 1) for v in val]
    return leaf(val)


def judge_custom(ck, val, include, exclude, depth, nsub):
    """An element-function of one's own, replying values or lassos, with its own arguments."""
    log, elog = [], []
    ls = Lasso(values=val, opts={}, st=Coords(2, 3), sheet="SHEET")

    def func(ranger, lasso, context, elval, *args, **kwds):
        if not isinstance(elval, list):
            log.append((repr(elval), args, kwds, context.sheet))
        if elval == "!":
            raise KeyError("boo")
        if isinstance(elval, str):
            return True, lasso._replace(values=[elval, "b"])
        return isinstance(elval, (int, tuple)), [elval]

    def leaf(v):
        elog.append((repr(v), ("arg",), {"kw": [1]}, "SHEET"))
        if v == "!":
            raise Bad()
        if isinstance(v, (str, int, tuple)):
            v = [v, "b"] if isinstance(v, str) else [v]
            return {0: v, 1: ("wrap", v), 2: ("wrap2", "q", ("wrap", v))}[nsub]
        return v

    try:
        exp = ("ok", rebuild(val, leaf, include, exclude, depth))
    except Bad:
        exp = ("ex", None)
    keep = copy.deepcopy(val)
    ck.step()
    ck.state(("custom", val, exp, nsub))
    got = lib.outcome(run_filter_elementwise, Visits(SF, available_filters=AVAIL), ls, func, SUBS[nsub], include, exclude, depth, "arg", kw=[1])
    what = "visiting %r, include: %r, exclude: %r, depth: %r, filters: %r" % (keep, include, exclude, depth, SUBS[nsub])
    if exp[0] == "ex":
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "custom-error", "%s gave %r, not a value error", what, got)
    else:
        ck.check(got[0] == "ok" and strict(got[1].values, exp[1]), "custom", "%s gave %r, not %r", what, got, exp)
        ck.check(sorted(log, key=repr) == sorted(elog, key=repr), "custom-visits", "%s visited %r, not %r", what, log, elog)
    ck.check(strict(val, keep), "side-effect", "%s modified the original: %r", what, val)


def judge_evalsubs(ck, val, include, exclude, depth, nsub):
    """Expressions giving whole lassos, and filters on the evaluated elements."""
    texts = {"b": "lasso._replace(values=[1, 'z'])", "c": "xleash.Lasso(values=[2, 'y'])", "d": "[3] * 2"}

    def text(v):
        return texts.get(v, v) if isinstance(v, str) else v

    def leaf(v):
        if isinstance(v, str) and v in texts:
            v = {"b": [1, "z"], "c": [2, "y"], "d": [3, 3]}[v]
            return {0: v, 1: ("wrap", v), 2: ("wrap2", "q", ("wrap", v)), 3: ("wrap", v), 5: ("wrap", None), 6: ("wrap", v)}[nsub]
        return v

    src = rebuild(val, text)
    exp = rebuild(rebuild(val, leaf, include, exclude, depth), text)
    keep = copy.deepcopy(src)
    ck.step()
    ck.state(("evalsubs", val, exp, nsub))
    ls = Lasso(values=src, opts={"lax": True} if nsub == 6 else {}, st=Coords(2, 3), sheet="SHEET")
    got = lib.outcome(pyeval_filter, Visits(SF, available_filters=AVAIL), ls, SUBS[nsub], True, include, exclude, depth)
    what = "evaluating %r, include: %r, exclude: %r, depth: %r, filters: %r" % (keep, include, exclude, depth, SUBS[nsub])
    ck.check(got[0] == "ok" and strict(got[1].values, exp), "eval-filters", "%s gave %r, not %r", what, got, exp)
    ck.check(strict(src, keep), "side-effect", "%s modified the original: %r", what, src)


def evalsheet_case(ck, case):
    """Expressions of a rect know their position, and give what they give alone."""
    _, ncols, picks = case
    it = iter(picks)
    cells = [[EVAL_CELLS[next(it)] for _ in range(ncols)] for _ in range(2)]

    def one(row, col):
        v = cells[row][col]
        return {"context.base_coords": (row, col), "[[1], 2]": [[1], 2]}.get(v, v)

    for ref, form in SHAPES[ncols]:
        st, _, nd = ref[1:].partition(":")
        nd = nd or st
        (c0, r0), (c1, r1) = [("ABC".index(e[0]), int(e[1]) - 1) for e in (st, nd)]
        exp = [[one(r, c) for c in range(c0, c1 + 1)] for r in range(r0, r1 + 1)]
        if form == "0d":
            exp = exp[0][0]
        elif form == "1d":
            exp = [v for row in exp for v in row]
        filt = '"pyeval"' if form != "1d" else '["pipe", [["redim", [0, 1, 1, 1, 2]], "pyeval"]]'
        ck.step()
        ck.state((cells, ref, repr(exp)))
        got = lib.outcome(lasso, "%s:%s" % (ref, filt), sheet=ArraySheet(cells))
        ck.check(got[0] == "ok" and got[1] == exp, "evalsheet", "%s:%s of %r gave %r, not %r", ref, filt, cells, got, exp)


SF = SheetsFactory()


def typed(val):
    """Dicts starting with 'l' become ordered ones."""
    if isinstance(val, list):
        return [typed(v) for v in val]
    if isinstance(val, dict):
        cls = OrderedDict if list(val)[:1] == ["l"] else dict
        return cls((k, typed(v)) for k, v in val.items())
    return val


def run_case(ck, case):
    if case[0] == "big":
        return run_big(ck, case[1])
    kind, val = case[0], typed(case[1])
    if kind == "dive":
        for include, exclude, depth in itt.product(FILTERS, FILTERS, DEPTHS):
            judge(ck, val, include, exclude, depth)
    elif kind == "deep":
        for include, exclude, depth in [(None, None, -1), ("k", None, -1), (None, "k", 3), ("k", ["l"], 4), (["k", "l"], "l", 2), (None, None, 1)]:
            judge(ck, val, include, exclude, depth)
    elif kind == "fail":
        for include, exclude, depth in [(None, None, -1), ("k", None, -1), (None, "k", -1), (None, None, 1), (None, None, 2)]:
            judge(ck, val, include, exclude, depth)
    elif kind == "subs":
        wraps = [
            lambda v: v,
            lambda v: ("wrap", v),
            lambda v: ("wrap2", "q", ("wrap", v)),
            lambda v: ("wrap", v),
            lambda v: v,
            lambda v: ("wrap", None),
        ]
        for i, sub in enumerate(SUBS[:6]):
            for depth in DEPTHS:
                judge(ck, val, None, None, depth, sub, wraps[i], failing=i == 4)
    elif kind == "eval":
        for include, exclude, depth in [(None, None, -1), ("k", None, -1), (None, "k", -1), (["k", "l"], "l", -1), (None, None, 0), (None, None, 1), (None, None, 2)]:
            for eval_all in (False, True):
                judge_eval(ck, val, include, exclude, depth, eval_all)
    elif kind in ("custom", "evalsubs"):
        for include, exclude, depth in [(None, None, -1), ("k", None, -1), (None, "k", -1), (["k", "l"], "l", -1), (None, None, 0), (None, None, 1), (None, None, 2)]:
            for nsub in range(3) if kind == "custom" else (0, 1, 2, 3, 5, 6):
                (judge_custom if kind == "custom" else judge_evalsubs)(ck, val, include, exclude, depth, nsub)
    elif kind == "keys":
        k1, k2 = (ODDKEYS[i] for i in case[1])
        for include, exclude in itt.product(ODDFILTERS, repeat=2):
            for v in ({k1: "a", k2: "xx"}, {k1: ["a"], k2: {k1: "a"}}, [{k1: "a", k2: {"k": "a", k2: "a"}}]):
                judge(ck, v, include, exclude, -1)
    elif kind == "evalsheet":
        evalsheet_case(ck, case)
    elif kind == "series":
        _, labels, vals = case
        for include, exclude, depth in itt.product(FILTERS, FILTERS, DEPTHS):
            ser = pd.Series(list(vals), index=list(labels), dtype=object, name="n")
            exp, pos = [], []
            for i, (lb, v) in enumerate(zip(labels, vals)):
                hit = depth not in (0, 1) and isinstance(v, str) and picked(lb, include, exclude)
                exp.append(capture(v) if hit and v == "a" else v)
                if hit:
                    pos.append((v, (2 + i, 3)))
            pandas_case(ck, ser, exp, pos, lambda r: list(r), lambda r: isinstance(r, pd.Series) and list(r.index) == list(labels) and r.name == "n", include, exclude, depth)
    elif kind == "df":
        _, cols, idx, vals = case
        for include, exclude, depth in [((), (), -1), ("k", (), -1), ((), "k", -1), ((), (), 0), ((), (), 1), ((), (), 2), ((), (), 3), (["k", "l"], "l", 3)]:
            df = pd.DataFrame([list(vals[:2]), list(vals[2:])], columns=list(cols), index=list(idx), dtype=object)
            exp, pos = [], []
            for r, c in itt.product(range(2), repeat=2):
                v = vals[2 * r + c]
                hit = depth not in (0, 1, 2) and isinstance(v, str) and picked(cols[c], include, exclude)
                exp.append(capture(v) if hit and v == "a" else v)
                if hit:
                    pos.append((v, (2 + r, 3 + c)))
            pandas_case(
                ck, df, exp, pos, lambda r: [r.iat[i, j] for i, j in itt.product(range(2), repeat=2)],
                lambda r: isinstance(r, pd.DataFrame) and list(r.columns) == list(cols) and list(r.index) == list(idx), include, exclude, depth,
            )
    else:
        sheet_case(ck, case)


def picked(label, include, exclude):
    return (not aslist(include) or label in aslist(include)) and label not in aslist(exclude)


def pandas_case(ck, obj, exp, pos, values, kept, include, exclude, depth):
    ranger = Visits(SF, available_filters=AVAIL)
    keep = obj.copy()
    ck.step()
    ck.state((repr(obj), exp))
    ls = Lasso(values=obj, opts={}, st=Coords(2, 3), sheet="SHEET")
    got = lib.outcome(recursive_filter, ranger, ls, (), include, exclude, depth)
    what = "recursing %r, include: %r, exclude: %r, depth: %r" % (keep, include, exclude, depth)
    if not ck.check(got[0] == "ok", "pandas", "%s gave %r", what, got):
        return
    res = got[1].values
    ck.check(kept(res) and strict(values(res), exp), "pandas", "%s gave %r, not %r", what, res, exp)
    ck.check(sorted(e[:2] for e in ranger.log) == sorted(pos), "pandas-visits", "%s visited %r, not %r", what, ranger.log, pos)
    ck.check(obj.equals(keep), "side-effect", "%s modified the original: %r", what, obj)


SHAPES = {
    2: [("#A1:B2", "2d"), ("#A1:B1", "2d"), ("#B1:B2", "2d"), ("#B2", "0d"), ("#A2:B2", "1d"), ("#A1:A2", "1d"), ("#B2:B2", "1d")],
    3: [("#A1:C2", "2d"), ("#B1:C2", "2d"), ("#B2:C2", "1d"), ("#C1:C2", "1d"), ("#C2", "0d")],
}


def sheet_case(ck, case):
    """Recursing a rect is as lassoing each of its cells alone, from its own position."""
    _, ncols, picks = case
    if case[0] == "texts":
        ncols, cells = 2, [[7, TEXTS[case[1]]], [None, SHEET_CELLS[case[2]]]]
    else:
        it = iter(picks)
        cells = [[SHEET_CELLS[next(it)] for _ in range(ncols)] for _ in range(2)]

    def one(row, col):
        v = cells[row][col]
        if not isinstance(v, str):
            return v
        got = lib.outcome(lasso, v, sheet=ArraySheet(cells), base_coords=Coords(row, col))
        if got[0] == "ok":
            return got[1]
        if isinstance(got[1], SyntaxError):
            return v
        raise Bad()

    for ref, form in SHAPES[ncols]:
        st, _, nd = ref[1:].partition(":")
        nd = nd or st
        (c0, r0), (c1, r1) = [("ABC".index(e[0]), int(e[1]) - 1) for e in (st, nd)]
        try:
            exp = [[one(r, c) for c in range(c0, c1 + 1)] for r in range(r0, r1 + 1)]
            if form == "0d":
                exp = exp[0][0]
            elif form == "1d":
                exp = [v for row in exp for v in row]
            exp = ("ok", exp)
        except Bad:
            exp = ("ex", None)
        filt = '"recurse"' if form != "1d" else '["pipe", [["redim", [0, 1, 1, 1, 2]], "recurse"]]'
        ck.step()
        ck.state((cells, ref, exp))
        got = lib.outcome(lasso, "%s:%s" % (ref, filt), sheet=ArraySheet(cells))
        if exp[0] == "ok":
            ck.check(got[0] == "ok" and strict(got[1], exp[1]), "recurse", "%s:%s of %r gave %r, not %r", ref, filt, cells, got, exp)
        else:
            ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "recurse", "%s:%s of %r gave %r, not a value error", ref, filt, cells, got)
