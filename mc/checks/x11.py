"""X11: every small program of filters, against a reference interpreter."""
import copy
import itertools as itt
import json

import numpy as np
from pandalone.xleash import ArraySheet, Lasso, Ranger, SheetsFactory, installed_filters, lasso

from .. import lib

PID = "X11"
OPTS = [None, {}, {"lax": True}, {"lax": False}, {"lax": True, "verbose": True}, {"verbose": True}]
#: Filters as (name, args, kwds).
ATOMS = [
    ("t1", [], {}),
    ("t2", [1, [2], {"a": None}], {}),
    ("t1", [], {"k": 5, "lax": True}),
    ("t2", ["x"], {"k": {"z": 1}, "l": False}),
    ("boom", [], {}),
    ("boom", [3], {"lax": True}),
    ("boom", [], {"k": 1, "lax": False}),
    ("nofilter", [], {}),
    ("nofilter", [1], {"lax": True}),
    ("none", [], {}),
    ("scalar", [], {"lax": True}),
]
BAD = [5, None, [], [None], ["t1", [], []], ["t1", 5], {"args": []}, {"func": 1}, {"func": "t1", "x": 1}, ["t1", [], {}, 1]]
#: Fields of the lasso that a filter may change, besides its values.
CHANGES = [None, {"opts": {"mine": 1}}, {"opts": {"mine": 2, "other": [3]}}, {"sh_name": "Other"}, {"exp_moves": "LU", "sh_name": "Sh"}, {"values": "V"}, "boom", {"values": None}, {"values": []}, {"values": 0, "sh_name": None}]
PIPES = [{}, {"lax": True}, {"lax": False}]
SIZES = [5, 6, 7, 8, 9, 10, 11, 16, 17, 20, 26, 32]
BOUNDS = {
    "quick": "every spelling of %i filters (tracing their arguments, failing, not returning lassos, unknown; lax or not), also on null-like and empty captures; every pipe of up to 3 of them; pipes nested in pipes of 2; pipes of %s filters or levels, and filters of as many arguments; "
    "with the pipe lax or not, x %i base opts or the same ones in the xl-ref; malformed filters within pipes; pipes of up to 3 filters changing any field of the lasso; built-in filters on small values; repeated invocations of a call-spec" % (len(ATOMS), SIZES, len(OPTS)),
    "thorough": "as quick, with (changing) pipes of up to 4 filters, and of 2 nested in pipes of 3",
}


def spellings(name, args, kwds):
    if not args and not kwds:
        yield name
        yield [name]
        yield [name, None]
        yield [name, None, None]
        yield {"func": name}
        yield {"func": name, "args": None, "kwds": None}
    if not kwds:
        yield [name, args]
        yield [name, args, None]
        yield {"func": name, "args": args}
    if not args:
        yield [name, kwds]
        yield {"func": name, "kwds": kwds}
    yield [name, args, kwds]
    yield [name, kwds, args]
    yield {"func": name, "args": args, "kwds": kwds}
    yield {"kwds": kwds, "args": args, "func": name}


def canon(atom):
    name, args, kwds = atom
    return ["pipe", [canon(a) for a in args], kwds] if name == "pipe" else [name, args, kwds] if args or kwds else name


def cases(tier):
    deep = tier != "quick"
    for i in range(len(ATOMS)):
        yield ("spell", i)
    n = range(len(ATOMS))
    for ln in range(0, 5 if deep else 4):
        for seq in itt.product(n, repeat=ln):
            yield ("pipe", seq)
    for outer in itt.product(n, repeat=2 if deep else 1):
        for inner in itt.product(n, repeat=2):
            for pos in range(len(outer) + 1):
                yield ("nest", outer, inner, pos)
    for size in SIZES:
        yield ("big", size)
    for b in range(len(BAD)):
        for seq in itt.product([0, 4, 5], repeat=2):
            for pos in range(3):
                yield ("bad", b, seq, pos)
    for name in BUILTIN:
        yield ("builtin", name)
    for i in n:
        yield ("again", i)
    for ln in range(1, 5 if deep else 4):
        for seq in itt.product(range(len(CHANGES)), repeat=ln):
            yield ("lasso", seq)


def big(n):
    """Long & deep pipes, failing here or there; and filters with many arguments."""
    t1, t2, boom = ATOMS[0], ATOMS[2], ATOMS[4]
    for pk in PIPES:
        yield ("pipe", [ATOMS[i % 4] for i in range(n)], pk)
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            for bad in (boom, ATOMS[5], ATOMS[7], ATOMS[9], ATOMS[10]):
                seq = [(t1, t2)[i % 2] for i in range(n)]
                seq[pos] = bad
                yield ("pipe", seq, pk)
    for inner in (t1, boom, ATOMS[5], ATOMS[6]):
        for lax in (None, 0, n // 2, n - 1):
            spec = inner
            for i in range(n):
                spec = ("pipe", [t2, spec] if i % 3 == 0 else [spec, t1] if i % 3 == 1 else [spec], {"lax": True} if i == lax else {})
            yield spec
    yield ("t1", list(range(n)), {})
    yield ("t2", [[i, {"a": i}] for i in range(n)], {"k%i" % i: i for i in range(n)})
    yield ("t2", ["x" * n], {"k" * n: n, "lax": True})
    yield ("boom", [], dict([("k%i" % i, i) for i in range(n)], lax=True))


class Failed(Exception):
    """Reference failure, with the name of the filter."""


def interp(spec, val, optlax, log):
    name, args, kwds = spec
    kwds = dict(kwds)
    lax = kwds.pop("lax", optlax)
    try:
        if name == "pipe":
            out = val
            for sub in args:
                out = interp(sub, out, optlax, log)
            return out
        if name == "bad":
            raise Failed("pipe")
        if name != "nofilter":
            log.append((name, val, args, kwds))
        if name in ("t1", "t2"):
            return [name, val, args, kwds]
        raise Failed(name)
    except Failed:
        if lax:
            return val
        raise


def make_filters(log):
    def tracer(name):
        def tracing(ranger, lasso, *args, **kwds):
            log.append((name, copy.deepcopy(lasso.values), list(args), kwds))
            return lasso._replace(values=[name, lasso.values, list(args), kwds])

        return tracing

    def boom(ranger, lasso, *args, **kwds):
        log.append(("boom", copy.deepcopy(lasso.values), list(args), kwds))
        raise KeyError("BANG")

    def none(ranger, lasso, *args, **kwds):
        log.append(("none", copy.deepcopy(lasso.values), list(args), kwds))

    def scalar(ranger, lasso, *args, **kwds):
        """SCALAR-DESC"""
        log.append(("scalar", copy.deepcopy(lasso.values), list(args), kwds))
        return 5

    return {
        "t1": {"func": tracer("t1"), "desc": "described"},
        "t2": {"func": tracer("t2")},
        "boom": {"func": boom, "desc": "BOOM-DESC"},
        "none": {"func": none},
        "scalar": {"func": scalar},
        "pipe": installed_filters["pipe"],
    }


CELLS = [[1, "a"], [None, 2.5]]


def with_opts(text, opts):
    """The filter as an object having the opts."""
    spec = json.loads(text)
    if isinstance(spec, str):
        spec = [spec]
    if isinstance(spec, list):
        parts = {"func": spec[0]}
        for p in spec[1:]:
            if p is not None:
                parts["args" if isinstance(p, list) else "kwds"] = p
        spec = parts
    return json.dumps(dict(spec, opts=opts))


#: What else may be captured: null-like cells, and nothing.
NULLS = {"#A1:": 0, "#B1:": "", "#C1:": False, "#D1:": None, "#E1:": 0.0, "#A9(D):": []}


def judge(ck, text, spec, opts, where, trace=True, edges=None):
    optlax = bool((opts or {}).get("lax"))
    elog, glog = [], []
    try:
        exp = ("ok", interp(spec, NULLS[edges] if edges else CELLS, optlax, elog))
    except Failed as ex:
        exp = ("ex", ex.args[0])
    if where == "ref":
        text = with_opts(text, opts)
    ref = (edges or "#A1:B2:") + text
    cells = [list(NULLS.values())[:5]] if edges else copy.deepcopy(CELLS)
    ck.step()
    ck.state((exp, elog))
    kw = {} if where == "ref" else {"base_opts": copy.deepcopy(opts)}
    got = lib.outcome(lasso, ref, sheet=ArraySheet(cells), available_filters=make_filters(glog), **kw)
    what = "%s, base opts: %s" % (ref, kw)
    if exp[0] == "ok":
        ck.check(got == exp, "value", "%s gave %r, not %r", what, got, exp)
    elif ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "error", "%s gave %r, not a value error", what, got):
        ck.check(exp[1] in str(got[1]), "unnamed", "%s: the error does not name %r: %s", what, exp[1], got[1])
        told = bool((opts or {}).get("verbose")) and exp[1] in ("boom", "scalar")
        ck.check(("-DESC" in str(got[1])) == told and (not told or exp[1].upper() + "-DESC" in str(got[1])), "help", "%s: the error describes filters wrongly: %s", what, got[1])
    if trace:
        ck.check(glog == elog, "calls", "%s called %r, not %r", what, glog, elog)


def both(opts):
    return ["base", "ref"] if opts is not None else ["base"]


def run_case(ck, case):
    kind = case[0]
    if kind == "spell":
        atom = ATOMS[case[1]]
        for sp, opts in itt.product(spellings(*atom), OPTS):
            for where in both(opts):
                judge(ck, json.dumps(sp), atom, opts, where)
            for edges in NULLS:
                judge(ck, json.dumps(sp), atom, opts, "base", edges=edges)
            text = json.dumps(["pipe", [sp, "t1"]])
            judge(ck, text, ("pipe", [atom, ("t1", [], {})], {}), opts, "base")
    elif kind == "pipe":
        seq = [ATOMS[i] for i in case[1]]
        for pk in PIPES:
            spec = ("pipe", seq, pk)
            for opts in OPTS if len(seq) < 3 else [None, {"lax": True}]:
                for where in both(opts):
                    judge(ck, json.dumps(canon(spec)), spec, opts, where)
    elif kind == "big":
        for spec in big(case[1]):
            for opts in [None, {"lax": True}, {"verbose": True}]:
                for where in both(opts):
                    judge(ck, json.dumps(canon(spec)), spec, opts, where)
    elif kind == "nest":
        _, outer, inner, pos = case
        for pk, pk2 in itt.product(PIPES, repeat=2):
            seq = [ATOMS[i] for i in outer]
            seq.insert(pos, ("pipe", [ATOMS[i] for i in inner], pk2))
            spec = ("pipe", seq, pk)
            for opts in [None, {"lax": True}, {"verbose": True}]:
                judge(ck, json.dumps(canon(spec)), spec, opts, "base")
    elif kind == "bad":
        _, b, seq, pos = case
        for pk in PIPES:
            args = [ATOMS[i] for i in seq]
            texts = [canon(a) for a in args]
            args.insert(pos, ("bad", [], {}))
            texts.insert(pos, BAD[b])
            for opts in [None, {"lax": True}, {"verbose": True}]:
                # Laxing each filter does not make malformed ones any filter, only laxing the pipe does.
                spec = ("pipe", args, pk)
                judge_bad(ck, json.dumps(["pipe", texts, pk]), spec, opts)
    elif kind == "builtin":
        for text, cells, exp in BUILTIN[case[1]]:
            ck.step()
            ck.state((case[1], text, cells))
            got = lib.outcome(lasso, "#A1:..(RD+):" + text, sheet=ArraySheet(copy.deepcopy(cells)))
            if exp is ValueError:
                ok = got[0] == "ex" and isinstance(got[1], ValueError)
            else:
                ok = got[0] == "ok" and type(got[1]) is type(exp) and repr(got[1]) == repr(exp)
            ck.check(ok, "builtin", "%s on %r gave %r, not %r", text, cells, got, exp)
    elif kind == "lasso":
        run_lasso(ck, [CHANGES[i] for i in case[1]])
    else:
        name, args, kwds = ATOMS[case[1]]
        for opts in OPTS:
            log = []
            ranger = Ranger(SheetsFactory(), available_filters=make_filters(log))
            args1, kwds1 = copy.deepcopy(args), copy.deepcopy(kwds)
            for n in range(3):
                del log[:]
                elog = []
                try:
                    exp = ("ok", interp((name, args, kwds), n, bool((opts or {}).get("lax")), elog))
                except Failed as ex:
                    exp = ("ex", ex.args[0])
                ck.step()
                got = lib.outcome(ranger.make_call, Lasso(values=n, opts=dict(opts or {})), name, args1, kwds1)
                if exp[0] == "ok":
                    ck.check(got[0] == "ok" and got[1].values == exp[1], "again", "call %i of %r with opts %r gave %r, not %r", n, case, opts, got, exp)
                else:
                    ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "again", "call %i of %r with opts %r gave %r", n, case, opts, got)
                ck.check(log == elog, "again", "call %i of %r with opts %r called %r, not %r", n, case, opts, log, elog)
                ck.check((args1, kwds1) == (args, kwds), "spec-modified", "call %i of %r with opts %r modified its call-spec: %r, %r", n, case, opts, args1, kwds1)


def run_lasso(ck, changes):
    """Filters returning lassos with any fields changed: the next one receives the lasso as returned."""
    fields = ("sh_name", "exp_moves", "values", "opts")

    def view(lasso):
        return tuple(dict(lasso.opts) if f == "opts" else getattr(lasso, f) for f in fields)

    seen = []

    def change(ranger, lasso, i):
        seen.append(view(lasso))
        if changes[i] == "boom":
            raise KeyError("BANG")
        return lasso._replace(**{k: copy.deepcopy(v) for k, v in changes[i].items()}) if changes[i] else lasso

    now, exp = dict(zip(fields, ("S", "R", "initial", {"lax": True}))), []
    for c in changes:
        exp.append(tuple(now[f] for f in fields))
        if c != "boom":
            now.update(c or {})
    exp.append(tuple(now[f] for f in fields))
    init = Lasso(sh_name="S", exp_moves="R", values="initial", opts={"lax": True})
    for piped in (False, True):
        del seen[:]
        ranger = Ranger(SheetsFactory(), available_filters={"change": {"func": change}, "pipe": installed_filters["pipe"]})
        if piped:
            lasso_ = ranger.make_call(init, "pipe", [["change", [i], {"lax": True}] for i in range(len(changes))], {})
        else:
            lasso_ = init
            for i in range(len(changes)):
                lasso_ = ranger.make_call(lasso_, "change", [i], {"lax": True})
        ck.step()
        got = seen + [view(lasso_)]
        ck.state(got[-1])
        ck.check(got == exp, "lasso-result", "filters changing %r (piped: %s) had lassos %r, not %r", changes, piped, got, exp)


def judge_bad(ck, text, spec, opts):
    optlax = bool((opts or {}).get("lax"))

    def run(spec):
        # A malformed filter fails the pipe holding it.
        name, args, kwds = spec
        out = CELLS
        try:
            for sub in args:
                if sub[0] == "bad":
                    raise Failed("pipe")
                out = interp(sub, out, optlax, [])
            return out
        except Failed:
            if kwds.get("lax", optlax):
                return CELLS
            raise

    try:
        exp = ("ok", run(spec))
    except Failed:
        exp = ("ex", None)
    ck.step()
    ck.state((text, exp))
    got = lib.outcome(lasso, "#A1:B2:" + text, sheet=ArraySheet(copy.deepcopy(CELLS)), available_filters=make_filters([]), base_opts=copy.deepcopy(opts))
    if exp[0] == "ok":
        ck.check(got == exp, "malformed", "%s with base opts %r gave %r, not %r", text, opts, got, exp)
    else:
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "malformed", "%s with base opts %r gave %r, not a value error", text, opts, got)


def _odict(*pairs):
    from collections import OrderedDict

    return OrderedDict(pairs)


PAIRS = [["b", 2], ["a", 1]]
BUILTIN = {
    "sorted": [
        ('"sorted"', PAIRS, [["a", 1], ["b", 2]]),
        ('["sorted", {"reverse": true}]', [["a", 1], ["b", 2]], [["b", 2], ["a", 1]]),
        ('["sorted", {"foo": true}]', PAIRS, ValueError),
        ('"sorted"', [[1], ["a"]], ValueError),
        ('["sorted", {"lax": true}]', [[1], ["a"]], [[1], ["a"]]),
    ],
    "dict": [
        ('"dict"', PAIRS, {"b": 2, "a": 1}),
        ('["dict", {"c": 3}]', PAIRS, {"b": 2, "a": 1, "c": 3}),
        ('"dict"', [[1, 2, 3]], ValueError),
        ('["dict", {"lax": true}]', [[1, 2, 3]], [[1, 2, 3]]),
    ],
    "odict": [
        ('"odict"', PAIRS, _odict(("b", 2), ("a", 1))),
        ('["odict", {"c": 3}]', PAIRS, _odict(("b", 2), ("a", 1), ("c", 3))),
        ('"odict"', [[1, 2, 3]], ValueError),
    ],
    "numpy": [
        ('"numpy"', [[1, 2], [3, 4]], np.array([[1, 2], [3, 4]])),
        ('["numpy", ["float32"]]', [[1, 2]], np.array([[1, 2]], "float32")),
        ('["numpy", {"dtype": "O", "ndmin": 3}]', [[1, "a"]], np.array([[1, "a"]], dtype="O", ndmin=3)),
        ('["numpy", ["nodtype"]]', [[1]], ValueError),
        ('["numpy", {"dtype": "int"}]', [["a"]], ValueError),
    ],
    "py": [
        ('["py", ["lasso.values[0][0] + 5"]]', [[1, 2]], 6),
        ('["py", ["len(lasso.values) + 0j"]]', [[1], [2]], 2 + 0j),
        ('["py", ["1 +"]]', [[1]], ValueError),
        ('["py", ["nope"]]', [[1]], ValueError),
        ('["py", ["nope"], {"lax": true}]', [[1]], [[1]]),
        ('["py", ["x = 3\\ny = x * 2\\ny"]]', [[1]], 6),
        ('["py", ["lasso._replace(values=[3])"]]', [[1]], [3]),
        ('["py", ["xleash.Lasso(values=[4])"]]', [[1]], [4]),
        ('["pipe", [["py", ["xleash.Lasso(values=[[4]])"]], ["redim", {"table": 0}]]]', [[1]], [[4]]),
        ('["pipe", [["py", ["lasso._replace(values=[[4]])"]], ["redim", [0,0,0,0,0]]]]', [[1], [2]], 4),
        ('["pipe", [["py", ["xleash.Lasso(values=[[4]], opts={\'lax\': True})"]], "nope"]]', [[1]], [[4]]),
        ('["pipe", [["py", ["xleash.Lasso(values=[[4]], opts={\'lax\': False})"]], "nope"]]', [[1]], ValueError),
        ('["pipe", [["py", ["xleash.Lasso(values=[[4]])"]], "nope"]]', [[1]], ValueError),
        ('["pipe", [["py", ["lasso._replace(opts={\'lax\': True})"]], "nope"]]', [[1]], [[1]]),
        ('"py"', [[1]], ValueError),
    ],
    "pyeval": [
        ('"pyeval"', [["1+1", 3]], [[2, 3]]),
        ('"pyeval"', [["boo haha", "[1, 2]"]], [["boo haha", [1, 2]]]),
        ('["pyeval", {"eval_all": true}]', [["2*3", "boo haha"]], ValueError),
        ('["pyeval", {"eval_all": true, "lax": true}]', [["2*3", "boo haha"]], [["2*3", "boo haha"]]),
        ('["pyeval", [["sorted"], false]]', [["[3, 1, 2]", 5]], [[[1, 2, 3], 5]]),
        ('["pyeval", {"filters": ["sorted", ["py", ["lasso.values[0]"]]]}]', [["[3, 1, 2]", "[8, 7]"]], [[1, 7]]),
        ('["pyeval", {"filters": ["sorted"]}]', [["3"]], ValueError),
        ('["pyeval", {"filters": [["sorted", {"lax": true}]]}]', [["3", "[2, 1]"], ["4", "7"]], [[3, [1, 2]], [4, 7]]),
        ('["pyeval", {"depth": 0}]', [["1+1"]], [["1+1"]]),
        ('["pyeval", {"depth": 2}]', [["1+1"]], [["1+1"]]),
        ('["pyeval", {"depth": 3}]', [["1+1"]], [[2]]),
        ('["pipe", ["dict", ["pyeval", {"include": "b"}]]]', [["b", "1+1"], ["a", "1+1"]], {"b": 2, "a": "1+1"}),
        ('["pipe", ["dict", ["pyeval", {"exclude": ["b"]}]]]', [["b", "1+1"], ["a", "1+1"]], {"b": "1+1", "a": 2}),
        ('["pyeval", {"include": "b"}]', [["1+1"]], [[2]]),
    ],
    "xlwings": [
        ('["redim", [0, 1, 1, 1, 2]]', [[7]], [7]),
        ('["redim", [0, 1, 1, 1, 2]]', [[7, 8]], [7, 8]),
        ('["redim", [0, 1, 1, 1, 2]]', [[7], [8]], [7, 8]),
        ('["redim", [0, 1, 1, 1, 2]]', [[7, 8], [9, 0]], [[7, 8], [9, 0]]),
    ],
}
