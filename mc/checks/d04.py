"""D04: Pandel merges submodels by override and leaves its inputs alone."""
import copy
import itertools as itt

import numpy as np
import pandas as pd

from pandalone.pandata import Pandel

from .. import lib

PID = "D04"

SUB = [
    lambda: 1,
    lambda: "str",
    lambda: False,
    lambda: [1, [2]],
    lambda: [],
    lambda: [{"b": 1}, None],
    lambda: (3, {"c": 1}),
    lambda: {},
    lambda: {"b": 1},
    lambda: {"b": {"c": [5]}},
    lambda: {"c": {"d": 0}, "b": [{"b": 1}]},
]
TOPS = (
    [("a", i) for i in range(len(SUB))]
    + [("b", i) for i in (0, 3, 9)]
    + [("ab", i, j) for i in (0, 5, 9, 10) for j in (1, 8, 9)]
    + [("n", None), ("e", None), ("k", None)]
)
CORE = [("a", 0), ("a", 3), ("a", 6), ("a", 9), ("a", 10), ("ab", 9, 9), ("ab", 5, 9), ("b", 9), ("e", None), ("n", None)]


def tree(t):
    kind = t[0]
    if kind == "e":
        return {}
    if kind == "n":  # a null nobody else gives
        return {"nil": None, "a": {"c": {"e": [0]}}}
    if kind == "k":
        return {"a": {"b": {"c": {"d": {"e": 1}}}}, "": 1}
    if kind == "ab":
        return {"a": SUB[t[1]](), "b": SUB[t[2]]()}
    return {kind: SUB[t[1]]()}


def nulls_ok(ts):
    return sum(t[0] == "n" for t in ts) < 2  # merging two nulls is refused: not specified here


PANDAS = [
    lambda: pd.DataFrame({"x": [1.0, 2.0]}),
    lambda: pd.DataFrame({"x": [3.0, 4.0], "y": [5.0, 6.0]}),
    lambda: {"z": [7.0, 8.0]},
    lambda: {"x": [9.0, 9.5], "z": [0.5, 0.25]},
]
SERIES = [
    lambda: pd.Series({"x": 1.0}),
    lambda: pd.Series({"y": 2.0, "x": 3.0}),
    lambda: {"z": 4.0},
    lambda: {"x": 5.0, "z": 6.0},
]
OTHER = [lambda: [1, 2], lambda: "str", lambda: np.array([1, 2]), lambda: 3]
FAMILY = {"df": PANDAS, "sr": SERIES}
SCHEMAS = {
    "none": lambda: {},
    "defaults": lambda: {
        "properties": {
            "a": {"properties": {"c": {"default": {"q": [1]}}}},
            "b": {"default": {"w": [2]}},
            "x": {"default": "dflt"},
        }
    },
}
MUTATORS = ["outside", "curate"]
BOUNDS = {
    "quick": "all stacks of up to 2 submodels out of %i trees (depth <=4: mappings, lists, tuples, scalars, texts, empty ones), of 3 out of %i "
    "and of up to 4 out of 5; DataFrames/Series/dictionaries (4 forms each, at the top and below a key) in stacks of up to 3, with every pattern of not-a-numbers in 2x2 common cells and up to 33 more columns, and against "
    "non-mapping branches in pairs; with and without schema-defaults; model modified in place outside and by a curate-function; up to 40 submodels, keys and levels" % (len(TOPS), len(CORE)),
    "thorough": "stacks of 3 out of all trees and of 4 out of %i; pandas forms in stacks of up to 4" % len(CORE),
}


def cases(tier):
    q = tier == "quick"
    for n, pool in ((1, TOPS), (2, TOPS), (3, CORE if q else TOPS), (4, CORE[3:8] if q else CORE)):
        for ts in itt.product(pool, repeat=n):
            if nulls_ok(ts):
                for sch in SCHEMAS:
                    for mut in MUTATORS:
                        if n == 4 and (sch, mut) != ("defaults", "outside"):
                            continue
                        yield ("tree", ts, sch, mut)
    for n in list(range(2, 21)) + [40]:
        yield ("size", n)
    for nan in itt.product((0, 1), repeat=4):
        for extra in (0, 1, 2, 9, 33):
            yield ("nan", nan, extra)
    for i, j in itt.product(range(len(INDICES)), repeat=2):
        if sorted(map(str, INDICES[i])) == sorted(map(str, INDICES[j])):
            for extra in (0, 1, 3):
                yield ("index", i, j, extra)
    for fam in FAMILY:
        for n in range(1, (3 if q else 4) + 1):
            for ts in itt.product(range(4), repeat=n):
                for nested in (0, 1):
                    yield (fam, ts, nested)
        for p in range(4):
            for o in range(len(OTHER)):
                for flip in (0, 1):
                    yield ("over", fam, p, o, flip)


#: Row-labels: the rows of tables, and the items of series, are matched by them.
INDICES = [[0, 1, 2], [2, 1, 0], [1, 0, 2], ["p", "q", "r"], ["r", "p", "q"], [7, 8], [8, 7], ["a", 1], [1, "a"], [-1, 0, 1], [0, -1, 1]]


class Model(Pandel):
    def __init__(self, schema, curate):
        super(Model, self).__init__([curate] if curate else ())
        self.schema = schema

    def _get_json_schema(self, is_prevalidation):
        return self.schema


def ref_merge(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        new = {k: (ref_merge(a[k], b[k]) if k in b else a[k]) for k in a}
        new.update((k, b[k]) for k in b if k not in a)
        return new
    return a if b is None else b


def ref_defaults(m):
    m = dict(m)
    m.setdefault("b", {"w": [2]})
    m.setdefault("x", "dflt")
    if isinstance(m.get("a"), dict):
        m["a"] = dict(m["a"])
        m["a"].setdefault("c", {"q": [1]})
    return m


def same(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        if type(a) is not type(b):
            return False
        if isinstance(a, pd.DataFrame):
            if sorted(a.columns) != sorted(b.columns):
                return False
            b = b[a.columns]
        else:
            if sorted(a.index) != sorted(b.index):
                return False
            b = b[a.index]
        return a.equals(b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):  # either is the same JSON array
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and (a == b or a != a and b != b)


def spoil(x):
    """Modify in place everything within the model that can be modified."""
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["SPOILED"] = 1
        for k in list(x):
            if not isinstance(x[k], (dict, list, tuple)):
                x[k] = "SPOILED"
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            x.append("SPOILED")
            x[0] = "SPOILED"
    elif isinstance(x, pd.DataFrame):
        x.iloc[:, :] = -1.0
    elif isinstance(x, pd.Series):
        x.iloc[:] = -1.0
    elif isinstance(x, np.ndarray):
        x[:] = -1


def drive(ck, subs, pristine, schema, schema0, mut, exp):
    snap = []

    def curate(pm):
        snap.append(copy.deepcopy(pm.model))
        if mut == "curate":
            spoil(pm.model)

    pm = Model(schema, curate if mut == "curate" else None)
    for s in subs:
        pm.add_submodel(s)
    for rnd in (1, 2):
        st, mdl = lib.outcome(pm.build)
        ck.step()
        if not ck.check(st == "ok", "build", "build #%i of %r raised %r", rnd, pristine, mdl):
            return
        got = snap[-1] if snap else mdl
        ck.check(same(exp, got), "model", "build #%i of %r (schema %r) gave %r, expected %r", rnd, pristine, schema0, got, exp)
        ck.check(same(list(pristine), list(subs)), "inputs", "build #%i changed the submodels %r to %r", rnd, pristine, subs)
        ck.check(pm.model is mdl, "attribute", "the model attribute is not the built model")
        if mut == "outside":
            spoil(mdl)
            ck.check(same(list(pristine), list(subs)), "aliasing", "modifying the model changed the submodels %r to %r", pristine, subs)
        ck.check(schema == schema0, "schema", "building (#%i) %r changed the schema to %r", rnd, pristine, schema)
    ck.state((exp if not isinstance(exp, (pd.DataFrame, pd.Series)) else exp.to_dict(), mut))


def run_case(ck, case):
    kind = case[0]
    if kind == "tree":
        _, ts, sch, mut = case
        subs, pristine = [tree(t) for t in ts], [tree(t) for t in ts]
        exp = None
        for t in ts:
            exp = tree(t) if exp is None else ref_merge(exp, tree(t))
        if sch == "defaults":
            exp = ref_defaults(exp)
        drive(ck, subs, pristine, SCHEMAS[sch](), SCHEMAS[sch](), mut, exp)
    elif kind == "size":
        n = case[1]
        for style in range(5):
            def make():
                out = []
                for i in range(n):
                    sub = [{"k%i" % i: [i], "same": i}, {"a": {"b": {"k%i" % (i // 2): {"c": i}}}}, {"same": i} if i else {"same": -1, "a": 0}, {"a": {"k%i" % j: {"v": i} for j in range(i, n)}}][style % 4]
                    if style == 4:
                        sub = {"x": i, "y%i" % i: [i, {"z": i}]}
                        for j in range(n):
                            sub = {"a": sub, "lvl": [j, i]}
                    out.append(sub)
                return out

            exp = {}
            for sub in make():
                exp = ref_merge(exp, sub)
            drive(ck, make(), make(), {}, {}, "curate" if n % 2 else "outside", exp)
    elif kind == "nan":
        # Not-a-numbers are no overrides, like nulls.
        _, nan, extra = case
        N = float("nan")
        b = [N if x else 10.0 + i for i, x in enumerate(nan)]
        more = {"e%i" % i: [float(i), N] for i in range(extra)}
        for keys in ("xy", "yx"):
            frames = [dict({"x": [1.0, 2.0], "y": [3.0, N]}), dict({keys[0]: b[:2], keys[1]: b[2:]}, **more)]
            exp = dict(frames[0], **more)
            for k in keys:
                exp[k] = [o if v != v else v for o, v in zip(frames[0][k], frames[1][k])]
            for nested in (0, 1):
                wrap = (lambda x: {"k": x}) if nested else (lambda x: x)
                for how in ((1, 1), (1, 0), (0, 1)):
                    make = lambda: [wrap(pd.DataFrame(f) if h else copy.deepcopy(f)) for f, h in zip(frames, how)]
                    drive(ck, make(), make(), {}, {}, "outside", wrap(pd.DataFrame(exp)))
            rows = [pd.Series({k: f[k][0] for k in f}) for f in frames]
            drive(ck, [r.copy() for r in rows], [r.copy() for r in rows], {}, {}, "outside", pd.Series({k: exp[k][0] for k in exp}))
    elif kind == "index":
        _, i, j, extra = case
        N = float("nan")

        def make():
            one = pd.DataFrame({"x": [10.0 + k for k in range(len(INDICES[i]))], "y": [20.0 + k for k in range(len(INDICES[i]))]}, index=INDICES[i])
            cols = {"x": [30.0 + k if k else N for k in range(len(INDICES[j]))]}
            cols.update(("e%i" % e, [100.0 * e + k for k in range(len(INDICES[j]))]) for e in range(extra))
            return [one, pd.DataFrame(cols, index=INDICES[j])]

        one, two = make()
        exp = one.copy()
        for c in two.columns:
            exp[c] = [one.at[k, c] if two.at[k, c] != two.at[k, c] else two.at[k, c] for k in INDICES[i]]
        drive(ck, make(), make(), {}, {}, "outside", exp)
        drive(ck, [{"k": f} for f in make()], [{"k": f} for f in make()], {}, {}, "outside", {"k": exp})
    elif kind == "over":
        _, fam, p, o, flip = case
        pair = [FAMILY[fam][p], OTHER[o]]
        if flip:
            pair.reverse()
        subs, pristine = [{"k": f()} for f in pair], [{"k": f()} for f in pair]
        drive(ck, subs, pristine, {}, {}, "outside", {"k": pair[1]()})
    else:
        _, ts, nested = case
        fam = FAMILY[kind]
        subs = [fam[i]() for i in ts]
        plain = {}
        for i in ts:
            s = fam[i]()
            plain.update({k: s[k] if kind == "sr" else list(s[k]) for k in s.keys()})
        cls = pd.DataFrame if kind == "df" else pd.Series
        exp = cls(plain) if any(i < 2 for i in ts) else plain
        pristine = [fam[i]() for i in ts]
        if nested:
            subs, pristine, exp = [{"k": s} for s in subs], [{"k": s} for s in pristine], {"k": exp}
        drive(ck, subs, pristine, {}, {}, "outside", exp)
