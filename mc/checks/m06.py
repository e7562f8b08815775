"""M06: path-objects made from tables of columns, and the attributes & json-schemas of their steps."""
import itertools as itt

import pandas as pd

from pandalone.mappings import Pstep, pstep_from_df

from .. import lib, refmap

PID = "M06"
PATHS = ["", "/A", "/B", "/A/b", "/A/b/c", "/C/d"]
NAMES = ["foo", "../X", "B/C", "/R", "X/", "CO2 [g/km]", None]
FEWP = ["/A", "/A/b", "/C/d", ""]
FEWN = ["foo", "../X", None]
COLS = [(), ("renames",), ("renames", "a b"), ("unit", "renames", "x1"), ("names_x", "the", "the cols")]
NAN = float("nan")
VALUES = [["FOO", "LL"], None, 0, "km", NAN, [], 1.5, {"k": 1}, True, ""]
TYPED = [int, float, bool]  # column types, that a row of the table mixes
SPOTS = ["", "a", "a.b", "c"]
SETS = [("type", "object"), ("minimum", 0), ("title", None), ("enum", [1])]
OPS = (
    [("set", s) + kv for s in SPOTS for kv in SETS]
    + [("get", s) for s in SPOTS]
    + [("exists", s) for s in SPOTS]
    + [("name", "a", "N"), ("name", "a.b", "Q/W")]
)
BOUNDS = {
    "quick": "all tables of up to 2 rows over %i paths x %i names, and of 3 rows over %i x %i, with %i sets of attribute-columns (object & typed), two name-columns; "
    "all sequences of 3 out of %i schema operations; tables of up to 101 rows (siblings, levels, repeated) x 101 columns; pairs of schema operations repeated as often" % (len(PATHS), len(NAMES), len(FEWP), len(FEWN), len(COLS), len(OPS)),
    "thorough": "as quick, with 3-row tables over all the paths x names, and sequences of 4 schema operations",
}


def cases(tier):
    q = tier == "quick"
    rows = list(itt.product(PATHS, NAMES))
    for cols in COLS:
        for name_col in ("names", "the col"):
            yield ("table", (), cols, name_col, False)
            for typed in (False, True):
                for n in (1, 2):
                    for table in itt.product(rows, repeat=n):
                        if typed and n == 2 and table[0][1] != table[1][1]:
                            continue
                        yield ("table", table, cols, name_col, typed)
    few = list(itt.product(FEWP, FEWN)) if q else rows
    for table in itt.product(few, repeat=3):
        yield ("table", table, COLS[2], "names", False)
    for ops in itt.product(OPS, repeat=3 if q else 4):
        yield ("schema", ops)
    for n in (8, 9, 10, 11, 16, 17, 33, 65, 101):
        kids = [("/k%i" % i, "N%i" % i) for i in range(n)]
        deep = [("/" + "/".join("k%i" % j for j in range(i + 1)), ("N%i" % i, "../M%i" % i, None)[i % 3]) for i in range(n)]
        for table in (kids, deep, kids[::-1], deep[::-1], deep[-1:], kids + kids[:1], [("/k", "V%i" % i) for i in range(n)], [p for q in zip(kids, deep) for p in q]):
            for cols in (COLS[0], COLS[2], tuple("c%i" % i for i in range(n))):
                yield ("table", tuple(table), cols, "names", False)
                if cols:
                    yield ("table", tuple(table), cols, "names", True)
        for ops in itt.product(OPS, repeat=2):
            yield ("schema", ops * n)


def run_case(ck, case):
    (run_table if case[0] == "table" else run_schema)(ck, *case[1:])


INTERNAL = set(vars(Pstep()))


def nodes_of(p, path=""):
    yield path, p
    for key, c in (vars(p)["_csteps"] or {}).items():
        yield from nodes_of(c, path + "/" + key)


def own(node):
    return {k: v for k, v in vars(node).items() if k not in INTERNAL}


def run_table(ck, table, cols, name_col, typed):
    data, attrs = {}, []
    for i, _ in enumerate(table):
        attrs.append([TYPED[j % len(TYPED)](i * 10 + j) if typed else VALUES[(i * 4 + j) % len(VALUES)] for j in range(len(cols))])
    data[name_col] = pd.Series([n for _, n in table], dtype=object)
    for j, col in enumerate(cols):
        data[col] = pd.Series([a[j] for a in attrs], dtype=TYPED[j % len(TYPED)] if typed else object)
    df = pd.DataFrame(data, columns=list(cols[:1]) + [name_col] + list(cols[1:]))
    df.index = pd.Index([p for p, _ in table], dtype=object)
    before = [list(df.columns), list(df.index), df.values.tolist()]
    args = (df,) if name_col == "names" else (df, name_col)
    p = pstep_from_df(*args)
    ck.step()
    ck.check([list(df.columns), list(df.index), df.values.tolist()] == before, "table-modified", "table became %r", df)

    expect = {"": {}}
    for (path, _), vals in zip(table, attrs):
        steps = path.split("/")[1:]
        for n in range(len(steps)):
            expect.setdefault("/" + "/".join(steps[: n + 1]), {})
        expect[path].update(("_" + c, v) for c, v in zip(cols, vals))
    got = {path: own(node) for path, node in nodes_of(p)}
    ck.check(set(got) == set(expect), "steps", "tree has steps %r, expected %r", sorted(got), sorted(expect))
    for path in expect:
        g, e = got.get(path), expect[path]
        ck.check(g == e and (not g or [type(g[k]) for k in e] == [type(e[k]) for k in e]), "attributes", "step %r has attributes %r, expected %r", path, g, e)

    root = refmap.build(table)
    leafs = [x for x in expect if not any(y.startswith(x + "/") for y in expect)]
    exp = sorted({refmap.map_path(root, x) for x in leafs})
    paths = p._paths()
    ck.step()
    ck.check(paths == exp, "paths", "tree has paths %r, expected %r", paths, exp)
    ck.state((paths, sorted(got.items(), key=repr)))


def spot_of(p, spot):
    for s in spot.split(".") if spot else ():
        p = getattr(p, s)
    return p


def run_schema(ck, ops):
    p = Pstep("r")
    ref = {s: None for s in SPOTS}
    for s in SPOTS:
        spot_of(p, s)
    for op in ops:
        kind, spot = op[:2]
        node = spot_of(p, spot)
        if kind == "set":
            setattr(node._schema, op[2], op[3])
            ref[spot] = dict(ref[spot] or {}, **{op[2]: op[3]})
        elif kind == "get":
            sch = node._schema
            ref[spot] = ref[spot] or {}
            ck.check(sch.todict() == ref[spot], "schema", "schema of %r is %r, expected %r", spot, sch.todict(), ref[spot])
            ck.check(node._schema is sch, "schema-recreated", "asking the schema of %r twice gave different ones", spot)
        elif kind == "name":
            head, _, last = spot.rpartition(".")
            setattr(spot_of(p, head), last, op[2])
        ck.step()
        for s in SPOTS:
            n = spot_of(p, s)
            ck.check(n._schema_exists() == (ref[s] is not None), "exists", "after %r: %r has%s a schema", op, s, "" if n._schema_exists() else " not")
            if ref[s] is not None:
                ck.check(n._schema.todict() == ref[s], "schema", "after %r: schema of %r is %r, expected %r", op, s, n._schema.todict(), ref[s])
    ck.state(sorted(ref.items(), key=repr))
