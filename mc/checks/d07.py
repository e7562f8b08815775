"""D07: automatic defaults and null-removal, as a decision table at every depth."""
import copy
import itertools as itt

import numpy as np
import pandas as pd

from pandalone.pandata import PandelVisitor

from .. import lib

PID = "D07"
ABSENT = "<absent>"
TYPES = [ABSENT, "null", "number", ["null", "number"], ["number", "string"], ["number", "null", "object"], ["string", "number", "null"], ["string", "object", "array", "number"], []]
DEFAULTS = [ABSENT, 7, None, {"q": [1]}]
VALUES = [ABSENT, None, 0, 5, "", False, {}, "<nan>", "<np.nan>"]
NANS = {"<nan>": float("nan"), "<np.nan>": np.float64("nan")}
ODDS = [  # (makes a value, whether it is a null)
    (lambda: np.float32("nan"), True),
    (lambda: np.float16("nan"), True),
    (lambda: np.array(float("nan")), True),
    (lambda: np.float32(1), False),
    (lambda: np.float64(0), False),
    (lambda: np.int64(0), False),
    (lambda: np.bool_(False), False),
    (lambda: np.array(0.0), False),
    (lambda: np.array([]), False),
    (lambda: np.array([1.0]), False),
    (lambda: np.array([0, 0]), False),
    (lambda: np.array(["nan"]), False),
    (lambda: np.array([float("nan")] * 2), False),
    (lambda: np.array([1.0, float("nan")]), False),
    (lambda: np.array([[float("nan"), 0.0]]), False),
    (lambda: pd.Series([0.0]), False),
    (lambda: pd.Series([], dtype=float), False),
    (lambda: pd.Series([float("nan"), 0.0]), False),
    (lambda: pd.Series([float("nan")] * 2, index=["a", "b"]), False),
    (lambda: pd.Series([0], index=["size"]), False),
    (lambda: pd.DataFrame([[0.0]]), False),
    (lambda: pd.DataFrame(), False),
    (lambda: pd.DataFrame([[0.0, float("nan")]], columns=["size", "b"]), False),
    (lambda: pd.DataFrame([[float("nan")] * 2] * 2), False),
    (lambda: "nan", False),
    (lambda: "null", False),
    (lambda: (None,), False),
    (lambda: [None], False),
    (lambda: {"size": 1}, False),
    (lambda: b"", False),
    (lambda: complex(0), False),
]
ARGS = [True, False, None]
SWITCH = [ABSENT, True, False, None]
WRAPS = ["top", "prop", "items", "addprops", "patprops", "anyof", "ref"]
BOUNDS = {
    "quick": "the whole table: 9 types x 4 defaults x 9 values (missing, null, NaN, falsy, truthy) x 27 validator switches x 64 own switches (null ones included) at the top; "
    "the same with 3 types, 2 defaults, 4 values in 6 nestings (properties, items, additionalProperties, patternProperties, anyOf, $ref); "
    "pairs of properties; nested defaults; mappings and Series; %i odd values (numpy scalars and arrays, pandas containers, NaNs in them); two validations in a row; up to 40 properties, items and levels" % len(ODDS),
    "thorough": "the whole table in all nestings",
}


def cases(tier):
    q = tier == "quick"
    for wrap in WRAPS:
        full = wrap == "top" or not q
        types = TYPES if full else [TYPES[2], TYPES[3], TYPES[0]]
        for t, d, v in itt.product(types, DEFAULTS if full else DEFAULTS[:2], VALUES if full else VALUES[:4]):
            for args in itt.product(ARGS, repeat=3):
                yield ("table", wrap, t, d, v, args)
    for p, s in itt.product(PROPS, repeat=2):
        yield ("pair", p, s)
    for n in range(len(NESTED)):
        for args in itt.product(ARGS, repeat=3):
            yield ("nested", n, args)
    for t, d, v in itt.product(TYPES[:5], DEFAULTS[:3], VALUES[:6] + VALUES[-2:]):
        yield ("series", t, d, v)
    for t, d, n in itt.product(TYPES, DEFAULTS[:3], range(len(ODDS))):
        for args in itt.product(ARGS[:2], repeat=3):
            yield ("odd", t, d, n, args)
    for n in list(range(3, 21)) + [40]:
        for args in itt.product(ARGS[:2], repeat=3):
            yield ("size", n, args)


def sized(n):
    """Many properties, items and levels."""
    kinds = [{"default": 1, "type": "integer"}, {"type": "number"}, {"default": [2]}, {"default": None, "type": ["null", "string"]}, {"type": "null"}, {"default": {}, "properties": {"b": {"default": 3}}}]
    for off in range(len(kinds)):
        props = {"k%i" % i: kinds[(i + off) % len(kinds)] for i in range(n)}
        yield {"properties": props}, {}
        yield {"properties": props}, {k: None for k in props}
        yield {"properties": props}, {k: [None, 0, 5][i % 3] for i, k in enumerate(props) if i % 4}
        yield {"additionalProperties": {"properties": {"a": kinds[off], "b": kinds[off - 1]}}}, {k: {"a": None} if i % 2 else {"b": None} for i, k in enumerate(props)}
        yield {"items": {"properties": {"a": kinds[off], "b": kinds[off - 1]}}}, [{"a": None} if i % 2 else {} for i in range(n)]
        schema, inst = {"properties": {"a": kinds[off], "b": kinds[off - 1]}}, {"a": None, "z": None}
        for i in range(n):
            if i % 3:
                schema, inst = {"properties": {"c": schema, "b": kinds[(off + i) % len(kinds)]}}, {"c": inst, "b": None, "z": None}
            else:
                schema, inst = {"items": schema}, [inst, None]
        yield schema, inst


PROPS = list(itt.product([TYPES[2], TYPES[3]], DEFAULTS[:2], VALUES[:3], [ABSENT, True, False]))
NESTED = [
    ({"a": {"default": {}, "properties": {"b": {"default": 1}}}}, {}),
    ({"a": {"default": {}, "properties": {"b": {"default": 1}}}}, {"a": None}),
    ({"a": {"default": {}, "type": "object", "properties": {"b": {"default": 1}}}}, {"a": None, "z": None}),
    ({"a": {"properties": {"b": {"properties": {"c": {"default": [2], "type": "array"}}}}}}, {"a": {"b": {"c": None}, "c": None}, "c": None}),
    ({"a": {"properties": {"b": {"properties": {"c": {"default": [2], "type": "array"}}}}}}, {"a": {"b": {}, "c": None}}),
    ({"a": {"items": {"properties": {"b": {"default": 3, "type": "number"}}}}}, {"a": [{}, {"b": None}, {"b": 1}, 5, None, [{}]], "b": None}),
    ({"a": {"type": "object", "properties": {"b": {"type": "number"}}}, "b": {"type": "number"}}, {"a": {"b": None, "c": None}, "b": None, "c": None}),
    ({"a": True, "b": {"default": 2}}, {"a": None}),
    ({"a": {"$ref": "#/properties/b", "default": 5}, "b": {"type": "number"}}, {}),
    ({"a": {"$ref": "#/properties/b", "default": 5}, "b": {"type": "number"}}, {"a": None, "b": None}),
    ({"a": {"$ref": "#/properties/b", "autoDefault": False, "default": 5}, "b": {"type": ["number", "null"], "autoRemoveNull": True}}, {"b": None}),
    ({"a": {"autoDefault": False, "default": 1}, "b": {"autoDefault": True, "default": 2, "properties": {"c": {"default": 3, "autoDefault": False}}}}, {}),
    ({"a": {"default": 1, "properties": {"b": {"default": 2}}}}, {"a": {"c": 1}}),
    ({"a": {"default": {"b": None}, "properties": {"b": {"type": "number", "default": 4}}}}, {}),
    ({"a": {"autoRemoveNull": True, "type": "object"}, "b": {"autoRemoveNull": False, "type": "object"}}, {"a": None, "b": None}),
]


def absent(x):
    return isinstance(x, str) and x == ABSENT


def value(v):
    return NANS[v] if isinstance(v, str) and v in NANS else copy.deepcopy(v)


def subschema(t, d, sw):
    s = {}
    if not absent(t):
        s["type"] = t
    if not absent(d):
        s["default"] = d
    for k, v in zip(("autoDefault", "autoDefaultNull", "autoRemoveNull"), sw):
        if not absent(v):
            s[k] = v
    return s


def on(sub, key, arg):
    own = sub.get(key)
    return bool(arg if own is None else own)


def null_allowed(t):
    return t == "null" or (isinstance(t, list) and "null" in t)


def is_null(v):
    return v is None or isinstance(v, float) and v != v


def ref_apply(inst, schema, args):
    """The instance after validation (a new tree)."""
    if isinstance(schema, bool):
        return inst
    if "$ref" in schema:
        return ref_apply(inst, schema["definitions"]["x"], args) if "definitions" in schema else inst
    for sub in schema.get("anyOf", ()):
        inst = ref_apply(inst, sub, args)
    if isinstance(inst, list):
        if "items" in schema:
            return [ref_apply(i, schema["items"], args) for i in inst]
        return inst
    if not isinstance(inst, dict):
        return inst
    new = dict(inst)
    props = schema.get("properties", {})
    for k, sub in props.items():
        if isinstance(sub, bool):
            continue
        if k not in new:
            if "default" in sub and on(sub, "autoDefault", args[0]):
                new[k] = copy.deepcopy(sub["default"])
        elif is_null(new[k]) and not null_allowed(sub.get("type")):
            if "default" in sub and on(sub, "autoDefaultNull", args[1]):
                new[k] = copy.deepcopy(sub["default"])
            elif on(sub, "autoRemoveNull", args[2]):
                del new[k]
    for k in new:
        if k in props:
            new[k] = ref_apply(new[k], props[k], args)
        elif "patternProperties" in schema:
            for sub in schema["patternProperties"].values():
                new[k] = ref_apply(new[k], sub, args)
        elif "additionalProperties" in schema:
            new[k] = ref_apply(new[k], schema["additionalProperties"], args)
    return new


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b or a != a and b != b


def drive(ck, schema, inst, args, kind):
    schema0 = copy.deepcopy(schema)
    exp = ref_apply(copy.deepcopy(inst), schema, args)
    exp2 = ref_apply(copy.deepcopy(exp), schema, args)
    got = copy.deepcopy(inst)
    kw = dict(zip(("auto_default", "auto_default_nulls", "auto_remove_nulls"), args))
    st, errs = lib.outcome(lambda: list(PandelVisitor(schema, **kw).iter_errors(got)))
    ck.step()
    ck.state((repr(schema), args, repr(exp)))
    ck.check(st == "ok", "raised", "schema %r with %r on %r raised %r", schema0, kw, inst, errs)
    ck.check(same(exp, got), kind, "schema %r with %r on %r gave %r, expected %r", schema0, kw, inst, got, exp)
    st, errs = lib.outcome(lambda: list(PandelVisitor(schema, **kw).iter_errors(got)))
    ck.step()
    ck.check(same(exp2, got), kind + "-again", "re-validating schema %r with %r on %r gave %r, expected %r", schema0, kw, inst, got, exp2)
    ck.check(same(schema, schema0), "schema", "schema %r changed to %r", schema0, schema)
    # The filled defaults are the instance's own.
    for v in list(got.values()) if isinstance(got, dict) else ():
        if isinstance(v, dict):
            v["SPOILED"] = 1
            for w in v.values():
                if isinstance(w, list):
                    w.append("SPOILED")
    ck.check(same(schema, schema0), "default-aliased", "modifying the instance changed the schema %r to %r", schema0, schema)


def wrapped(wrap, sub, inst):
    """(schema, instance) with `inst` validated by `sub` somewhere."""
    other = {"other": None, "x": 1}
    if wrap == "top":
        return sub, inst
    if wrap == "prop":
        return {"properties": {"w": sub}}, dict(other, w=inst)
    if wrap == "items":
        return {"items": sub}, [inst, None, copy.deepcopy(inst)]
    if wrap == "addprops":
        return {"properties": {"x": {}}, "additionalProperties": sub}, dict(other, w=inst)
    if wrap == "patprops":
        return {"patternProperties": {"^w": sub}}, {"w": inst, "w2": copy.deepcopy(inst)}
    if wrap == "anyof":
        return {"anyOf": [sub]}, inst
    return {"$ref": "#/definitions/x", "definitions": {"x": sub}}, inst


def run_case(ck, case):
    kind = case[0]
    if kind == "table":
        _, wrap, t, d, v, args = case
        for sw in itt.product(SWITCH if wrap == "top" or not ck.quick else SWITCH[:3], repeat=3):
            inst = {"z": None, "y": 0}
            if not absent(v):
                inst["p"] = value(v)
            sub = {"properties": {"p": subschema(t, copy.deepcopy(d), sw), "y": {"type": "string", "default": "unused"}}}
            schema, inst = wrapped(wrap, sub, inst)
            drive(ck, schema, inst, args, "table")
    elif kind == "pair":
        schema, inst = {"properties": {}}, {}
        for name, (t, d, v, s) in zip("pq", case[1:]):
            schema["properties"][name] = subschema(t, d, (s, s, s))
            if not absent(v):
                inst[name] = v
        for args in ((True,) * 3, (False,) * 3, (True, False, True), (False, True, False)):
            drive(ck, schema, inst, args, "pair")
    elif kind == "nested":
        _, n, args = case
        props, inst = NESTED[n]
        drive(ck, {"properties": copy.deepcopy(props)}, copy.deepcopy(inst), args, "nested")
    elif kind == "size":
        for schema, inst in sized(case[1]):
            drive(ck, copy.deepcopy(schema), inst, case[2], "size")
    elif kind == "odd":
        _, t, d, n, args = case
        val = ODDS[n][0]()
        kept = copy.deepcopy(val)
        sub = subschema(t, d, (ABSENT,) * 3)
        inst = {"p": val, "z": None}
        kw = dict(zip(("auto_default", "auto_default_nulls", "auto_remove_nulls"), args))
        st, errs = lib.outcome(lambda: list(PandelVisitor({"properties": {"p": sub}}, **kw).iter_errors(inst)))
        ck.step()
        ck.state((repr(kept), repr(sub), args))
        ck.check(st == "ok", "raised", "schema %r with %r on %r raised %r", sub, kw, kept, errs)
        if ODDS[n][1] and not null_allowed(t) and (args[1] and "default" in sub or args[2]):
            ok = "p" in inst and same(inst["p"], sub["default"]) if args[1] and "default" in sub else "p" not in inst
        else:
            ok = inst.get("p") is val and repr(val) == repr(kept)
        ck.check(ok and inst.get("z", 0) is None, "odd", "schema %r with %r on %r gave %r", sub, kw, kept, inst)
    else:
        _, t, d, v = case
        for args in itt.product(ARGS[:2], repeat=3):
            inst = {"z": "other"}
            if not absent(v):
                inst["p"] = value(v)
            schema = {"properties": {"p": subschema(t, d, (ABSENT,) * 3)}}
            exp = ref_apply(inst, schema, args)
            got = pd.Series(list(inst.values()), index=list(inst), dtype=object)
            kw = dict(zip(("auto_default", "auto_default_nulls", "auto_remove_nulls"), args))
            st, errs = lib.outcome(lambda: list(PandelVisitor(schema, **kw).iter_errors(got)))
            ck.step()
            ck.check(st == "ok" and same(exp, dict(got.items())), "series", "schema %r with %r on a Series of %r gave %r, expected %r", schema, kw, inst, dict(got.items()), exp)
