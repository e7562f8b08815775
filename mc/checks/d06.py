"""D06: verdicts on pandas/numpy instances equal those of a standard validator on plain JSON."""
import itertools as itt

import jsonschema
import numpy as np
import pandas as pd

from pandalone.pandata import PandelVisitor

from .. import lib

PID = "D06"
D4 = "http://json-schema.org/draft-04/schema#"
D6 = "http://json-schema.org/draft-06/schema#"
D7 = "http://json-schema.org/draft-07/schema#"

TYPES = ["null", "boolean", "integer", "number", "string", "array", "object"]
SCALARS = [None, True, False, 0, 1, 2, -3, 1.5, 2.5, "", "a", "ab"]
ARRAYS = [[], [1], [True], [None], [1, 2], [1, 1], [1, True], [0, False], [1.5, 2.5], ["a"], ["a", "ab"], [1, "a"], [None, 1], [1, 2, 3],
          [[1]], [[1], [2]], [[1, 2], [1, 2]], [{"a": 1}], [{"a": 1}, {"a": 1}], [[], 1], [{"a": True}, {"a": 1}]]
OBJECTS = [{}, {"a": 1}, {"a": True}, {"a": None}, {"a": "a"}, {"b": 1.5}, {"a": 1, "b": 2}, {"a": 1, "b": "a"}, {"ab": 0, "b": None},
           {"a": [1]}, {"a": [1, 2], "b": [1, 1]}, {"a": ["a", "ab"]}, {"a": [True]}, {"a": {"a": 1}}, {"a": {"a": [1, 2]}, "b": 2}, {"a": [{"a": 1}]}, {"a": [[1, 2]]},
           {"ba": 1}, {"ba": "a", "ab": 2}, {"": 1}, {"b": None, "bab": 1.5}, {"c": 1, "d": "a", "e": None}]
PLAIN = SCALARS + ARRAYS + OBJECTS

GENERIC = [{}] + [{"type": t} for t in TYPES] + [{"type": list(p)} for p in itt.combinations(TYPES, 2)]
SCALAR_S = [
    {"enum": [1]}, {"enum": [True]}, {"enum": [0, "a"]}, {"enum": [False, None]}, {"enum": [1.5, 2]}, {"enum": ["a", [1]]},
    {"const": 1}, {"const": True}, {"const": 0}, {"const": False}, {"const": None}, {"const": "a"}, {"const": 1.5},
    {"minimum": 1}, {"maximum": 1}, {"exclusiveMinimum": 1}, {"exclusiveMaximum": 1.5}, {"multipleOf": 2}, {"multipleOf": 0.5},
    {"minLength": 1}, {"maxLength": 1}, {"pattern": "^a$"},
]
ARRAY_S = [
    {"items": {"type": "integer"}}, {"items": {"type": "boolean"}}, {"items": {"type": "null"}}, {"items": {"enum": [1, "a"]}},
    {"items": [{"type": "integer"}]}, {"items": [{"type": "integer"}, {"type": "string"}]}, {"items": [{}], "additionalItems": False},
    {"items": [{}], "additionalItems": {"type": "integer"}}, {"minItems": 1}, {"maxItems": 1}, {"minItems": 2, "maxItems": 2},
    {"uniqueItems": True}, {"contains": {"type": "string"}}, {"contains": {"const": 1}},
    {"enum": [[1]]}, {"enum": [[1, 2], [True]]}, {"const": [1, 2]}, {"const": [1, "a"]}, {"enum": [[], [None]]},
    {"type": "array", "items": {"type": "number"}, "minItems": 1},
    {"items": {"minItems": 2}}, {"items": {"items": {"type": "integer"}, "type": "array"}}, {"items": {"uniqueItems": True}}, {"enum": [[[1, 2], [1, 2]]]},
]
OBJECT_S = [
    {"properties": {"a": {"type": "integer"}}}, {"properties": {"a": {"type": "boolean"}}}, {"properties": {"a": {"type": ["null", "string"]}}},
    {"properties": {"a": {"enum": [1, "a"]}, "b": {"minimum": 2}}}, {"required": ["a"]}, {"required": ["a", "b"]},
    {"additionalProperties": False, "properties": {"a": {}}}, {"additionalProperties": {"type": "integer"}},
    {"additionalProperties": False, "patternProperties": {"^a": {}}}, {"patternProperties": {"a": {"type": "integer"}}},
    {"patternProperties": {"^b$": {"type": "null"}}, "additionalProperties": {"type": "number"}},
    {"propertyNames": {"pattern": "^a"}}, {"propertyNames": {"maxLength": 1}}, {"minProperties": 1}, {"maxProperties": 1},
    {"dependencies": {"a": ["b"]}}, {"dependencies": {"b": {"required": ["a"]}}},
    {"enum": [{"a": 1}, 1]}, {"enum": [{"a": [1, 2], "b": [1, 1]}]}, {"const": {"a": 1, "b": 2}}, {"const": {"a": {"a": 1}}},
    {"type": "object", "required": ["a"], "properties": {"a": {"type": "number"}}},
]
MIXED = [
    {"properties": {"a": {"items": {"type": "integer"}}}}, {"properties": {"a": {"uniqueItems": True}, "b": {"uniqueItems": True}}},
    {"properties": {"a": {"minItems": 2}}}, {"properties": {"a": {"enum": [[1, 2], [1], 1]}}}, {"properties": {"a": {"properties": {"a": {"type": "string"}}}}},
    {"additionalProperties": {"minItems": 2}}, {"items": {"properties": {"a": {"type": "boolean"}}}}, {"items": {"required": ["a"], "type": "object"}},
    {"patternProperties": {"a": {"contains": {"enum": [2, "ab"]}}}},
]
UNIT = SCALAR_S + ARRAY_S + OBJECT_S
REF = [
    {"definitions": {"x": {"type": "integer"}}, "items": {"$ref": "#/definitions/x"}},
    {"definitions": {"x": {"type": "integer"}}, "additionalProperties": {"$ref": "#/definitions/x"}},
    {"properties": {"a": {"$ref": "#"}}, "type": ["object", "integer"]},
    {"if": {"required": ["a"]}, "then": {"properties": {"a": {"type": "integer"}}}, "else": {"minProperties": 1}},
    {"if": {"minItems": 2}, "then": {"uniqueItems": True}, "else": {"items": {"type": "integer"}}},
]
PROPS = [None, {"a": {}}, {"b": {"type": "integer"}}, {"a": {"type": "integer"}, "b": {}}]
PATS = [None, {"^a": {}}, {"b": {}}, {"b$": {"type": "integer"}}, {"^b$": {}, "a$": {"type": "number"}}, {"a|x": {}, "q": {}}, {"": {}}, {"^$": {}, "^.a": {"type": "string"}}, {"B": {}}]
ADDS = [None, True, False, {}, {"type": "integer"}, {"type": ["string", "null"]}, {"not": {}}, {"minimum": 1}]
ITEMS = [None, True, False, {}, {"type": "integer"}, [], [{}], [{"type": "integer"}, {}], [True, False]]
MORE_ITEMS = [None, True, False, {}, {"type": "string"}]
SIZES = [{}, {"minItems": 0}, {"minItems": 2}, {"maxItems": 1}, {"maxItems": 0}, {"minItems": 1, "uniqueItems": True}, {"uniqueItems": False}]
LIMITS = [None, -3, 0, 1, 1.5, 2]


def grid(**axes):
    """Every combination of keywords; None means absent."""
    for vals in itt.product(*axes.values()):
        yield {k: v for k, v in zip(axes, vals) if v is not None}


PRODUCTS = (
    list(grid(properties=PROPS, patternProperties=PATS, additionalProperties=ADDS))
    + [dict(g, **z) for g in grid(items=ITEMS, additionalItems=MORE_ITEMS) for z in SIZES
       if not (isinstance(g.get("items"), bool) and "additionalItems" in g)]
    + list(grid(minimum=LIMITS, maximum=LIMITS[::2], exclusiveMinimum=LIMITS[::3], multipleOf=[None, 0.5, 2]))
    + list(grid(required=[None, [], ["a"], ["ab", "b"]], propertyNames=[None, True, {"pattern": "b"}, {"maxLength": 1}, {"enum": ["a", "b"]}], minProperties=[None, 2], maxProperties=[None, 0, 1]))
)
SCALAR_STYLES = ["py", "np", "np2", "npu"]
ARRAY_STYLES = ["list", "tuple", "nd", "ndobj", "sr", "srobj", "nd2", "ndu"]
OBJECT_STYLES = ["dict", "sr", "srobj", "df"]
STYLES = list(itt.product(SCALAR_STYLES, ARRAY_STYLES, ARRAY_STYLES[:1] + ["nd", "sr", "tuple"], OBJECT_STYLES))
BOUNDS = {
    "quick": "%i JSON trees (depth <=3) x %i schemas over all keywords of drafts 4, 6 and 7 (all combinations of the keywords for properties, for items, for numeric limits and for names), the units' pairwise not/allOf/anyOf/oneOf combinations, and nested "
    "below properties/items, x all container styles (%i combinations of scalar, outer/inner array and object styles, those giving distinct instances); arrays, objects and nestings of up to 40 items, keys and levels"
    % (len(PLAIN), len(GENERIC + UNIT + MIXED + REF + PRODUCTS), len(STYLES)),
    "thorough": "all ordered pairs of unit schemas in every combinator, and each one nested twice",
}
ASSUMPTIONS = [
    "Not decided: NaN as null; a Series where a schema tells arrays from objects (documented as both); the number of properties of a DataFrame "
    "(documented as its rows); floats with integral values against 'integer' (drafts differ); multi-dimensional arrays (documented as unsupported).",
]


def schemas(tier):
    q = tier == "quick"
    base = GENERIC + UNIT + MIXED + REF + PRODUCTS
    for s in base:
        yield s
    for s in UNIT + GENERIC[1:8]:
        yield {"not": s}
        yield {"items": s}
        yield {"properties": {"a": s}}
        yield {"additionalProperties": s}
        yield {"$schema": D4, "properties": {"a": {"items": s}}}
        yield {"$schema": D6, "items": {"items": s, "additionalProperties": s}}
        if not q:
            yield {"properties": {"a": {"not": {"items": s}}}}
            yield {"items": {"anyOf": [s, {"items": s}]}}
    core = UNIT[::3] if q else UNIT
    for s, t in itt.product(core, repeat=2):
        if s is not t:
            yield {"oneOf": [s, t]}
            if core.index(s) < core.index(t):
                yield {"anyOf": [s, t]}
                yield {"allOf": [s, t], "$schema": D7}
    for s in UNIT:
        if not any(k in s for k in ("const", "contains", "propertyNames")) and not any(k.startswith("exclusive") for k in s):
            yield dict(s, **{"$schema": D4})


_SCHEMAS = {}


def all_schemas(tier):
    if tier not in _SCHEMAS:
        _SCHEMAS[tier] = list(schemas(tier))
    return _SCHEMAS[tier]


def cases(tier):
    for s in all_schemas(tier):
        yield (s,)
    for n in list(range(3, 13)) + [16, 20, 33, 40]:
        yield ("size", n)


def sized(n):
    """(instances, schemas) of that many items, keys and levels."""
    nums, keys = list(range(n)), ["k%i" % i for i in range(n)]
    arrays = [nums, nums[:-1] + [0], nums[:-1] + [n - 2], nums[1:] + [True], ["s%i" % i for i in nums], ["s%i" % i for i in nums[:-1]] + ["s0"], [[i] for i in nums], [[i] for i in nums[:-1]] + [[0]], [i + 0.5 for i in nums]]
    arrays += [nums[:i] + [bad] + nums[i + 1 :] for i in {0, n // 2, n - 1} for bad in ("x", None, True, 1.5)]
    objects = [dict(zip(keys, nums)), dict(zip(keys[1:], nums)), {k: [1, 2] for k in keys}]
    objects += [dict(zip(keys, a)) for a in arrays[9:]]
    deep, wide = [7, "x"], [{"a": 7}, {"a": "x"}]
    for _ in range(n):
        deep = [[d] for d in deep]
        wide = [{"a": d} for d in wide]
    unit = {"type": "integer"}
    schemas = [
        {"items": unit}, {"items": {"type": "number"}}, {"uniqueItems": True}, {"minItems": n}, {"minItems": n + 1}, {"maxItems": n}, {"maxItems": n - 1}, {"contains": {"type": "string"}},
        {"contains": {"const": n - 1}}, {"items": [{}] * (n - 1) + [unit]}, {"items": [{}] * (n - 1), "additionalItems": False}, {"items": [{}] * (n - 1), "additionalItems": unit},
        {"enum": [nums, 1]}, {"const": nums}, {"items": {"maximum": n - 2}},
        {"properties": {keys[-1]: unit}}, {"properties": {k: unit for k in keys}, "additionalProperties": False}, {"required": keys}, {"minProperties": n}, {"maxProperties": n - 1}, {"additionalProperties": unit},
        {"propertyNames": {"enum": keys}}, {"patternProperties": {"[0-4]$": unit}}, {"const": dict(zip(keys, nums))},
        {"type": ["array", "object", "integer"], "items": {"$ref": "#"}, "additionalProperties": {"$ref": "#"}},
    ]
    return arrays + objects + deep + wide, schemas


class Inapplicable(Exception):
    pass


def encode(x, style, depth=0, path=()):
    sc, arr, inner, obj = style
    if isinstance(x, list):
        how = arr if depth == 0 else inner
        items = [encode(i, style, depth + 1) for i in x]
        if how == "list":
            return items
        if how == "tuple":
            return tuple(items)
        if how in ("nd2", "ndu"):
            # Compact element-types.
            types = {int: np.uint8 if how == "ndu" and not any(isinstance(i, int) and i < 0 for i in x) else np.int16, float: np.float32 if how == "nd2" else np.float16, bool: bool}
            if len({type(i) for i in x}) == 1 and type(x[0]) in types:
                return np.array(x, dtype=types[type(x[0])])
            how = "nd"
        if how in ("nd", "sr"):
            kinds = {type(i) for i in x}
            if len(kinds) == 1 and kinds <= {int, float, bool}:
                return np.array(x) if how == "nd" else pd.Series(x)
            if not items:
                return np.array([]) if how == "nd" else pd.Series([], dtype=float)
        a = np.empty(len(items), dtype=object)
        for i, v in enumerate(items):
            a[i] = v
        return a if how in ("nd", "ndobj") else pd.Series(a, dtype=object)
    if isinstance(x, dict):
        items = {k: encode(v, style, depth + 1) for k, v in x.items()}
        if obj == "dict":
            return items
        if obj == "df" and x and all(isinstance(v, list) and v for v in x.values()) and len({len(v) for v in x.values()}) == 1:
            if all(not isinstance(i, (list, dict)) for v in x.values() for i in v):
                return pd.DataFrame({k: pd.Series(v, dtype=None if len({type(i) for i in v}) == 1 and v[0] is not None else object) for k, v in x.items()})
        if obj in ("sr", "df") and x and len({type(v) for v in x.values()}) == 1 and type(list(x.values())[0]) in (int, float, bool):
            return pd.Series(x)
        sr = pd.Series([None] * len(items), index=pd.Index(list(items), dtype=object), dtype=object)
        for i, v in enumerate(items.values()):
            sr.values[i] = v
        return sr
    if sc == "py" or x is None:
        return x
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if sc == "np" else np.int8(x) if sc == "np2" or x < 0 else np.uint16(x)
    if isinstance(x, float):
        return np.float64(x) if sc == "np" else np.float32(x) if sc == "np2" else np.float16(x)
    return np.str_(x)


def sig(x):
    """A structural signature (types included), to tell encodings apart and note where Series lie."""
    if isinstance(x, pd.DataFrame):
        return ("df", tuple((k, sig(x[k])) for k in x.columns))
    if isinstance(x, pd.Series):
        return ("sr", str(x.dtype), tuple((k, sig(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), tuple(map(sig, x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(sig, x)))
    if isinstance(x, dict):
        return ("dict", tuple((k, sig(v)) for k, v in x.items()))
    return (type(x).__name__, repr(x))


def roles(plain, enc, out):
    """Collect which JSON roles the Series of the instance play."""
    if isinstance(enc, (pd.Series, pd.DataFrame)):
        out.add(("df" if isinstance(enc, pd.DataFrame) else "sr", "array" if isinstance(plain, list) else "object"))
        if not len(plain):
            out.add("empty")
    if isinstance(plain, list):
        for p, e in zip(plain, enc):
            roles(p, e, out)
    elif isinstance(plain, dict):
        for k in plain:
            roles(plain[k], enc[k], out)
    return out


ARRAY_KW = {"items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains"}
OBJECT_KW = {"properties", "required", "additionalProperties", "patternProperties", "propertyNames", "minProperties", "maxProperties", "dependencies"}


def keywords(s, out):
    """The keywords of a schema; types as 'type:x'."""
    if isinstance(s, dict):
        for k, v in s.items():
            if k in ("enum", "const"):
                out.add(k)
            elif k in ("properties", "patternProperties", "definitions"):
                if k != "definitions":
                    out.add(k)
                for sub in v.values():
                    keywords(sub, out)
            elif k == "type":
                for t in [v] if isinstance(v, str) else v:
                    out.add("type:" + t)
            elif k == "dependencies":
                out.add(k)
                for sub in v.values():
                    keywords(sub if isinstance(sub, dict) else {}, out)
            else:
                out.add(k)
                keywords(v, out)
    elif isinstance(s, list):
        for i in s:
            keywords(i, out)
    return out


_ENC = []


def encodings():
    if not _ENC:
        _ENC.extend(map(encodings_of, PLAIN))
    return _ENC


def encodings_of(plain):
    seen = {}
    for style in STYLES:
        e = encode(plain, style)
        seen.setdefault(sig(e), (style, e))
    return [(style, e, roles(plain, e, set())) for style, e in seen.values()]


def run_case(ck, case):
    if case[0] == "size":
        plains, schemas = sized(case[1])
        encs = [encodings_of(p) for p in plains]
        for schema in schemas:
            judge(ck, schema, plains, encs)
    else:
        judge(ck, case[0], PLAIN, encodings())


def judge(ck, schema, plains, encodings):
    kws = keywords(schema, set())
    arrayish = kws & ARRAY_KW or "type:array" in kws
    objectish = kws & OBJECT_KW or "type:object" in kws
    counts = kws & {"minProperties", "maxProperties"}
    std = jsonschema.validators.validator_for(schema)(schema)
    mine = PandelVisitor(schema, auto_default=False)
    for plain, encs in zip(plains, encodings):
        exp = not list(std.iter_errors(plain))
        ck.state((repr(schema), repr(plain), exp))
        for style, enc, rl in encs:
            if rl:
                if objectish and (("sr", "array") in rl or ("df", "object") in rl and (counts or "type:object" in kws or arrayish)):
                    continue
                if arrayish and ("sr", "object") in rl:
                    continue
                if "empty" in rl and kws & {"enum", "const", "uniqueItems"}:
                    # Whether arrays or objects: just no errors.
                    st, got = lib.outcome(lambda: not list(mine.iter_errors(enc)))
                    ck.check(st == "ok", "exception", "schema %r on %r as %r (%r) raised %r", schema, plain, enc, style, got)
                    continue
            before = sig(enc)
            st, got = lib.outcome(lambda: not list(mine.iter_errors(enc)))
            ck.step()
            if st == "ex":
                ck.fail("exception", "schema %r on %r as %r (%r) raised %r" % (schema, plain, sig(enc), style, got))
            else:
                ck.check(got is exp, "verdict", "schema %r on %r as %r: standard validator says %r, got %r", schema, plain, sig(enc), exp, got)
            if sig(enc) != before:
                ck.fail("modified", "schema %r modified %r to %r" % (schema, before, sig(enc)))
                _ENC.clear()
                return
