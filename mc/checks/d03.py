"""D03: resolve_path() on trees of mappings, sequences and attributes, against a reference walk."""
import collections
import copy
import itertools as itt
import types

import numpy as np
import pandas as pd
from jsonschema.exceptions import RefResolutionError

from pandalone.pandata import escape_jsonpointer_part, resolve_path

from .. import lib

PID = "D03"


class Obj(object):
    """A branch with attributes only."""

    def __init__(self, **kws):
        self.__dict__.update(kws)

    def __repr__(self):
        return "Obj(%r)" % self.__dict__


class Rich(object):
    """A branch with attributes of all kinds."""

    __slots__ = ("a",)
    b = {"a": "of class"}

    def __init__(self):
        self.a = [0, {"x": "of slot"}]

    @property
    def x(self):
        return self.a[1]

    def __eq__(self, other):
        return type(other) is Rich and other.a == self.a


class Magic(Obj):
    """Attributes made up on demand."""

    def __getattr__(self, name):
        if name in ("a", "0"):
            return {"x": name}
        raise AttributeError(name)


class Item(dict):
    """A mapping with attributes."""


def docs():
    item = Item(a=1, b={"a": 2})
    item.x = "attr"
    item.a = "shadowed"
    ns = Obj(a={"b": [5, {"a": 6}]}, x=Obj(a=0, b=None))
    return [
        {},
        {"a": 0, "b": {"a": False, "x": None, "b": [[], [3], {"a": ""}]}},
        {"a": {"a": {"a": {}}, "b": 1}, "0": {"0": "zero", "a": [1]}},
        [{"a": 1, "b": [10, 11, {"a": 12}]}, [], [[7]], "txt"],
        ({"a": (1, {"b": 2})}, (3,)),
        {"": {"a": 1, "": {"a": 2}}, "a": {"": 3, "a": {"b": 4}}},
        {"a": ns, "b": item, "x": (ns, [ns])},
        ns,
        item,
        [item, ns, {"": [1]}],
        {"~/": {"a": 1}, "a": {"~": 2, "/": [8]}},
        {"a": pd.DataFrame({"a": [1, 2], "x": [3, 4]}), "b": pd.Series({"a": 5, "b": 6})},
        {"a": np.array([1, 2]), "b": {"a": None}},
        {"a": collections.UserList([{"a": 1}, "x", [5]]), "b": collections.deque([{"b": [1]}, 2]), "x": range(5, 9), "0": collections.UserList()},
        Rich(),
        {"a": Rich(), "x": [Rich(), Magic(b=[Rich()])], "b": Magic()},
        {"0": "text", 0: "number", 1: {"a": 1}, "a": {2: "x", "2": {1: 2}, "b": (0, {1: "y", "0": "z"})}, "b": {True: 1, None: 2}},
    ]


def roots():
    return [
        ("none", lambda: None),
        ("dict", lambda: {"a": "R", "b": {"a": "RR", "0": "R0"}}),
        ("empty", lambda: {}),
        ("list", lambda: [{"a": "L"}, "M"]),
        ("emptylist", lambda: []),
        ("frame", lambda: pd.DataFrame({"a": ["F"], "b": [1]})),
        ("obj", lambda: Obj(a="O")),
        ("zero", lambda: 0),
    ]


NDOCS = len(docs())
ROOTS = roots()
PARTS = ["a", "b", "x", "", "0", "1", "2", "nope", "~", "/", "~/"]
DEFAULTS = [None, False, 0, "", "dflt", []]
BOUNDS = {
    "quick": "%i documents (mappings, sequences, attribute-objects, pandas and numpy branches, falsy leaves, '' keys) x all paths of up to 4 steps "
    "out of %r (5 out of the first 6) x 8 roots (falsy ones included), with %i defaults; single branches of up to 40 levels, and sequences of up to 40 items" % (NDOCS, PARTS[:8], len(DEFAULTS)),
    "thorough": "paths of up to 6 steps",
}


def cases(tier):
    q = tier == "quick"
    for d in range(NDOCS):
        for n in range(1, 5):
            for parts in itt.product(PARTS if n < 3 or n < 4 and not q else PARTS[:8], repeat=n):
                for r in range(len(ROOTS)):
                    if r and "" not in parts:
                        continue
                    yield (d, r, parts)
    for n in range(1, 41):
        yield ("deep", n, None)
    for d in range(NDOCS):
        for n in (5,) if q else (5, 6):
            for parts in itt.product(PARTS[:6], repeat=n):
                for r in (0, 1, 2, 5):
                    if r and "" not in parts:
                        continue
                    yield (d, r, parts)


MISSING = object()


def ref_step(d, p):
    if isinstance(d, (list, tuple, collections.UserList, collections.deque, range)):
        if p.isdigit():
            return d[int(p)] if int(p) < len(d) else MISSING
    elif isinstance(d, dict):
        if p in d:
            return d[p]
    elif isinstance(d, pd.DataFrame):
        if p in d.columns:
            return d[p]
    elif isinstance(d, pd.Series):
        raise Unspecified if p.isdigit() else KeyError
    elif isinstance(d, (str, np.ndarray)) and p.isdigit():
        raise Unspecified
    return MISSING


class Unspecified(Exception):
    pass


def ref_walk(doc, parts, root):
    d = doc
    for p in parts:
        if isinstance(d, pd.Series):
            if p.isdigit():
                raise Unspecified
            nd = d[p] if p in d.index else MISSING
        else:
            nd = ref_step(d, p)
        if nd is MISSING and p:
            nd = getattr(d, p, MISSING)
        if nd is MISSING and p == "":
            nd = root
        if nd is MISSING:
            return MISSING
        d = nd
    return d


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (pd.DataFrame, pd.Series, np.ndarray)):
        return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, Obj):
        return type(b) is type(a) and same(a.__dict__, b.__dict__)
    if isinstance(a, dict):
        return type(a) is type(b) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and bool(a == b)


_cache = {}


def deep(ck, n):
    for style in range(4):
        doc, parts = "leaf", []
        chain = [doc]
        for i in range(n):
            k = style if style < 3 else i % 3
            doc = [{"a": doc}, [i, doc], Obj(a=doc)][k]
            parts.insert(0, ["a", "1", "a"][k])
            chain.insert(0, doc)
        for k in range(n + 1):
            path = parts[:k]
            for p, want in ((path, chain[k]), (["nope", ""][:0] + path + [""], doc), (path + [""] + parts[:2], chain[min(n, 2)]), (path + ["", "", ""] + path, chain[k])):
                if not p or k == n and "" in p[k:]:
                    continue  # The leaf is a text.
                st, got = lib.outcome(resolve_path, doc, "/".join(p))
                ck.step()
                ck.check(st == "ok" and got is want, "deep", "resolving %r in %i levels gave %r", p, n, got)
            st, got = lib.outcome(resolve_path, doc, "/".join(path + ["nope"] + parts[k:]))
            ck.check(st == "ex" and isinstance(got, RefResolutionError), "deep", "resolving a missing item below %r in %i levels gave %r", path, n, got)
            st, got = lib.outcome(resolve_path, doc, "/".join(path + ["nope"] + parts[k:]), None)
            ck.check(st == "ok" and got is None, "deep", "resolving a missing item below %r in %i levels gave %r", path, n, got)
    ck.state(("deep", n))
    for name in ("_a", "__a", "a b", "class", "\u03b1", "-1", "a.b", "Items", "_" * n, "a" * n):
        obj = Obj(x=Obj(**{name: n}), **{name: [Obj(**{name: "in"})]})
        for path, want in ((name, vars(obj)[name]), ("x/" + name, n), (name + "/0/" + name, "in"), (name + "/0/nope" + name, "dflt"), ("x/x" + name, "dflt")):
            st, got = lib.outcome(resolve_path, obj, path, "dflt")
            ck.step()
            ck.check(st == "ok" and got is want, "attribute", "resolving %r of %r gave %r", path, obj, got)
    for seq in (list(range(100, 100 + n)), tuple([i] for i in range(n)), {str(i): i for i in range(n)}, {"k%i" % i: i for i in range(n)}):
        for i in range(n + 1):
            for key in (str(i), "k%i" % i):
                st, got = lib.outcome(resolve_path, {"s": seq}, "s/" + key, "dflt")
                ck.step()
                want = seq.get(key, "dflt") if isinstance(seq, dict) else seq[i] if i < n and key[0] != "k" else "dflt"
                ck.check(st == "ok" and got is want, "deep", "resolving item %r of %r gave %r", key, seq, got)


def run_case(ck, case):
    di, ri, parts = case
    if di == "deep":
        return deep(ck, ri)
    if di not in _cache:
        _cache[di] = (docs()[di], docs()[di])
    doc, pristine = _cache[di]
    root = ROOTS[ri][1]()
    try:
        exp = ref_walk(doc, parts, doc if root is None else root)
    except Unspecified:
        return
    path = "/".join(escape_jsonpointer_part(p) for p in parts)
    kw = {} if ri == 0 and len(parts) % 2 else {"root": root}
    st, got = lib.outcome(resolve_path, doc, path, **kw)
    ck.step()
    ck.state((di, ri, repr(exp) if exp is not MISSING else "MISSING"))
    if exp is MISSING:
        ck.check(st == "ex" and isinstance(got, RefResolutionError), "refusal",
                 "resolving %r in %r (root %r): expected a reference-resolution error, got %r", path, doc, root, got)
        for dflt in DEFAULTS if len(parts) < 4 else DEFAULTS[:1]:
            st, got = lib.outcome(resolve_path, doc, path, dflt, **kw)
            ck.step()
            ck.check(st == "ok" and got is dflt, "default", "resolving %r in %r (root %r) with default %r gave %r", path, doc, root, dflt, got)
    else:
        ck.check(st == "ok" and same(exp, got), "resolve", "resolving %r in %r (root %r): expected %r, got %r", path, doc, root, exp, got)
        if len(parts) < 4:
            st, got = lib.outcome(resolve_path, doc, path, "DEFAULT", **kw)
            ck.step()
            ck.check(st == "ok" and same(exp, got), "resolve-default", "resolving %r in %r (root %r) with a default: expected %r, got %r", path, doc, root, exp, got)
    if len(parts) < 3:
        ck.check(same(pristine, doc), "modified", "resolving %r modified the document to %r", path, doc)
