"""D02: set_jsonpointer()/resolve_jsonpointer() on dict/list trees, against a reference."""
import collections
import copy
import itertools as itt
import json

from jsonschema.exceptions import RefResolutionError

from pandalone.pandata import (
    Pandel,
    escape_jsonpointer_part,
    resolve_jsonpointer,
    set_jsonpointer,
)

from .. import lib

PID = "D02"
LEAF = [1, "s", None, True, 2.5]
FLAT = LEAF[:3] + [[], {}, [7], [7, 8], {"a": 1}, {"a": 1, "0": 2}, {"~/": 3, "": 4}]
DOCS = (
    FLAT
    + [[x] for x in FLAT]
    + [[x, y] for x in FLAT for y in (9, [7, 8])]
    + [{"a": x} for x in FLAT]
    + [{"a": x, "b": y} for x in FLAT for y in (9, {"a": 1})]
    + [{"a": [x, {"b": x}]} for x in FLAT]
    + [{"a": {"b": x}} for x in FLAT]
    + [[list(range(12))], {"a": list(range(12))}, {"1": [1], "-": {"-": 0}}, {"0": {"0": [0]}}]
)
DOCS = [json.loads(json.dumps(d)) for d in DOCS]  # no object twice in one document
PARTS = ["a", "b", "", "0", "1", "2", "-", "x", "~/", "-9", "1.0"]
LONG = ["10", "11", "12", "13"]
BAD = ["", "a", "a/b", " /a"]
BOUNDS = {
    "quick": "%i documents x all pointers of up to 3 parts out of %r (up to 2 with two-digit indices), two values; all sequences of 2 sets with "
    "pointers of up to 2 parts on 24 documents; malformed pointers %r; every falsy value; single branches of up to 40 levels, and lists of up to 40 items, at every level and index" % (len(DOCS), PARTS, BAD),
    "thorough": "pointers of up to 4 parts; sequences of 3 sets",
}
SEQDOCS = [{}, [], {"a": 1}, {"a": []}, {"a": {}}, [[]], {"a": [1, 2]}, {"a": {"b": "s"}}, [1, {"a": 2}], {"a": None}]
SEQPTR = [(p,) for p in ["a", "0", "1", "-"]] + list(itt.product(["a", "0"], ["a", "0", "1", "-", "b"]))


def cases(tier):
    q = tier == "quick"
    for d in range(len(DOCS)):
        for n in range(1, (3 if q else 4) + 1):
            for parts in itt.product(PARTS, repeat=n):
                yield ("doc", d, parts)
        for parts in itt.product(PARTS[:4] + LONG, repeat=2):
            yield ("doc", d, parts)
        for b in BAD:
            yield ("bad", d, b)
    for n in range(1, 41):
        yield ("deep", n, ())
        yield ("long", n, ())
    for d in range(len(SEQDOCS)):
        for ps in itt.product(SEQPTR, repeat=2 if q else 3):
            yield ("seq", d, ps)


class Unspecified(Exception):
    pass


class Refused(Exception):
    pass


MISSING = object()


def isnum(p):
    return p.isdigit() or (p[:1] == "-" and p[1:].isdigit())


def ref_get(doc, parts):
    for p in parts:
        if isinstance(doc, list):
            if not p.isdigit() or int(p) >= len(doc):
                return MISSING
            doc = doc[int(p)]
        elif isinstance(doc, dict):
            if p not in doc:
                return MISSING
            doc = doc[p]
        else:
            return MISSING
    return doc


def ref_set(doc, parts, value):
    """The document after the set; persistent (rebuilds the spine)."""
    if not parts:
        return value
    p, rest = parts[0], parts[1:]
    if isinstance(doc, list):
        if p == "-":
            i = len(doc)
        elif isnum(p) and -len(doc) <= int(p) < 0:
            raise Unspecified  # counting from the end: neither promised nor denied
        elif not isnum(p) or not 0 <= int(p) <= len(doc):
            raise Refused(p)
        else:
            i = int(p)
        if i == len(doc):
            return doc + [branch(rest, value)]
        return doc[:i] + [ref_set_in(doc[i], rest, value)] + doc[i + 1 :]
    if isinstance(doc, dict):
        new = dict(doc)
        if p in doc:
            new[p] = ref_set_in(doc[p], rest, value)
        else:
            new[p] = branch(rest, value)
        return new
    raise Refused("scalar root")


def ref_set_in(child, rest, value):
    if rest and not isinstance(child, (list, dict)):
        return branch(rest, value)  # a scalar is replaced by a branch
    return ref_set(child, rest, value)


def branch(rest, value):
    for p in reversed(rest):
        value = {p: value}
    return value


def same(a, b):
    """Equal trees, telling 1 from True and 1.0, and keeping the order of lists."""
    if type(a) is not type(b):
        return isinstance(a, dict) and isinstance(b, dict) and False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or a == b


def one_set(ck, doc, parts, value, **kw):
    """Set on `doc` (in place); check against the reference; return False if refused."""
    ptr = "".join("/" + escape_jsonpointer_part(p) for p in parts)
    before = copy.deepcopy(doc)
    try:
        exp = ref_set(before, list(parts), value)
    except Refused:
        exp = MISSING
    except Unspecified:
        return False
    st, ex = lib.outcome(set_jsonpointer, doc, ptr, value, **kw)
    ck.step()
    if exp is MISSING:
        ck.state(("refused", before))
        ck.check(st == "ex" and isinstance(ex, RefResolutionError), "refusal",
                 "setting %r in %r: expected a refusal, got %r (document now %r)", ptr, before, ex, doc)
        ck.check(same(doc, before), "refused-changed", "refused setting %r changed %r to %r", ptr, before, doc)
        return False
    ck.state(exp)
    if not ck.check(st == "ok", "accept", "setting %r in %r raised %r", ptr, before, ex):
        return False
    ck.check(same(doc, exp), "result", "setting %r in %r gave %r, expected %r", ptr, before, doc, exp)
    # Reading back: '-' reads at the index it was appended to.
    rparts, d = [], before
    for p in parts:
        if isinstance(d, list) and p == "-":
            p = str(len(d))
        rparts.append(p)
        d = ref_get(d, [p])
    rptr = "".join("/" + escape_jsonpointer_part(p) for p in rparts)
    got = resolve_jsonpointer(doc, rptr, "NOTFOUND")
    ck.step()
    ck.check(got is value, "readback", "set %r but read %r at %r of %r", value, got, rptr, doc)
    return True


def check_get(ck, doc, parts):
    ptr = "".join("/" + escape_jsonpointer_part(p) for p in parts)
    exp = ref_get(doc, parts)
    # Parts stepping into a text or (negatively) from a list's end are not specified.
    d = doc
    for p in parts:
        if isinstance(d, str) or (isinstance(d, list) and p.startswith("-") and p != "-" and -int(p) <= len(d)):
            return
        d = ref_get(d, [p])
    before = copy.deepcopy(doc)
    st, got = lib.outcome(resolve_jsonpointer, doc, ptr)
    ck.step()
    if exp is MISSING:
        ck.check(st == "ex" and isinstance(got, RefResolutionError), "get-refusal", "resolving %r in %r gave %r", ptr, doc, got)
        for dflt in (None, 0, "x"):
            st, got = lib.outcome(resolve_jsonpointer, doc, ptr, dflt)
            ck.check(st == "ok" and got is dflt, "default", "resolving %r in %r with default %r gave %r", ptr, doc, dflt, got)
    else:
        ck.check(st == "ok" and got is exp, "get", "resolving %r in %r gave %r", ptr, doc, got)
        st, got = lib.outcome(resolve_jsonpointer, doc, ptr, "DEFAULT")
        ck.check(st == "ok" and got is exp, "get-default", "resolving %r in %r gave %r", ptr, doc, got)
    # The same through a built model.
    pm = Pandel()
    pm.model = doc
    st2, got2 = lib.outcome(pm.get, ptr, default="NOTFOUND")
    ck.step()
    ck.check(st2 == "ok" and (got2 == "NOTFOUND" if exp is MISSING else got2 is exp), "model-get", "model's get(%r) of %r gave %r", ptr, doc, got2)
    st2, got2 = lib.outcome(pm.get, ptr)
    ck.check(isinstance(got2, RefResolutionError) if exp is MISSING else got2 is exp, "model-get", "model's get(%r) of %r gave %r", ptr, doc, got2)
    ck.check(same(doc, before), "get-changed", "resolving %r changed %r to %r", ptr, before, doc)


def run_case(ck, case):
    kind, d, arg = case
    if kind == "doc":
        check_get(ck, copy.deepcopy(DOCS[d]), arg)
        value = {"new": [1]} if len(arg) % 2 else "VAL"
        one_set(ck, copy.deepcopy(DOCS[d]), arg, value)
        if len(arg) <= 2:
            for value in (None, 0, False, "", [], {}):
                one_set(ck, copy.deepcopy(DOCS[d]), arg, value)
            # Branches come from the given factory.
            doc = copy.deepcopy(DOCS[d])
            made = []

            def mappings(x):
                sub = x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()
                return [x] * isinstance(x, dict) + [m for i in sub for m in mappings(i)]

            olds = mappings(doc)

            def factory():
                made.append(collections.OrderedDict())
                return made[-1]

            ptr = "".join("/" + escape_jsonpointer_part(p) for p in arg)
            st, _ = lib.outcome(set_jsonpointer, doc, ptr, "V", object_factory=factory)
            plain = copy.deepcopy(DOCS[d])
            st2, _ = lib.outcome(set_jsonpointer, plain, ptr, "V")
            ck.check(st == st2 and (st != "ok" or doc == plain), "factory", "factory gave %r, dict %r", doc, plain)

            old = [id(m) for m in olds]
            new = [m for m in mappings(doc) if id(m) not in old]
            ck.check(st != "ok" or sorted(map(id, new)) == sorted(map(id, made)), "factory-used",
                     "setting %r with a factory: %r are new, but it made %r", ptr, new, made)
    elif kind == "bad":
        doc = copy.deepcopy(DOCS[d])
        st, ex = lib.outcome(set_jsonpointer, doc, arg, 1)
        ck.step()
        ck.check(st == "ex" and isinstance(ex, RefResolutionError), "bad-pointer", "setting %r gave %r", arg, ex)
        ck.check(same(doc, DOCS[d]), "bad-changed", "setting %r changed %r", arg, doc)
        st, ex = lib.outcome(resolve_jsonpointer, doc, arg)
        if arg == "":
            ck.check(st == "ok" and ex is doc, "whole", "the empty pointer resolved to %r", ex)
        else:
            ck.check(st == "ex" and isinstance(ex, RefResolutionError), "bad-resolve", "resolving %r gave %r", arg, ex)
    elif kind == "deep":
        for style in ("dict", "list", "mixed"):
            def wrap(i, x):
                return {"a": x, "b": i} if style == "dict" or style == "mixed" and i % 2 else [x, i]

            doc, parts = "leaf", []
            for i in range(d):
                doc = wrap(i, doc)
                parts.insert(0, "a" if isinstance(doc, dict) else "0")
            for k in range(1, d + 1):
                check_get(ck, copy.deepcopy(doc), parts[:k])
                one_set(ck, copy.deepcopy(doc), parts[:k], "VAL")
                one_set(ck, copy.deepcopy(doc), parts[: k - 1] + ["2" if parts[k - 1] == "0" else "new"], "VAL")
                check_get(ck, copy.deepcopy(doc), parts[:k] + ["x", "y"])
            for tail in (["x"], ["0"], ["x", "y"], ["-", "0"]):
                # Below a text, and below other scalars.
                one_set(ck, copy.deepcopy(doc), parts + tail, "VAL")
                check_get(ck, copy.deepcopy(doc), parts + tail)
                for leaf in (0, None, True, 1.5, ""):
                    other = copy.deepcopy(doc)
                    set_in = other
                    for p in parts[:-1]:
                        set_in = set_in[int(p) if isinstance(set_in, list) else p]
                    set_in[int(parts[-1]) if isinstance(set_in, list) else parts[-1]] = leaf
                    one_set(ck, copy.deepcopy(other), parts + tail, "VAL")
                    check_get(ck, other, parts + tail)
        one_set(ck, {}, ["p%i" % i for i in range(d)], "VAL")
        one_set(ck, [], ["-"] + ["p%i" % i for i in range(d)], "VAL")
    elif kind == "long":
        for i in list(range(d + 2)) + ["-"]:
            for base in (list(range(d)), [[x] for x in range(d)]):
                one_set(ck, list(base), [str(i)], "VAL")
                one_set(ck, {"a": list(base)}, ["a", str(i)], "VAL")
                check_get(ck, list(base), [str(i)])
                check_get(ck, {"a": {"b": list(base)}}, ["a", "b", str(i)])
        doc = {"k%i" % i: i for i in range(d)}
        for i in range(d + 1):
            one_set(ck, dict(doc), ["k%i" % i], "VAL")
            check_get(ck, dict(doc), ["k%i" % i])
        doc = []
        for i in range(d):
            one_set(ck, doc, ["-"] if i % 2 else [str(i)], i)
    else:
        doc = copy.deepcopy(SEQDOCS[d])
        for i, parts in enumerate(arg):
            one_set(ck, doc, parts, ["v%i" % i])
