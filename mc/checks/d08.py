"""D08: the JSON codec gives back what was encoded."""
import collections
import datetime
import decimal
import itertools as itt
import json

import numpy as np
import pandas as pd

from pandalone.pandata import JSONCodec

from .. import lib

PID = "D08"
BYTES = [0x0D, 0x0A, 0x20, 0x09, 0x3D, 0x2E, 0x61, 0x00, 0xFF, 0x5F]
PADS = [0, 70, 71, 72, 73, 74, 75, 76, 77]
TEXTS = ["", "\r", "\n", "\r\n", "=", "=\n", " \n", "\t", ".", "\u03b1", "\U0001f600", "\x00", '"', "\\", "_", "$qpickle", "\u2028", "a\r\nb\nc"]
LEAVES = TEXTS + [0, -1, 2 ** 70, 1.5, float("inf"), None, True, False, b"", b"\r\n\n", 1j, (), frozenset([1]), decimal.Decimal("1.10"), datetime.datetime(2020, 1, 2)]
PLAIN = [0, 1, -1.5, True, False, None, "", "a", "\r\n", [], [1], {}, {"a": 1}, [{"b": [None]}], {"a": {"b": "c"}}, {"_ver": "0"}, {"qpickle": "x"}, [[]], {"": 0}]
#: Lengths, also around the powers of two.
SIZES = sorted(set(range(3, 41)) | {(1 << k) + d for k in range(5, 18) for d in (-1, 0, 1)})
BOUNDS = {
    "quick": "byte-strings: all of length <=4 over %r and all pairs of the 256 bytes, at 9 offsets of a soft line; all texts of up to 3 "
    "of %i text-pieces; all containers (list, tuple, dict key & value, set, nested) of up to 2 leaves out of %i; 50 pandas/numpy objects (0-d, empty, masked, structured arrays; scalars; labelled frames); "
    "plain JSON of %i values decoded, in compact and indented layouts; %i lengths of byte-strings & texts up to 131073, and of nested containers up to 40" % (BYTES, len(TEXTS), len(LEAVES), len(PLAIN), len(SIZES)),
    "thorough": "byte-strings of length 5, pairs of the 256 bytes at 80 offsets",
}


def cases(tier):
    q = tier == "quick"
    for pad in PADS if q else range(80):
        for a in range(256):
            yield ("pairs", pad, a)
    for n in range((4 if q else 5) - 1):
        for t in itt.product(BYTES, repeat=n):
            yield ("bytes", t)
    for n in range(1, 4):
        for t in itt.product(range(len(TEXTS)), repeat=n):
            yield ("text", t)
    for i in range(len(LEAVES)):
        for j in range(len(LEAVES)):
            yield ("nest", i, j)
    for i in range(len(frames())):
        yield ("frame", i)
    for n in SIZES:
        yield ("size", n)
    for i in range(len(PLAIN)):
        for j in range(len(PLAIN)):
            yield ("plain", i, j)


def frames():
    return [
        pd.DataFrame([]),
        pd.DataFrame({"a\r\n\n": [1, 2], "b": ["\r\n\n", None]}),
        pd.DataFrame(np.arange(13 * 10).reshape(13, 10)),
        pd.DataFrame({"a": [1.5]}, index=["\r\n"]),
        pd.Series({}, dtype=object),
        pd.Series({"a": 1}),
        pd.Series([10, 13, 10], dtype="int8"),
        pd.Series(["\n", "\r\n\n"]),
        np.array([]),
        np.arange(300, dtype="uint16"),
        np.array([13, 10, 10], dtype="uint8"),
        np.zeros((2, 3)),
        np.array(3.5),
        np.array(None, dtype=object),
        np.zeros((0, 3)),
        np.zeros((2, 0, 1), dtype="int8"),
        np.asfortranarray(np.arange(6).reshape(2, 3)),
        np.arange(12).reshape(3, 4)[::-1, ::2],
        np.arange(24, dtype="i2").reshape(2, 3, 4).T,
        np.ma.masked_array([1, 2, 3], mask=[0, 1, 0]),
        np.ma.masked_array([[1.5, 2]], mask=True),
        np.matrix([[1, 2]]),
        np.array([(1, "a")], dtype=[("x", int), ("y", "U3")]),
        np.rec.array([(1, 2.5)], dtype=[("x", int), ("y", float)]),
        np.array(["2020-01-02", "NaT"], dtype="datetime64[D]"),
        np.array(["\r\n", b"\n", None, [1]], dtype=object),
        np.array([True, False]),
        np.array(["a\n", ""]),
        np.float64(1.5),
        np.float32(1.1),
        np.int8(-3),
        np.bool_(True),
        np.str_("a\r\n"),
        np.datetime64("2020-01-02"),
        pd.Series([1, None, 3], dtype="Int64", name="nm\r\n"),
        pd.Series([1.5, None], index=pd.MultiIndex.from_tuples([("a", 1), ("b", 2)], names=["x", None])),
        pd.Series(["a", "b", "a"], dtype="category"),
        pd.Series(pd.date_range("2020-01-01", periods=3, tz="UTC"), name=0),
        pd.DataFrame({("a", 1): [1], ("a", 2): ["x"]}),
        pd.DataFrame([[1, 2.5, "a"], [3, None, None]], columns=["a", "a", 3]),
        pd.DataFrame({"a": [1, 2]}, index=pd.Index([5, 6], name="i\n")),
        pd.DataFrame(columns=["a", "b"]),
        pd.DataFrame(index=[1, 2]),
        pd.MultiIndex.from_product([[1, 2], ["a"]]),
        pd.RangeIndex(3, 9, 2),
        pd.Timedelta("3 days"),
        pd.Interval(0, 1),
        pd.Timestamp("2020-02-03"),
        pd.Index([1, 2]),
    ]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (pd.DataFrame, pd.Series, pd.Index)):
        if isinstance(a, pd.DataFrame):
            return a.equals(b) and same(a.columns, b.columns) and same(a.index, b.index) and list(a.dtypes) == list(b.dtypes)
        if isinstance(a, pd.Series):
            return a.equals(b) and same(a.index, b.index) and a.dtype == b.dtype and same(a.name, b.name)
        return a.equals(b) and list(a.names) == list(b.names)
    if isinstance(a, np.ma.MaskedArray):
        return a.dtype == b.dtype and a.shape == b.shape and (np.ma.getmaskarray(a) == np.ma.getmaskarray(b)).all() and a.filled(0).tolist() == b.filled(0).tolist()
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and repr(a.tolist()) == repr(b.tolist())
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def trip(ck, v):
    st, txt = lib.outcome(json.dumps, v, cls=JSONCodec.Encoder)
    ck.step()
    if not ck.check(st == "ok" and isinstance(txt, str), "encode", "encoding %r gave %r", v, txt):
        return
    try:
        json.loads(txt)
    except ValueError as ex:
        ck.fail("not-json", "%r encoded as invalid JSON %r: %s" % (v, txt, ex))
    st, back = lib.outcome(json.loads, txt, cls=JSONCodec.Decoder)
    ck.step()
    ck.state(txt)
    ck.check(st == "ok" and same(v, back), "round-trip", "%r came back as %r", v, back)


def run_case(ck, case):
    kind = case[0]
    if kind == "pairs":
        _, pad, a = case
        for b in range(256):
            trip(ck, b"x" * pad + bytes((a, b)))
    elif kind == "bytes":
        for c in BYTES:
            for d in BYTES:
                for pad in PADS:
                    trip(ck, b"x" * pad + bytes(case[1] + (c, d)))
    elif kind == "text":
        trip(ck, "".join(TEXTS[i] for i in case[1]))
    elif kind == "nest":
        x, y = LEAVES[case[1]], LEAVES[case[2]]
        for v in (
            [x, y], (x, y), {x: y}, {"k": [x, (y,)]}, {"k": {y: {x: 1}}}, [[x], {"": y}], {x, y}, collections.OrderedDict([("b", x), ("a", y)]),
            collections.deque([x, y]), [x, pd.Series({"a": 1}), {33: y}],
        ):
            trip(ck, v)
        if case[2] == 0:
            trip(ck, x)
        # Encoding an encoded text is no different.
        trip(ck, json.dumps([str(x), str(y)], cls=JSONCodec.Encoder))
        trip(ck, {JSONCodec._obj: str(x), JSONCodec._ver_key: y})
    elif kind == "size":
        n = case[1]
        for unit in (b"\x00\xff\r\n", b"=", b"a", b"\x80", b" \n"):
            trip(ck, (unit * n)[:n])
        for unit in ("a", "\u03b1", "=\n", '"', "\U0001f600", "\\"):
            trip(ck, (unit * n)[:n])
            trip(ck, {"k": [(unit * n)[:n], (1,)]})
        if n <= 40:
            trip(ck, 3 ** n)
            trip(ck, -(10 ** n))
            trip(ck, list(range(n)))
            trip(ck, tuple(range(n)))
            trip(ck, set(range(n)))
            trip(ck, {i: str(i) for i in range(n)})
            trip(ck, {str(i): {i} for i in range(n)})
            for leaf in ("x", {1}, b"\xff", 1.5):
                v = w = leaf
                for i in range(n):
                    v, w = [[v], {"a": v}, (v,), {i: v}][i % 4], [[w, i], {"a": w, "b": None}][i % 2]
                trip(ck, v)
                trip(ck, w)
    elif kind == "frame":
        f = frames()[case[1]]
        for v in (f, [f, 1], {"k": f, 2: (f,)}):
            trip(ck, v)
    else:
        x, y = PLAIN[case[1]], PLAIN[case[2]]
        for v in (x, [x, y], {"a": x, "b": [y]}):
            for txt in (json.dumps(v), json.dumps(v, indent=2), " " + json.dumps(v, ensure_ascii=False) + "\n"):
                st, back = lib.outcome(json.loads, txt, cls=JSONCodec.Decoder)
                ck.step()
                ck.check(st == "ok" and same(v, back), "plain", "plain JSON %r decoded to %r", txt, back)
