"""U06: captured values to pandas tables & series, against a reference building the table by hand."""
import copy
import datetime
import itertools as itt
import json
import string

import pandas as pd
from pandalone.xleash import ArraySheet, Lasso, installed_filters, lasso, make_default_Ranger

from .. import lib
from ..xlsx import colname

PID = "U06"
DATE = datetime.datetime(2020, 1, 2, 3)
CELLS = [1, 2.5, "x", None, True, "", DATE]
NAMES = ["a", "b", None, 7]
#: Header rows of the multi-row headers.
TOPS = [("a", None, "b"), ("a", "b", "c"), (None, "a", None), ("a", "a", None), (1, None, None)]
SUBS = [("x", "y", "z"), ("x", None, None), ("x", "x", "y"), (None, "x", None), ("x", "y", None)]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 27, 33, 64, 65]
SHAPES = ["rows", "runs", "skip", "columns", "headers", "spans", "indices"]
OPTS = (
    [{"header": h} for h in (0, None, 1, 2, [0], [1])]
    + [{"header": h, "index_col": i} for h in (0, None, 1) for i in (0, 1, 2, [0], [2], [0, 1], [1, 0], [0, 2])]
    + [{"index_col": i} for i in (0, [0, 1])]
    + [{"skiprows": s} for s in (0, 1, 2, [1], [0, 2])]
    + [{"skiprows": 1, "header": h} for h in (0, None, 1)]
    + [{"skiprows": 1, "index_col": i} for i in (0, [0, 1], [1, 0])]
    + [{"skiprows": [0, 2], "index_col": [0, 1]}, {"skiprows": 1, "index_col": [0, 1], "header": None}, {"skiprows": [1], "index_col": [0]}, {"skiprows": [2], "index_col": [0, 2], "header": None}]
    + [{"nrows": n} for n in (0, 1, 2, 9)]
    + [{"skipfooter": n} for n in (1, 2)]
    + [{"names": ["p", "q", "r"], "header": h} for h in (0, None)]
    + [{"names": ["p", "q", "r"], "header": [0]}, {"names": ["p", "q", "r"], "header": [1]}, {"names": ["p", "q", "r"], "header": [0], "index_col": [1]}]
    + [{"names": ["p", "q", "r"]}, {"names": ["p", "q", "r"], "index_col": 1}]
    + [{"usecols": u} for u in ([0], [1], [0, 2], "A", "B:C", "A,C", "c", 0, 1, 2)]
    + [{"usecols": u, "squeeze": True} for u in ([0], "B", [0, 1])]
    + [{"usecols": u, "header": None} for u in ([1, 2], "A:B")]
    + [{"squeeze": True, "index_col": [0, 1]}, {"squeeze": True}, {"squeeze": False, "usecols": [1]}]
    + [{"squeeze": True, "header": None, "index_col": [0, 1]}, {"nrows": 2, "header": None}, {"nrows": 1, "skiprows": 1}, {"nrows": 1, "index_col": 0}]
    + [{"nrows": 1, "header": 1}, {"nrows": 1, "header": 1, "skiprows": 1}, {"nrows": 2, "skiprows": [0], "header": None}, {"nrows": 0, "skiprows": 1}, {"nrows": 1, "skiprows": [0, 2]}, {"nrows": 1, "skiprows": [1]}]
    + [{"skipfooter": 1, "skiprows": 1}, {"skipfooter": 1, "header": None}, {"skipfooter": 1, "index_col": [0, 1]}, {"nrows": 1, "usecols": [0, 2]}, {"skiprows": 1, "usecols": [0, 2]}, {"nrows": 2, "header": 1, "index_col": [0, 1]}]
)
MULTI = [{"header": [0, 1]}] + [{"header": [0, 1], "index_col": i} for i in (0, [0], [0, 1], [1])] + [{"header": [0, 1], "skiprows": 1}, {"header": [1, 2]}]
MULTI += [{"header": [0, 1], "skiprows": [0]}, {"header": [0, 1], "skiprows": 1, "index_col": [0, 1]}, {"header": [0, 1], "skiprows": [0], "index_col": 0}]
MULTI += [{"header": [0, 1], "nrows": 1}, {"header": [0, 1], "nrows": 1, "skiprows": 1}, {"header": [0, 1], "nrows": 1, "index_col": [0, 1]}]
BAD = [{"header": True}, {"header": False}, {"skip_footer": 1}, {"chunksize": 1}, {"date_parser": "x"}, {"chunksize": 1, "header": None}]
ZEROS = [
    [[1, 1, 5], [0, 2, 0], [None, 0, 7]],
    [[0, 1.5, 5], [1, 0.0, 6], [2, None, 0.0]],
    [[True, "x", False], [False, False, True], [True, "", False]],
    [[0.0, False, "x"], [0.0, True, "y"], [0.0, False, 0]],
]
BOUNDS = {
    "quick": "%i combinations of header, index_col, names, usecols, skiprows, nrows, skipfooter & squeeze x every header row of 3 out of %i names x every pattern of blank cells in 3 rows of 3 columns (all blanks of the first two columns, some of the 3rd); and blocks of zeros & falses; %i combinations of 2-row headers x %i x %i headers x patterns; "
    "every single column of up to 3 cells and every 2x2 block out of %i cell kinds, with & without header; missing-words, dates, comments & dtypes; empty values; series of up to 3 items, from pairs and dictionaries; through xl-refs too; "
    "%i kinds of large tables (many rows, columns, skipped rows, indices; long runs of blanks) x sizes up to 65"
    % (len(OPTS), len(NAMES), len(MULTI), len(TOPS), len(SUBS), len(CELLS), len(SHAPES)),
    "thorough": "every pattern of blank cells with every option and header, columns of up to 4 cells, 3x2 blocks; large tables up to 1025",
}
ASSUMPTIONS = [
    "how pandas infers types is left to pandas: texts looking like numbers, dates or booleans are out of the alphabets, and numbers compare by value",
    "duplicate keys of series, as many header-rows as values, and headers clashing with de-duplicated ones are left open",
]


def cases(tier):
    q = tier == "quick"
    for o in range(len(OPTS)):
        for hdr in itt.product(range(len(NAMES)), repeat=3):
            yield ("opts", o, hdr)
    for o in range(len(MULTI)):
        for t, s in itt.product(range(len(TOPS)), range(len(SUBS))):
            yield ("multi", o, t, s)
    for n in range(1, 4 if q else 5):
        for col in itt.product(range(len(CELLS)), repeat=n):
            yield ("column", col)
    for col in itt.product(range(len(CELLS)), repeat=2):
        yield ("block", 2, col)
        if not q:
            yield ("block", 3, col)
    for n in range(0, 4):
        for vals in itt.product(range(len(CELLS)), repeat=n):
            yield ("series", vals)
    for i in range(len(BAD)):
        yield ("bad", i)
    for i in range(len(SPECIALS)):
        yield ("special", i)
    for o in range(len(OPTS)):
        yield ("xlref", o)
    for n in SIZES if q else SIZES + [257, 1025]:
        for shape in SHAPES:
            yield ("large", n, shape)
    for o in range(len(MULTI)):
        yield ("xlref", -1 - o)


def large(n, shape):
    """:return: pairs of rows & options, of tables having some n of something"""
    names = ["a", "b", "c"]
    body = [[i, "r%i" % i, i + 0.5] for i in range(n)]
    if shape == "rows":
        for o in ({}, {"index_col": 0}, {"index_col": [1, 0]}, {"header": None}, {"nrows": n - 1}, {"nrows": n}, {"nrows": n + 1}, {"skipfooter": n - 1}, {"squeeze": True, "index_col": [0, 1]}, {"index_col": 2, "nrows": n // 2}):
            yield [names] + body, o
    elif shape == "runs":  # The blanks of the indices extend over many rows.
        for i in (0, 1):
            for keep in {0, n // 2, n - 1}:
                rows = [r[:i] + [r[i] if j in (0, keep) else None] + r[i + 1 :] for j, r in enumerate(body)]
                for o in ({}, {"index_col": [i]}, {"index_col": i}, {"index_col": [0, 1]}, {"index_col": [1, 0], "nrows": n}, {"index_col": [i], "header": None}, {"index_col": [i, 2]}):
                    yield [names] + rows, o
    elif shape == "skip":
        pre = [["s%i" % i, i, None] for i in range(n)]
        rows = pre + [names] + body[:3]
        for o in ({"skiprows": n}, {"skiprows": list(range(n))}, {"skiprows": n, "index_col": [0, 1]}, {"skiprows": n + 1, "header": None}, {"skiprows": n, "header": [0]}, {"header": n}, {"header": n, "index_col": 1}, {"header": [n]}):
            yield rows, o
        yield [names] + body, {"skiprows": list(range(1, n))}
        yield [names] + body, {"skiprows": list(range(1, n + 1, 2)), "index_col": 0}
    elif shape == "columns":
        w = n + 1
        rows = [["c%i" % i for i in range(w)]] + [[10 * i + r if (i + r) % 3 else None for i in range(w)] for r in range(1, 4)]
        last = colname(w - 1)
        for o in ({}, {"header": None}, {"index_col": w - 1}, {"index_col": 0}, {"usecols": [0, w - 1]}, {"usecols": last}, {"usecols": last.lower()}, {"usecols": "B:%s" % last}, {"usecols": "A,%s" % last}, {"usecols": n}, {"usecols": [w - 1], "squeeze": True}, {"names": ["p%i" % i for i in range(w)]}):
            yield rows, o
        rows = copy.deepcopy(rows)
        for r in rows[1:]:
            r[0], r[w - 1] = r[0] or "x", r[w - 1] or "y"
        for o in ({"index_col": [0, w - 1]}, {"index_col": [w - 1, 0]}):
            yield rows, o
    elif shape == "headers":
        w = n + 1
        body = [[10 * i + r for i in range(w)] for r in range(1, 4)]
        for hdr in (["a"] * w, [None] * w, ["a"] + [None] * (w - 2) + ["b"], [i % 2 and "b" or "a" for i in range(w)]):
            if w < 2 or all(map(blank, hdr)):
                continue
            for o in ({}, {"header": None}, {"header": [0]}, {"index_col": 0}):
                yield [hdr] + body, o
    elif shape == "spans":  # Blanks of the header extending over many columns.
        w = 2 * n + 1
        body = [[10 * i + r for i in range(w)] for r in range(1, 4)]
        for at in {1, n, w - 1}:
            tops = ["T%i" % i if i in (0, at) else None for i in range(w)]
            for subs in (["s%i" % i for i in range(w)], ["s%i" % i if i % 3 == 0 else None for i in range(w)], ["s%i" % i if i in (0, n) else None for i in range(w)]):
                for o in ({"header": [0, 1]}, {"header": [0, 1], "index_col": [0]}):
                    yield [tops, subs] + body, o
    elif shape == "indices":
        w = n + 1
        if n > 33:
            return
        rows = [["c%i" % i for i in range(w)]] + [[None if r and (i + r) % 3 == 0 and i else "v%i-%i" % (i, r) for i in range(w)] for r in range(4)]
        for o in ({"index_col": list(range(n))}, {"index_col": list(range(n, 0, -1))}, {"index_col": list(range(n)), "squeeze": True}, {"index_col": list(range(0, w, 2))}):
            yield rows, o


# ------------------------------------------------------------ reference
MISSING = "<missing>"


def norm(v):
    """Missing values alike, numbers by value."""
    if v is None or v == "" or v is pd.NaT or v != v:
        return MISSING
    if isinstance(v, pd.Timestamp):
        return v.to_pydatetime()
    if hasattr(v, "item"):
        v = v.item()
    return v


def blank(v):
    return v is None or v == ""


def dedupe(names):
    seen, out = {}, []
    for n in names:
        k = seen.get(n, 0)
        out.append(n if not k else n[:-1] + ("%s.%s" % (n[-1], k),) if isinstance(n, tuple) else "%s.%s" % (n, k))
        seen[n] = k + 1
    return out


def fill_right(row, group=None):
    """Forward-fill the blanks of a header-row, within the same parent; return the groups of its children."""
    group = group or [0] * len(row)
    out, new = [], []
    for i, v in enumerate(row):
        own = not blank(v) or i == 0 or group[i] != group[i - 1]
        out.append(v if own else out[-1])
        new.append(i if not blank(v) or i == 0 or group[i] != group[i - 1] else new[-1])
    return out, new


def colnum(text):
    n = 0
    for c in text.strip().upper():
        n = 26 * n + string.ascii_uppercase.index(c) + 1
    return n - 1


def letters(text):
    cols = []
    for part in text.split(","):
        ends = [colnum(c) for c in part.split(":")]
        cols += range(ends[0], ends[-1] + 1)
    return cols


def ref_table(rows, header=0, names=None, index_col=None, usecols=None, skiprows=None, nrows=None, skipfooter=0, squeeze=False):
    """:return: (column-labels, index-names, index-labels, columns, column-level-names, is-series)"""
    width = len(rows[0])
    if isinstance(skiprows, int):
        skiprows = range(skiprows)
    rows = [r for i, r in enumerate(rows) if i not in (skiprows or ())]
    if skipfooter:
        rows = rows[:-skipfooter]
    if isinstance(header, list) and len(header) == 1:
        header = header[0]
    idx = index_col if isinstance(index_col, list) else [] if index_col is None else [index_col]
    level_names = None
    if header is None:
        labels, body = list(range(width)), rows
    elif isinstance(header, list):
        tops, group = fill_right(rows[header[0]])
        subs, _ = fill_right(rows[header[1]], group)
        labels = [
            (
                "Unnamed: %i_level_0" % i if blank(t) else t,
                "Unnamed: %i_level_1" % i if blank(s) else s,
            )
            for i, (t, s) in enumerate(zip(tops, subs))
        ]
        kept = [i for i in range(width) if i not in idx]
        for i, n in zip(kept, dedupe([labels[i] for i in kept])):
            labels[i] = n
        if idx:
            level_names = [norm(r[max(idx)]) for r in (tops, subs)]
        body = rows[header[1] + 1 :]
    else:
        labels = dedupe(["Unnamed: %i" % i if blank(n) else n for i, n in enumerate(rows[header])])
        body = rows[header + 1 :]
    index_names = [None] * len(idx)
    if names is not None:
        labels = names
    if header is not None and not isinstance(header, list) or names is not None:
        index_names = [labels[i] for i in idx]
        if names is None:
            index_names = [None if blank(rows[header][i]) else n for i, n in zip(idx, index_names)]
    body = [list(r) for r in body]
    if isinstance(index_col, list):
        for i in idx:
            for prev, r in zip(body, body[1:]):
                if blank(r[i]):
                    r[i] = prev[i]
    if nrows is not None:
        body = body[:nrows]
    keep = list(range(width))
    if usecols is not None:
        keep = letters(usecols) if isinstance(usecols, str) else range(usecols + 1) if isinstance(usecols, int) else usecols
    keep = [i for i in keep if i not in idx]
    columns = [[norm(r[i]) for r in body] for i in keep]
    index = [tuple(norm(r[i]) for i in idx) for r in body] if idx else [(i,) for i in range(len(body))]
    return [labels[i] for i in keep], index_names, index, columns, level_names, squeeze and len(keep) == 1


def show(table):
    """What to observe of a DataFrame or Series."""
    is_series = isinstance(table, pd.Series)
    df = table.to_frame() if is_series else table
    index = [tuple(norm(i) for i in (k if isinstance(k, tuple) else (k,))) for k in df.index]
    return (
        [tuple(norm(i) for i in c) if isinstance(c, tuple) else c for c in df.columns],
        list(df.index.names) if df.index.nlevels > 1 or df.index.name is not None else [df.index.name],
        index,
        [[norm(v) for v in df.iloc[:, i]] for i in range(df.shape[1])],
        [norm(n) for n in df.columns.names] if df.columns.nlevels > 1 else None,
        is_series,
    )


RANGER = []


def call(_filter, _values, **kwds):
    if not RANGER:
        RANGER.append(make_default_Ranger())
    func = installed_filters[_filter]["func"]
    las = Lasso(values=_values, opts={})
    return lib.outcome(func, RANGER[0], las, **kwds)


def judge(ck, rows, opts, how="direct"):
    ck.step()
    src = copy.deepcopy(rows)
    if how == "direct":
        got = call("df", rows, **copy.deepcopy(opts))
        if got[0] == "ok":
            ck.check(isinstance(got[1], Lasso), "not a lasso", "df(%r, %r) returned %r", src, opts, got[1])
            got = ("ok", got[1].values)
    else:
        ref = "#A1:%s%i:%s" % (colname(len(rows[0]) - 1), len(rows), json.dumps(["df", opts] if how == "pos" else ["df", [], opts]))
        got = lib.outcome(lasso, ref, sheet=ArraySheet(rows))
    ck.check(rows == src, "values modified", "df(%r, %r) modified the captured values: %r", src, opts, rows)
    want = ref_table(src, **opts)
    labels, index_names, index, columns, level_names, is_series = want
    if got[0] != "ok":
        ck.fail("raised", "df(%r, %r) raised %r" % (src, opts, got[1]))
        return
    table = got[1]
    if not ck.check(isinstance(table, pd.Series if is_series else pd.DataFrame), "type", "df(%r, %r) gave a %s", src, opts, type(table).__name__):
        return
    got = show(table)
    if len(labels) == 0 and not index:
        want = want[:1] + (got[1],) + want[2:]
    if level_names is None and isinstance(opts.get("header"), list) and len(opts["header"]) > 1:
        got = got[:4] + (None,) + got[5:]
    if opts.get("index_col") is None:
        want = (want[0], [None]) + want[2:]
    elif opts.get("header") is None and "header" in opts and "names" not in opts:
        want = (want[0], got[1]) + want[2:]  # How un-named indices get named.
    elif isinstance(opts.get("header"), list) and len(opts["header"]) > 1:
        want = (want[0], got[1]) + want[2:]
    else:
        # How blank index-headers get named is left open.
        want = (want[0], [g if w is None else w for g, w in zip(got[1], want[1])]) + want[2:]
    ck.state((want,))
    for part, w, g in zip(("labels", "index names", "index", "columns", "column-level names", "is-series"), want, got):
        if not ck.check(w == g, part, "df(%r, %r): %s are %r, not %r\n%s", src, opts, part, g, w, table):
            return


def run_case(ck, case):
    kind = case[0]
    deep = not ck.quick
    if kind == "opts":
        opts = dict(OPTS[case[1]])
        hdr = [NAMES[i] for i in case[2]]
        base = [[11, 12, 13], ["r", 22, 23.5], [31, "s", 33]]
        if case[2][0] == 0:  # Zeros, falses and empty texts are values too, but for the last ones.
            for zeros in ZEROS:
                rows = [list(hdr)] + [list(r) for r in zeros]
                if usable(rows, opts) and not all(map(blank, rows[0])):
                    judge(ck, rows, opts)
        masks = range(512) if deep else [m for m in range(64) if not m & (m >> 3)] if sum(case[2]) % 2 else [0, 1, 5, 18, 63]
        for m in masks:
            rows = [hdr] + [[None if m >> (c * 3 + r) & 1 else base[r][c] for c in range(3)] for r in range(3)]
            for r in rows:
                if all(blank(v) for v in r):
                    break
            else:
                if usable(rows, opts):
                    judge(ck, rows, opts)
    elif kind == "multi":
        opts = dict(MULTI[case[1]])
        top, sub = list(TOPS[case[2]]), list(SUBS[case[3]])
        pre = [["skipped", "s2", "s3"]] if "skiprows" in opts or opts["header"] == [1, 2] else []
        base = [[11, 12, 13], ["r", 22, 23.5], [31, "s", 33]]
        for m in range(64 if deep else 16):
            rows = pre + [top, sub] + [[None if c < 2 and r and m >> (c * 2 + r - 1) & 1 else base[r][c] for c in range(3)] for r in range(3)]
            if usable(rows, opts):
                judge(ck, copy.deepcopy(rows), opts)
    elif kind == "column":
        vals = [CELLS[i] for i in case[1]]
        for name in ("a", 7):
            judge(ck, [[name]] + [[v] for v in vals], {})
            judge(ck, [[name]] + [[v] for v in vals], {"squeeze": True})
        judge(ck, [[v] for v in vals], {"header": None})
    elif kind == "block":
        n = case[1]
        for rest in itt.product(CELLS, repeat=2 * (n - 1)):
            rows = [[CELLS[i] for i in case[2]]] + [list(rest[2 * i : 2 * i + 2]) for i in range(n - 1)]
            judge(ck, [["a", "b"]] + rows, {})
            judge(ck, copy.deepcopy(rows), {"header": None})
    elif kind == "series":
        vals = [CELLS[i] for i in case[1]]
        keys = ["k", 2, "m"][: len(vals)]
        for values in ([list(p) for p in zip(keys, vals)], dict(zip(keys, vals)), list(zip(keys, vals))):
            for kwds in ({}, {"name": "foo"}, {"dtype": "object"}):
                ck.step()
                src = copy.deepcopy(values)
                got = call("sr", values, **kwds)
                if not ck.check(got[0] == "ok" and isinstance(got[1], Lasso) and isinstance(got[1].values, pd.Series), "series", "sr(%r, %r) gave %r", src, kwds, got):
                    continue
                sr = got[1].values
                ck.check(values == src, "values modified", "sr(%r) modified the captured values: %r", src, values)
                ck.check(list(sr.index) == keys, "series", "sr(%r) has keys %r", src, list(sr.index))
                ck.check([norm(v) for v in sr] == [norm(v) for v in vals], "series", "sr(%r) has values %r", src, list(sr))
                ck.check(sr.name == kwds.get("name"), "series", "sr(%r, %r) is named %r", src, kwds, sr.name)
                ck.state((case, str(sr.dtype)))
    elif kind == "bad":
        opts = BAD[case[1]]
        ck.step()
        got = lib.outcome(lasso, "#A1:B2:%s" % json.dumps(["df", opts]), sheet=ArraySheet([["a", "b"], [1, 2]]))
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "bad option", "df with %r gave %r", opts, got)
    elif kind == "special":
        rows, opts, want = SPECIALS[case[1]]
        ck.step()
        got = call("df", copy.deepcopy(rows), **opts)
        ck.check(
            got[0] == "ok" and isinstance(got[1], Lasso) and [[norm(v) for v in got[1].values[c]] for c in got[1].values.columns] == want,
            "special", "df(%r, %r) gave %r, not columns %r", rows, opts, got, want,
        )
    elif kind == "large":
        for rows, opts in large(*case[1:]):
            if usable(rows, opts):
                for how in ("direct", "kwds") if len(rows[0]) < 40 else ("direct",):
                    judge(ck, copy.deepcopy(rows), opts, how)
        if case[2] == "rows":
            items = [("k%i" % i, i) for i in range(case[1])]
            for values in ([list(p) for p in items], dict(items)):
                got = call("sr", values)
                ck.check(got[0] == "ok" and list(got[1].values.items()) == items, "series", "sr of %i items gave %r", case[1], got)
    elif kind == "xlref":
        opts = OPTS[case[1]] if case[1] >= 0 else MULTI[-1 - case[1]]
        for rows in (
            [["a", "b", "c"], [11, 12, 13], ["r", None, 23.5], [31, "s", 33], [41, 42, 43]],
            [["a", "b", "c"], ["x", "y", "z"], [11, 12, 13], ["r", None, 23.5], [31, "s", 33]],
        ):
            if usable(rows, opts):
                judge(ck, copy.deepcopy(rows), opts, "kwds")
                judge(ck, copy.deepcopy(rows), opts, "pos")
    else:
        raise AssertionError(kind)


def usable(rows, opts):
    """Whether pandas' own conventions leave no doubt on the table."""
    header = opts.get("header", 0)
    skip = opts.get("skiprows")
    kept = [r for i, r in enumerate(rows) if i not in (range(skip) if isinstance(skip, int) else skip or ())]
    last = max(header) if isinstance(header, list) else -1 if header is None else header
    if len(kept) - (opts.get("skipfooter") or 0) < last + 2:
        return False
    if not isinstance(header, list) and header is not None:
        used = [n for n in kept[header] if not blank(n)]
        if any(isinstance(n, float) for n in used):
            return False
    if isinstance(header, list) and len(header) > 1:
        idx = opts.get("index_col")
        idx = [idx] if isinstance(idx, int) else idx or []
        if sum(map(blank, kept[last + 1])) >= len(kept[0]) - len(idx):
            return False  # Taken by pandas as a row naming the indices.
    return True


SPECIALS = [
    ([["a", "b"], ["NA", "x"], ["y", "n/a"]], {}, [[MISSING, "y"], ["x", MISSING]]),
    ([["a", "b"], ["NA", "x"], ["y", "n/a"]], {"keep_default_na": True}, [[MISSING, "y"], ["x", MISSING]]),
    ([["a", "b"], ["NA", "x"], ["y", "n/a"]], {"keep_default_na": False}, [["NA", "y"], ["x", "n/a"]]),
    ([["a", "b"], ["zz", "x"], ["y", "zz"]], {"na_values": ["zz"]}, [[MISSING, "y"], ["x", MISSING]]),
    ([["a", "b"], ["NA", "zz"], ["y", "y"]], {"na_values": ["zz"], "keep_default_na": False}, [["NA", "y"], [MISSING, "y"]]),
    ([["a", "b"], ["yes", 1], ["no", 2]], {"true_values": ["yes"], "false_values": ["no"]}, [[True, False], [1, 2]]),
    ([["a", "b"], ["1,000", 1], ["2", 2]], {"thousands": ","}, [[1000, 2], [1, 2]]),
    ([["a", "b"], [1, 2], [3, 4]], {"dtype": "float"}, [[1.0, 3.0], [2.0, 4.0]]),
    ([["a", "b"], [1, 2], [3, 4]], {"dtype": {"a": "str"}}, [["1", "3"], [2, 4]]),
    ([["a", "b"], ["2020-01-02", "x"], ["2021-03-04", "y"]], {"parse_dates": ["a"]}, [[datetime.datetime(2020, 1, 2), datetime.datetime(2021, 3, 4)], ["x", "y"]]),
    ([["a", "b"], ["x", "2020-01-02"], ["y", "2021-03-04"]], {"parse_dates": [1]}, [["x", "y"], [datetime.datetime(2020, 1, 2), datetime.datetime(2021, 3, 4)]]),
    ([["a", "b"], ["2020-01-02", "x"]], {"parse_dates": False}, [["2020-01-02"], ["x"]]),
    ([["a", "b"], ["k#foo", 1], ["#bar", 2], ["l", 3]], {"comment": "#"}, [["k", "l"], [MISSING, 3]]),
    ([["a", "b"], ["k#foo", 1], ["#bar", 2], ["l", 3]], {}, [["k#foo", "#bar", "l"], [1, 2, 3]]),
    ([["a", "b"], ["k", "k"], ["m", "m"]], {"na_values": {"a": ["k"], "b": ["m"]}}, [[MISSING, "m"], ["k", MISSING]]),
    ([["a", "b"], ["1.000,5", "x"], ["2,5", "y"]], {"thousands": ".", "decimal": ","}, [[1000.5, 2.5], ["x", "y"]]),
    ([["a", "b", "c"], [1, 2, 3]], {"usecols": ["a", "c"]}, [[1], [3]]),
    ([["a", "b", "c"], [1, 2, 3]], {"usecols": lambda n: n != "b"}, [[1], [3]]),
    ([["s", "s"], ["a", "b"], ["s", 1], ["k", 2]], {"skiprows": lambda i: i in (0, 2)}, [["k"], [2]]),
    ([["a", "b"], [1, 2]], {"verbose": False, "convert_float": True, "engine": None}, [[1], [2]]),
    ([], {}, []),
    ([], {"header": [0, 1]}, []),
    ([["a", "b"], [1, 2]], {"skiprows": 2}, []),
    ([["a", "b"]], {}, [[], []]),
    ([["a", "b"]], {"header": [0]}, [[], []]),
]
