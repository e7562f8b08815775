"""X09: real workbook files, read back and captured as in-memory sheets of the same data are."""
import contextlib
import http.server
import itertools as itt
import os
import shutil
import tempfile
import threading
import urllib.parse

from pandalone import xleash
from pandalone.xleash import ArraySheet, Coords, EmptyCaptureException, SheetsFactory

from .. import lib, refxl, xlsx
from .x04 import EXPS, FIRST, SECOND, VALUES, rect_ok, same

PID = "X09"
KINDS = list(xlsx.KINDS)
FEW = ["none", "blank", "int", "text", "emptytxt", "false", "div0", "date"]
FULLS = ["int", "text", "zero", "emptytxt", "false", "float", "moment", "na", "spaced"]
SIZES = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
DAYS = [0, 1, 2, 31, 32, 58, 59, 61, 365, 366, 367, 1460, 1461, 1462, 36525, 36526, 36585, 43830, 73050, 2958464 - 1462]
FRACTIONS = [0, 0.25, 0.5, 45296 / 86400.0, 1 / 86400.0, 60 / 86400.0, 3600 / 86400.0, 86399 / 86400.0, 86399.999 / 86400, 0.001 / 86400, 43200.25 / 86400, 45296.789 / 86400]
NUMBERS = [
    "0", "1", "7.0", "1.5", "0.1", "1E-10", "1.0000000001", "0.9999999999", "2.00000001", "99999999.5", "123456789.125", "1E-300", "4.9E-324", "1.7976931348623157E+308",
    "2147483647", "2147483648", "4294967296", "9007199254740991", "9007199254740993", "4503599627370495.5", "1E+15", "123456789012345678", "1E+22", "3.3333333333333335", "0.30000000000000004",
]
NUMSTYLES = ["0", "3", "4", "5", "6", "7", "8", "9", "10"]
TEXTS = ["a", " ", "5", "-0", "1.5", "TRUE", "None", "nan", "#N/A", "#A1", "=1+1", "é", "\u4e2d\u6587", "\U0001f600", "a\nb", "\ta ", "&lt;", "<b>", "'", '"', "x" * 300, "2001-02-03", "0x1", "1e5"]
ERRORS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A"]
LAYOUTS = ["plain", "dim", "oversized", "blanks", "trailing", "shifted"]
LONG = [8, 9, 10, 11, 16, 17, 25, 26, 27, 28, 32, 33, 52, 53, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 702, 703, 704, 1024, 1025]
NAMES = [tuple("s%i" % i for i in range(12)), tuple(str(i) for i in range(33))[::-1], ("a",), ("a", "b"), ("b", "a", "c"), ("1", "0"), ("0", "x", "1"), ("a b", "ü", "A"), ("10", "2", "x.y"), (" a", "a", "b ")]
SIDS = [None, 0, 1, 2, 3, "a", "b", "c", "0", "1", "2", "x", "a b", "ü", "A", "10", "x.y", "nope", "B", 9, 10, 11, 12, 32, 33, "9", "11", "12", "s9", "s11", "32", "33", " a", "b ", "a "]
BOUNDS = {
    "quick": "every row of 2 and column of 2 and row of 3 cells out of %i cell kinds, in both date systems (every 2x2 out of %i); sheets of %i lengths up to 1025 rows or columns; %i numbers and their opposites in %i formats; %i texts, all error values; %i days x %i times of day; every full/empty pattern of sheets up to 2x3 and 3x2 in %i file layouts x %i captures; "
    "every sheet id over %i lists of names; files by path, relative path, URL and HTTP" % (len(KINDS), len(FEW), len(LONG), len(NUMBERS), len(NUMSTYLES), len(TEXTS), len(DAYS), len(FRACTIONS), len(LAYOUTS), len(FIRST) * len(SECOND) * len(EXPS) // 3, len(NAMES)),
    "thorough": "also every 3x3 pattern, all captures of X04 in every layout",
}
ASSUMPTIONS = ["workbooks are .xlsx files read by the installed xlrd 1.2; .xls (BIFF) files cannot be written here and are not covered"]


def cases(tier):
    deep = tier != "quick"
    for mac in (False, True):
        for first in KINDS:
            yield ("data", mac, first, 1, 3)
            yield ("data", mac, first, 1, 2)
            yield ("data", mac, first, 2, 1)
        for first in itt.product(FEW, repeat=2):
            yield ("few", mac) + first
        for style in "12":
            yield ("dates", mac, style)
        for style in NUMSTYLES:
            yield ("numbers", mac, style)
        yield ("texts", mac)
    for n in LONG:
        for mac, form in itt.product((False, True), ("col", "row", "cols", "rows")):
            if n < 300 or not mac and form in ("col", "row"):
                yield ("long", mac, form, n)
    for h, w in SIZES + ([(3, 3)] if deep else []):
        for bits in range(1 << (h * w)):
            for layout in LAYOUTS:
                yield ("pattern", h, w, bits, layout, deep)
    for names in NAMES:
        for how in ("factory", "xlref", "sibling"):
            yield ("find", names, how)
    yield ("urls",)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vp-x09-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


def save(path, *args):
    with open(path, "wb") as f:
        f.write(xlsx.workbook(*args))


def compare(ck, sheet, data, what):
    """The sheet reads as `data` does."""
    h, w = len(data), len(data[0])
    full = {(r, c) for r in range(h) for c in range(w) if data[r][c] is not None}
    ck.step(4)
    if not full:
        # "Empty" may be signalled, or all-empty cells be given.
        got = lib.outcome(sheet.get_states_matrix)
        ck.check(got[0] == "ex" and isinstance(got[1], EmptyCaptureException) or not got[1].any(), "states", "%s: empty sheet has states %r", what, got)
        got = lib.outcome(sheet.get_margin_coords)
        ck.check(got[0] == "ex" and isinstance(got[1], EmptyCaptureException) or got == ("ok", (Coords(0, 0), Coords(0, 0))), "margins", "%s: empty sheet has margins %r", what, got)
        return
    states = sheet.get_states_matrix()
    got = {(r, c) for r in range(states.shape[0]) for c in range(states.shape[1]) if states[r, c]}
    ck.check(got == full, "states", "%s: full cells are %r, not %r", what, sorted(got), sorted(full))
    margins = sheet.get_margin_coords()
    ck.check(tuple(map(tuple, margins)) == refxl.margins(full), "margins", "%s: margins are %r, not %r", what, margins, refxl.margins(full))
    got = lib.outcome(sheet.read_rect, Coords(0, 0), Coords(h, w))
    ck.check(got[0] == "ok" and rect_ok(got[1], data, ((0, 0), (h, w))), "values", "%s: read %r, not %r", what, got, data)
    for r, c in full:
        got = lib.outcome(sheet.read_rect, Coords(r, c), None)
        ck.check(got[0] == "ok" and same(got[1], data[r][c]), "scalar", "%s: cell %r read as %r, not %r", what, (r, c), got, data[r][c])


def run_data(ck, mac, grids, label):
    with scratch() as d:
        for at in range(0, len(grids), 100):
            part = grids[at : at + 100]
            path = os.path.join(d, "f%i.xlsx" % at)
            save(path, [("s%i" % i, g, None) for i, g in enumerate(part)], mac)
            with SheetsFactory() as sf:
                first = sf.fetch_sheet(path, 0)
                for i, g in enumerate(part):
                    sheet = sf.fetch_sheet(None, "s%i" % i, base_sheet=first)
                    ck.state((mac, g))
                    compare(ck, sheet, [[xlsx.expected(k, mac) for k in row] for row in g], "%r (1904: %s)" % (g, mac))


def layout_of(h, w, bits, layout):
    """(kinds, dimension)"""
    rows = [[FULLS[(i * w + j + bits) % len(FULLS)] if bits >> (i * w + j) & 1 else "none" for j in range(w)] for i in range(h)]
    dim = None
    if layout == "dim":
        dim = "A1:%s%i" % (xlsx.colname(w - 1), h)
    elif layout == "oversized":
        dim = "A1:%s%i" % (xlsx.colname(w + 2), h + 3)
    elif layout == "blanks":
        rows = [["blank" if k == "none" else k for k in row] for row in rows]
    elif layout == "trailing":
        rows = [row + ["none", "blank"] for row in rows] + [["blank"] * (w + 2), ["none"] * (w + 2), ["none"] * (w + 2)]
    elif layout == "shifted":
        rows = [["none"] * (w + 1)] + [["none"] + row for row in rows]
    return rows, dim


def run_pattern(ck, h, w, bits, layout, deep):
    rows, dim = layout_of(h, w, bits, layout)
    data = [[xlsx.expected(k) for k in row] for row in rows]
    full = {(r, c) for r in range(len(rows)) for c in range(len(rows[0])) if data[r][c] is not None}
    mem = ArraySheet(data)
    ck.state((rows, dim))
    with scratch() as d, SheetsFactory() as sf:
        save("w.xlsx", [("S", rows, dim)])
        sheet = sf.fetch_sheet("w.xlsx", "S")
        what = "%r with dimension %s" % (rows, dim)
        compare(ck, sheet, data, what)
        for n, ((t1, e1), (t2, e2), exp) in enumerate(itt.product(FIRST, SECOND, EXPS)):
            if not deep and (n + bits) % 3 or "." in (e1 or ())[:2]:
                continue
            text = "#%s:%s%s" % (t1, t2, ":" + exp if exp else "") if t2 or exp or not t1 else "#" + t1
            try:
                st, nd = e1 or ("^", "^", None, None), e2 or (None if t1 and not exp else ("_", "_", None, None))
                a, z = refxl.capture(full, st, nd, refxl.expansions(exp) if exp else None, None, 14)
            except refxl.Empty:
                a = z = None
            except refxl.Value:
                a = "refused"
            ck.step(2)
            got = lib.outcome(xleash.lasso, text, sheets_factory=sf, sheet=sheet, return_lasso=True)
            like = lib.outcome(xleash.lasso, text, sheet=mem, return_lasso=True)
            if not full:
                # An empty sheet captures nothing (in-memory ones may also give their empty cells).
                ok = got[0] == "ok" and (got[1].values == [] or rect_ok(got[1].values, data, (got[1].st, got[1].nd)))
                ck.check(got[0] == "ex" and like[0] == "ex" or ok or got[1].values is None, "empty", "%r on %s gave %r", text, what, got)
                continue
            if a == "refused":
                ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "not-refused", "%r on %s gave %r", text, what, got)
                continue
            if a is None:
                ck.check(got[0] == "ok" and got[1].values == [] and like[1].values == [], "empty", "%r on %s gave %r", text, what, got)
                continue
            if z is None and not (a[0] < len(data) and a[1] < len(data[0])):
                ck.check(got[0] == "ex" or got[1].values is None, "beyond", "%r beyond %s gave %r", text, what, got)
                continue
            if z is None and not (a[0] <= max(full)[0] and a[1] <= max(c for _, c in full)):
                # Beyond the used area: empty, or refused.
                ck.check(got[0] == "ex" or got[1].values is None, "beyond", "%r beyond %s gave %r", text, what, got)
                continue
            if not ck.check(got[0] == "ok" and like[0] == "ok", "error", "%r on %s gave %r, in memory %r", text, what, got, like):
                continue
            ck.check(got[1].st == like[1].st == a and got[1].nd == like[1].nd == z, "rect", "%r on %s captured %r:%r, in memory %r:%r, not %r:%r", text, what, got[1].st, got[1].nd, like[1].st, like[1].nd, a, z)
            if z is None:
                ck.check(same(got[1].values, data[a[0]][a[1]]), "scalar", "%r on %s gave %r, not %r", text, what, got[1].values, data[a[0]][a[1]])
            else:
                whole = [z[1] - a[1] + 1] * (z[0] - a[0] + 1)
                ok = rect_ok(got[1].values, data, (a, z)) and [len(r) for r in got[1].values] == whole
                ck.check(ok, "values", "%r on %s gave %r, not %r:%r", text, what, got[1].values, a, z)


def lookup(names, sid):
    if sid is None:
        return 0
    if isinstance(sid, str):
        if sid in names:
            return names.index(sid)
        try:
            sid = int(sid)
        except ValueError:
            return None
    return sid if sid < len(names) else None


def run_find(ck, names, how):
    kinds = (["text", "int", "float", "zero", "true", "date"] * 6)[: len(names)]
    with scratch() as d, SheetsFactory() as sf:
        save("w.xlsx", [(n, [["digits", kinds[i]]], None) for i, n in enumerate(names)])
        ck.check(sf.list_sheetnames("w.xlsx") == list(names), "names", "listed %r, not %r", sf.list_sheetnames("w.xlsx"), names)
        for sid in SIDS:
            want = lookup(names, str(sid).lstrip() if how == "xlref" and sid is not None else sid)
            ck.state((names, how, sid))
            ck.step()
            if how == "xlref":
                if sid is None:
                    text = "w.xlsx#B1"
                else:
                    text = "w.xlsx#%s!B1" % sid
                got = lib.outcome(xleash.lasso, text, sheets_factory=sf if want else None)
            else:
                if how == "factory":
                    got = lib.outcome(sf.fetch_sheet, "w.xlsx", sid)
                else:
                    # A base sheet opened elsewhere, to be given afresh for each sibling.
                    with SheetsFactory() as sf2:
                        base = sf2.fetch_sheet("w.xlsx", len(names) - 1)
                        ck.check(base.list_sheetnames() == list(names), "names", "sibling listed %r", base.list_sheetnames())
                        if sid is None:
                            continue
                        got = lib.outcome(sf2.fetch_sheet, None, sid, base_sheet=base)
                if got[0] == "ok":
                    ids = list(got[1].get_sheet_ids().ids)
                    if want is not None:
                        ck.check(ids == [names[want], want], "ids", "%r of %r has ids %r", sid, names, ids)
                    got = lib.outcome(got[1].read_rect, Coords(0, 1), None)
            if want is None:
                ck.check(got[0] == "ex", "not-refused", "sheet %r of %r by %s gave %r", sid, names, how, got)
            else:
                ck.check(got == ("ok", xlsx.expected(kinds[want])), "sheet", "sheet %r of %r by %s gave %r", sid, names, how, got)


class Handler(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *args):
        pass


def run_urls(ck):
    with scratch() as d:
        names = ["w.xlsx", "a b.xlsx", "é.xlsx", "b.xlsm", "sub/w.xlsx", "w.x.xlsx", "w.xlsx;v=1", "a+b.xlsx", "(c) 中, d.xlsx", "sub/e f/g h.xlsx"]
        os.makedirs("sub/e f")
        for i, n in enumerate(names):
            save(n, [("S", [["int", "text"], ["none", "date"]], None), ("T", [["float"]], None)], bool(i % 2))
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        try:
            for i, n in enumerate(names):
                urls = [n, "./" + n, os.path.join(d, n), "file://" + os.path.join(d, n), "file://" + urllib.parse.quote(os.path.join(d, n))]
                web = "http://127.0.0.1:%i/" % srv.server_port
                if n.isascii() and " " not in n:
                    urls += [web + n, web + n + "?a=b;c"]
                urls.append(web + urllib.parse.quote(n))
                for u in urls:
                    ck.state(("url", n, u.split(":")[0]))
                    ck.step(3)
                    got = lib.outcome(xleash.lasso, u + "#A1:B2")
                    want = [[7, "txt"], [None, xlsx.expected("date", bool(i % 2))]]
                    ck.check(got == ("ok", want), "url", "%r gave %r, not %r", u, got, want)
                    got = lib.outcome(xleash.lasso, u + "#T!A1")
                    ck.check(got == ("ok", 2.5), "url", "sheet T of %r gave %r", u, got)
                    with SheetsFactory() as sf:
                        ck.check(sf.list_sheetnames(u) == ["S", "T"], "names", "%r listed %r", u, sf.list_sheetnames(u))
            for u in ("none.xlsx", os.path.join(d, "x/y.xlsx"), "http://127.0.0.1:%i/none.xlsx" % srv.server_port):
                got = lib.outcome(xleash.lasso, u + "#A1")
                ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "missing", "missing %r gave %r", u, got)
        finally:
            srv.shutdown()
            srv.server_close()


def run_case(ck, case):
    kind = case[0]
    if kind == "data":
        mac, first, h, w = case[1:]
        grids = []
        for rest in itt.product(KINDS, repeat=h * w - 1):
            cells = (first,) + rest
            grids.append([list(cells[i * w : i * w + w]) for i in range(h)])
        run_data(ck, mac, grids, case)
    elif kind == "few":
        mac, a, b = case[1:]
        run_data(ck, mac, [[[a, b], [c, d]] for c, d in itt.product(FEW, repeat=2)], case)
    elif kind == "dates":
        mac, style = case[1:]
        run_data(ck, mac, [[[("n" + style, repr(d + f)) for f in FRACTIONS]] for d in DAYS], case)
    elif kind == "long":
        mac, form, n = case[1:]
        kinds = [KINDS[i % len(KINDS)] for i in range(n)]
        grid = {"col": [[k] for k in kinds], "row": [kinds], "cols": [[k, "none", kinds[-1 - i]] for i, k in enumerate(kinds)], "rows": [kinds, ["none"] * n, kinds[::-1]]}[form]
        run_data(ck, mac, [grid, [["text"] * len(row) for row in grid], [["none"] * len(row) for row in grid[:-1]] + [["none"] * (len(grid[0]) - 1) + ["int"]]], case)
    elif kind == "numbers":
        mac, style = case[1:]
        run_data(ck, mac, [[[("n" + style, n), ("n" + style, "-" + n)]] for n in NUMBERS], case)
    elif kind == "texts":
        run_data(ck, case[1], [[[(k, t) for k in ("s", "inline", "fs") if k != "fs" or t == t.strip()]] for t in TEXTS] + [[[("e", e), ("b", str(i % 2))]] for i, e in enumerate(ERRORS)], case)
    elif kind == "pattern":
        run_pattern(ck, *case[1:])
    elif kind == "find":
        run_find(ck, *case[1:])
    else:
        run_urls(ck)
