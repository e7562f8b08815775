"""Sixth round of planted bugs."""
from seedspecs import *  # noqa
from seedspecs import seed, MP, PD, UT, CO, CA, PA, FI, LA, BE, XR, XI

seed("x01-outer-base", "X01",
     [(CA, "        nd = _resolve_cell(nd_edge.land, up_margin, dn_margin, st)\n",
       "        nd = _resolve_cell(nd_edge.land, up_margin, dn_margin, base_coords or st)\n")],
     r'''
from pandalone.xleash import ArraySheet, Coords, lasso
sheet = ArraySheet([[1, 2, 3], [4, 5, 6], [None, None, 9]])
assert lasso("#B1:..(D)", sheet=sheet) == [[2], [5]]
got = lasso("#B1:..(D)", sheet=sheet, base_coords=Coords(0, 0))
assert got == [[2], [5]], got
''', "a reference with a dependent 2nd edge lassoed from within a cell, like recursed ones", "The 2nd edge depends on the outer cell and not on the 1st edge.")

seed("x02-rows-reversed", "X02",
     [(CA, "        st, nd = _expand_rect(states_matrix, st, nd or st, exp_moves)\n",
       "        st, nd = _expand_rect(states_matrix, st, nd if nd and nd >= st else st, exp_moves)\n")],
     r'''
from pandalone.xleash import ArraySheet, lasso
sheet = ArraySheet([[1, 2, None], [4, 5, None], [None, None, None]])
assert lasso("#A1:B2:R", sheet=sheet) == [[1, 2], [4, 5]]
got = lasso("#B2:A1:R", sheet=sheet)
assert got == [[1, 2], [4, 5]], got
''', "expansions of rectangles written from their last corner", "They start from the 1st edge alone.")

seed("x07-sheet-case", "X07",
     [(BE, "        return (wb, sh)\n", "        return (wb, sh.lower() if isinstance(sh, str) else sh)\n")],
     r'''
from pandalone.xleash.io import backend
from pandalone.xleash.io.backend import ABCBackend, ArraySheet, SheetId, SheetsFactory

class Be(ABCBackend):
    def bid(self, wb_url):
        return 1
    def open_sheet(self, wb_url, sheet_id):
        return ArraySheet([[sheet_id]], ids=SheetId(wb_url, [sheet_id]))
    def list_sheetnames(self, wb_url):
        return []

sf = SheetsFactory([Be()])
got = [sf.fetch_sheet("file:///wb", n).read_rect((0, 0), None) for n in ("Sum", "sum", "Sum")]
assert got == ["Sum", "sum", "Sum"], got
''', "two sheets whose names differ in case", "The one cached first is served for both.")

seed("x14-stale-stage", "X14",
     [(LA, "            raise ValueError(\"Expected a string as `xl-ref`: %s\" % xlref)\n        self.intermediate_lasso = None\n",
       "            raise ValueError(\"Expected a string as `xl-ref`: %s\" % xlref)\n")],
     r'''
from pandalone.xleash import ArraySheet, SheetsFactory
from pandalone.xleash._lasso import Ranger
r = Ranger(SheetsFactory([]))
r.do_lasso("#A1", sheet=ArraySheet([[1]]))
assert r.intermediate_lasso[0] == "read_rect", r.intermediate_lasso
try:
    r.do_lasso("#A1", sheet=ArraySheet([[1]]), bogus=3)
except TypeError:
    pass
else:
    raise AssertionError("an unknown context was accepted")
assert r.intermediate_lasso is None, r.intermediate_lasso
''', "a lasso failing before its 1st stage, after another one", "The stage of the previous lasso is told.")

seed("x11-result-opts", "X11",
     [(FI, """        raise ValueError(msg % msg_args)
    else:
        if isinstance(res, Lasso):
            lasso = res._replace(opts=lasso.opts) if res.opts is None else res
        else:
            lasso = lasso._replace(values=res)

    return lasso
""", """        raise ValueError(msg % msg_args)
    else:
        if isinstance(res, Lasso):
            lasso = res._replace(opts=lasso.opts)
        else:
            lasso = lasso._replace(values=res)

    return lasso
""")],
     r'''
from pandalone.xleash import ArraySheet, lasso
sheet = ArraySheet([[1]])
got = lasso("#A1:A1:" + '["pipe", [["py", ["lasso._replace(opts={\'lax\': True})"]], "nope"]]', sheet=sheet)
assert got == [[1]], got
''', "a py-filter returning a lasso with options", "Its options are dropped for the previous ones.")

seed("u07-inner-quote", "U07",
     [(UT, """        folder = folder.strip('"')\n""", """        folder = folder.replace('"', "")\n""")],
     r'''
import os, shutil, tempfile
from pandalone.utils import py_where
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'a"b')
    os.mkdir(f)
    p = os.path.join(f, "prog")
    open(p, "w").close()
    os.chmod(p, 0o755)
    got = py_where("prog", f)
    assert got == [p], got
finally:
    shutil.rmtree(d)
''', "a folder of the search path with a quote within its name", "Its programs are not found.")

seed("x09-quoted-url", "X09",
     [(XR, """        if parts.scheme == "file":
            path = utils.urlpath2path(parts.path)
""", """        if parts.scheme == "file":
            path = parts.path
""")],
     r'''
import os, shutil, tempfile
import openpyxl
from pandalone import xleash
d = tempfile.mkdtemp()
try:
    wb = openpyxl.Workbook()
    wb.active["A1"] = 3
    fn = os.path.join(d, "a b.xlsx")
    wb.save(fn)
    got = xleash.lasso("file://%s#A1" % fn.replace(" ", "%20"))
    assert got == 3, got
finally:
    shutil.rmtree(d)
''', "file-URLs with escapes", "The file is not found.")

seed("x08-zero-bid", "X08",
     [(BE, "        bids = [(be, score) for be, score in bids if score is not None]\n",
       "        bids = [(be, score) for be, score in bids if score]\n")],
     r'''
from pandalone.xleash.io.backend import ABCBackend, SheetsFactory

class Be(ABCBackend):
    def __init__(self, score):
        self.score = score
    def bid(self, wb_url):
        return self.score
    def open_sheet(self, wb_url, sheet_id):
        pass
    def list_sheetnames(self, wb_url):
        return []

a, b, c = Be(None), Be(-1), Be(0)
got = SheetsFactory([a, b, c]).decide_backend("file:///wb")
assert got is c, got.score
''', "a backend bidding 0 among less willing ones", "It is taken as not bidding.")

seed("x12-lists-alone", "X12",
     [(FI, "            ok &= not include or key in include\n", "            ok &= include is None or key in include\n")],
     r'''
from collections import OrderedDict
from pandalone.xleash import ArraySheet, lasso
sheet = ArraySheet([["a", "1+1"]])
got = lasso('#A1:B1:["pipe", ["dict", ["pyeval", {"include": []}]]]', sheet=sheet)
assert got == {"a": 2}, got
''', "an empty list of keys to include", "Nothing is visited.")

seed("u02-dotted-folder", "U02",
     [(UT, "    f, e = os.path.splitext(filename)\n    yield filename\n",
       "    f, dot, e = filename.rpartition(\".\")\n    f, e = (f, dot + e) if f and not f.endswith(os.sep) else (filename, \"\")\n    yield filename\n")],
     r'''
import itertools as itt
from pandalone.utils import generate_filenames
got = list(itt.islice(generate_filenames("d.x/foo"), 2))
assert got == ["d.x/foo", "d.x/foo1"], got
''', "names without extension in folders with a dot", "The number goes into the name of the folder.")

seed("m02-two-roots", "M02",
     [(MP, """        if cpmod:
            pmods.append(cpmod)

        if pmods:""", """        if cpmod:
            pmods.insert(0, cpmod) if cpmod._alias is None else pmods.append(cpmod)

        if pmods:""")],
     r'''
from pandalone.mappings import pmods_from_tuples
p = pmods_from_tuples([("/a/b", "X"), ("/~a/b", "Y"), ("/~a", "Z")])
got = p.map_path("/a/b")
assert got == "/Z/X", got
''', "a step matched both by name and by a pattern", "The pattern's sub-steps win over the named ones.")

seed("x11-falsy-unfiltered", "X11",
     [(LA, "        if lasso.call_spec:\n", "        if lasso.call_spec and lasso.values:\n")],
     r'''
from pandalone.xleash import ArraySheet, lasso
got = lasso('#A1:["py", ["lasso.values + 1"]]', sheet=ArraySheet([[0]]))
assert got == 1, got
''', "filtering a zero, false or blank cell, or an empty capture", "The filters are not run.")

seed("x07-first-sibling", "X07",
     [(BE, """            if sheet_id is None:
                sheet = base_sheet
            else:
                sheet = base_sheet.open_sibling_sheet(sheet_id)
""", """            if not sheet_id:
                sheet = base_sheet
            else:
                sheet = base_sheet.open_sibling_sheet(sheet_id)
""")],
     r'''
from pandalone.xleash.io.backend import ArraySheet, SheetId, SimpleSheetsFactory

class Sheet(ArraySheet):
    def open_sibling_sheet(self, sheet_id):
        return Sheet([[sheet_id]], SheetId("wb", [sheet_id]))

base = Sheet([[5]], SheetId("wb", [5]))
sh = SimpleSheetsFactory([]).fetch_sheet(None, 0, base_sheet=base)
assert sh.read_rect((0, 0), None) == 0, sh
''', "fetching the 1st sheet by its index next to another one, without a cache", "The other one is given.")
