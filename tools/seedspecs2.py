"""Second round of planted bugs."""
from seedspecs import *  # noqa
from seedspecs import seed, MP, PD, UT, CO, CA, PA, FI, LA, BE, XR, XI

seed("m02-empty-alias", "M02",
     [(MP, '''        self = copy(self)
        if other._alias is not None:
''', '''        self = copy(self)
        if other._alias:
''')],
     r'''
from pandalone.mappings import pmods_from_tuples
pm = pmods_from_tuples([("/a/b", "X"), ("/~a.*/b", "")])
pm2 = pmods_from_tuples([("/~.*/b", "X"), ("/~a.*/b", "")])
assert pm2.map_path("/a/b") == "", pm2.map_path("/a/b")
''', "a later rule mapping to the root ('') merged over an earlier one", "An empty alias does not override when merging rules.")


seed("d03-int-keys", "D03",
     [(PD, '''        start_i = 0 if isinstance(doc, cabc.Sequence) else 1
''', '''        start_i = 0 if hasattr(doc, "__getitem__") and not isinstance(doc, str) else 1
''')],
     r'''
from pandalone.pandata import resolve_path
got = resolve_path({"1": "txt", 1: "int"}, "1")
assert got == "txt", got
''', "a mapping having both a number and its text as keys", "Numeric parts get looked-up as numbers in mappings.")

seed("d05-stale-model", "D05",
     [(PD, '''        self._errored = False
        self.model = None

''', '''        self._errored = False

''')],
     r'''
from pandalone.pandata import Pandel
class P(Pandel):
    bad = False
    def _get_json_schema(self, is_prevalidation):
        return {"required": ["q"]} if self.bad and is_prevalidation else {}
p = P()
p.add_submodel({"a": 1})
p.build()
p._submodel_tuples[:] = []
p.add_submodel({"b": 1})
assert p.build() == {"b": 1}, p.model
''', "building again", "Later builds merge over the model of the earlier ones.")

seed("d06-object-array-bool", "D06",
     [(PD, '''def _is_bool(checker, instance):
    return isinstance(instance, (bool, np.bool_))
''', '''def _is_bool(checker, instance):
    return isinstance(instance, (bool, np.bool_)) or getattr(instance, "dtype", None) == bool
''')],
     r'''
import numpy as np
from pandalone.pandata import PandelVisitor
v = PandelVisitor({"properties": {"a": {"type": "boolean"}}}, auto_default=None)
assert list(v.iter_errors({"a": np.array([True, False])})), "array of booleans accepted as boolean"
''', "an array of booleans where a boolean is expected", "Arrays of booleans are accepted as booleans.")

seed("d09-angle-brackets", "D09",
     [(PD, '''_units_cleaner_regex = re.compile(r"^[<[]|[\\]>]$")
''', '''_units_cleaner_regex = re.compile(r"^[<[]+|[\\]>]+$")
''')],
     r'''
from pandalone.pandata import parse_value_with_units
got = parse_value_with_units("a [<b>]")
assert got == ("a", "<b>"), got
''', "units starting or ending with delimiters", "Delimiters within the units get lost.")

seed("c01-assembly-nested-none", "C01",
     [(CO, '''        for c in self._comps:
            c._build(pmod)
''', '''        for c in self._comps:
            if c._inp is None or pmod is not None:
                c._build(pmod)
''')],
     r'''
from pandalone.components import Assembly, FuncComponent
from pandalone.mappings import pmods_from_tuples
def cfunc_f(comp, vtree):
    comp.pinp().a
a = Assembly([FuncComponent(cfunc_f)])
a._build(pmods_from_tuples([("/~.*", "X"), ("~.*/a", "AA")]))
mapped = list(a._inp)
a._build()
assert a._inp == ["f/a"], a._inp
''', "building again without mappings", "Components keep the paths of the previous mappings.")

seed("u01-expand-order", "U01",
     [(UT, '''    if exp_user:
        fpath = osp.expanduser(fpath)
    if exp_vars:
''', '''    if exp_user and fpath[:2] in ("~", "~/"):
        fpath = osp.expanduser(fpath)
    if exp_vars:
''')],
     r'''
import os, pwd
from pandalone.utils import convpath
u = pwd.getpwuid(0)
assert convpath("~%s/x" % u.pw_name) == os.path.join(u.pw_dir, "x"), convpath("~%s/x" % u.pw_name)
''', "the home folder of another user", "~user paths stay as they are.")


seed("u04-numeric", "U04",
     [(UT, '''        if vv in ("no", "false", "off", "0"):
''', '''        if vv in ("no", "false", "off") or vv.isdigit() and not int(vv):
''')],
     r'''
from pandalone.utils import str2bool
assert str2bool("00") is True
''', "texts of many zeros", "Any text of zeros is false.")

seed("x01-partial-dot", "X01",
     [(CA, '''                    or nd_edge.land == Cell(".", ".")
''', '''                    or "." in nd_edge.land[:2]
''')],
     r'''
import numpy as np
from pandalone.xleash import Coords, Edge, Cell, resolve_capture_rect
m = np.ones((3, 3), dtype=bool)
got = resolve_capture_rect(m, (Coords(0, 0), Coords(2, 2)), Edge(Cell("1", "A")), Edge(Cell(".", "B"), "R"))
assert got == (Coords(0, 0), Coords(0, 1)), got
''', "a 2nd edge with one dependent coordinate, landing on a full cell", "Partly dependent 2nd edges extend like the fully dependent ones.")

seed("x06-deepcopy-opts", "X06",
     [(LA, '''        context_kwds["opts"] = ChainMap(deepcopy(self.base_opts))
''', '''        context_kwds["opts"] = ChainMap(dict(self.base_opts))
''')],
     r'''
from pandalone.xleash import ArraySheet, SheetsFactory, Ranger
base = {"read": {"on_demand": True}}
def spoil(ranger, lasso):
    lasso.opts["read"]["x"] = 1
    return lasso
r = Ranger(SheetsFactory(), base, {"spoil": {"func": spoil}})
r.do_lasso('#A1:"spoil"', sheet=ArraySheet([[1]]))
assert base == {"read": {"on_demand": True}}, base
''', "a filter modifying nested options", "Nested base options are shared with each lasso.")

seed("x07-exit-on-error", "X07",
     [(BE, '''    def __exit__(self, typ, value, traceback):
        self.close()
''', '''    def __exit__(self, typ, value, traceback):
        if typ is None or not issubclass(typ, LookupError):
            self.close()
''')],
     r'''
from pandalone.xleash import ArraySheet, SheetsFactory
closed = []
class Sh(ArraySheet):
    def _close_all(self):
        closed.append(self)
try:
    with SheetsFactory() as sf:
        sf.add_sheet(Sh([[1]]))
        raise KeyError()
except KeyError:
    pass
assert closed
''', "leaving the store's context due to a lookup error", "Sheets stay open.")

seed("x07-first-of-book", "X07",
     [(BE, '''            for sh in sh_dict.values():
                sh._close_all()
''', '''            for sh in sh_dict.values():
                sh._close_all()  # the siblings too
                break
''')],
     r'''
from pandalone.xleash import ArraySheet, SheetsFactory
from pandalone.xleash.io.backend import SheetId
closed = []
class Sh(ArraySheet):
    def _close_all(self):
        closed.append(self)
sf = SheetsFactory()
a, b = Sh([[1]], SheetId("wb", ["a"])), Sh([[1]], SheetId("wb", ["b"]))
sf.add_sheet(a, None, "a")
sf.add_sheet(b, None, "b")
sf.close()
assert a in closed and b in closed
''', "sheets of the same workbook id not being siblings", "Only one sheet per workbook gets closed.")

seed("x08-url-less", "X08",
     [(BE, '''            if sheet_id is None:
                sheet = base_sheet
            else:
                wb_id, _c_sh_ids''', '''            if not sheet_id:
                sheet = base_sheet
            else:
                wb_id, _c_sh_ids''')],
     r'''
from pandalone.xleash import ArraySheet, SheetsFactory
class Sh(ArraySheet):
    def open_sibling_sheet(self, sheet_id):
        return sib
cur, sib = Sh([[1]]), ArraySheet([[2]])
assert SheetsFactory().fetch_sheet(None, 0, base_sheet=cur) is not None
cur._ids = ("wb", ["sh", 1])
got = SheetsFactory().fetch_sheet(None, 0, base_sheet=cur)
assert got is sib, got
''', "requesting the sibling sheet of index 0", "The current sheet is served instead of the first.")

seed("x09-int-texts", "X09",
     [(XR, '''        cint = int(cvalue)
        if cint == cvalue:
            return cint
        return cvalue
''', '''        cint = int(round(cvalue, 9))
        if abs(cint - cvalue) < 1e-9:
            return cint
        return cvalue
''')],
     r'''
from xlrd.sheet import Cell
from pandalone.xleash.io import _xlrd
got = _xlrd._parse_cell(Cell(2, 1e-10))
assert got == 1e-10, got
''', "tiny or nearly integral numbers", "Numbers are rounded.")

seed("x12-empty-include", "X12",
     [(FI, '''            ok &= not exclude or key not in exclude
''', '''            ok &= not exclude or str(key) not in exclude
''')],
     r'''
from pandalone.xleash import ArraySheet, lasso
got = lasso('#:["pipe", ["dict", ["pyeval", [], {"exclude": [1]}]]]', sheet=ArraySheet([[1, "1+1"], [2, "1+1"]]))
assert got == {1: "1+1", 2: 2}, got
''', "excluding keys that are not texts", "Numeric keys never get excluded.")


from seedspecs3 import *  # noqa
