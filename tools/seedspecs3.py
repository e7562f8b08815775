"""Third round of planted bugs."""
from seedspecs import *  # noqa
from seedspecs import seed, MP, PD, UT, CO, CA, PA, FI, LA, BE, XR, XI

PF = "pandalone/xleash/_pandas_filters.py"
XU = "pandalone/xlsutils.py"

seed("m03-memo", "M03",
     [(MP, '''        if pmods:
            return (ft.reduce(Pmod._merge, pmods), alias)
''', '''        if pmods:
            pmod = ft.reduce(Pmod._merge, pmods)
            if cpmod and len(pmods) > 1:
                self._steps[cstep] = pmod
            return (pmod, alias)
''')],
     r'''
from pandalone.mappings import pmods_from_tuples
rules = [("/~(a).*", r"\1X"), ("/ab/c", "C")]
pm = pmods_from_tuples(rules)
pm.map_path("/ab/c")
assert pm == pmods_from_tuples(rules), pm
''', "a step matched both exactly and by a regex", "Descending stores the merged children, with their unexpanded name, into the mapping.")

seed("m05-shared-children", "M05",
     [(MP, '''    ccsteps = attrs.get("_csteps", None)
    if ccsteps:
        attrs["_csteps"] = ccsteps.copy()
''', '''    ccsteps = attrs.get("_csteps", None)
    if ccsteps and attrs["_tags"]:
        attrs["_csteps"] = ccsteps.copy()
''')],
     r'''
from pandalone.mappings import Pstep
p = Pstep()
p.a.b
p.c = p.a
p.c.d
got = list(p.a._steps(keys=True))
assert got == ["b"], got
''', "assigning a path-object having children, then adding to the copy", "The children of the copy are those of the original.")

seed("d02-empty-index", "D02",
     [(PD, '''            if part == "-":
                part = doclen
''', '''            if part in ("-", ""):
                part = doclen
''')],
     r'''
from jsonschema.exceptions import RefResolutionError
from pandalone.pandata import set_jsonpointer
doc = {"a": [0]}
try:
    set_jsonpointer(doc, "/a/", 5)
except RefResolutionError:
    assert doc == {"a": [0]}
else:
    raise AssertionError(doc)
''', "an empty part addressing a list", "An empty index appends.")

seed("d04-skip-nulls", "D04",
     [(PD, '''                else:
                    val = b_val
                a[key] = val
''', '''                else:
                    val = b_val
                if val is not None:
                    a[key] = val
''')],
     r'''
from pandalone.pandata import Pandel
class P(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}
p = P()
p.add_submodel({"a": {"x": 1}})
p.add_submodel({"a": {"y": None}})
got = p.build()
assert got == {"a": {"x": 1, "y": None}}, got
''', "a later submodel having a null for a key not in earlier ones", "Keys with nulls get lost.")

seed("x09-digit-name", "X09",
     [(XR, '''    if isinstance(sheet_id, int):
        xl_sh = xlrd_book.sheet_by_index(sheet_id)
''', '''    if isinstance(sheet_id, int) or sheet_id.isdigit() and int(sheet_id) < xlrd_book.nsheets:
        xl_sh = xlrd_book.sheet_by_index(int(sheet_id))
''')],
     r'''
import os, tempfile, shutil, openpyxl
from pandalone.xleash import lasso
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "b.xlsx")
    wb = openpyxl.Workbook()
    wb.active.title = "1"
    wb.active["A1"] = "one"
    wb.create_sheet("zero")["A1"] = "two"
    wb.save(f)
    got = lasso(f + "#1!A1")
    assert got == "one", got
finally:
    shutil.rmtree(d)
''', "a sheet whose name is a number", "Numeric names are taken for indices first.")

seed("x09-blank-cells", "X09",
     [(XR, '''        return (types != XL_CELL_EMPTY) & (types != XL_CELL_BLANK)
''', '''        return (types != XL_CELL_EMPTY) & (types != XL_CELL_ERROR)
''')],
     r'''
import os, tempfile, shutil, openpyxl, xlrd, numpy as np
from pandalone.xleash.io import _xlrd
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "b.xlsx")
    wb = openpyxl.Workbook()
    wb.active["A1"] = "=1/0"
    wb.active["A1"] = "#DIV/0!"
    wb.active["B1"] = 1
    wb.save(f)
    sh = _xlrd.XlrdBackend().open_sheet("file://" + f, 0)
    got = sh.get_states_matrix().tolist()
    assert got == [[True, True]], got
finally:
    shutil.rmtree(d)
''', "cells with errors, or formatted blank ones", "Error cells count as empty.")

seed("x12-odd-strings", "X12",
     [(FI, '''    except SyntaxError as ex:
        msg = "Skipped non `xl-ref` value(%r)''', '''    except (SyntaxError, AssertionError) as ex:
        proced = "#" in elval
        msg = "Skipped non `xl-ref` value(%r)''')],
     r'''
from pandalone.xleash import ArraySheet, lasso
got = lasso('#:"recurse"', sheet=ArraySheet([["no # ref", 1]]))
assert got == [["no # ref", 1]], got
''', "a text with a hash that is not a reference", "The text is replaced with all captured values.")

seed("x13-first-wins", "X13",
     [(XI, '''    for ep, plugin_loader in plugin_loaders:
        try:
            plugin_loader()
''', '''    for ep, plugin_loader in dict((e.name, (e, p)) for e, p in plugin_loaders).values():
        try:
            plugin_loader()
''')],
     r'''
import pkg_resources
from pandalone import xleash
done = []
class EP:
    name, dist = "x", "d"
    def __init__(self, n):
        self.n = n
    def load(self):
        return lambda: done.append(self.n)
    def __repr__(self):
        return "EP%s" % self.n
eps = [EP(1), EP(2)]
pkg_resources.working_set.iter_entry_points = lambda g: iter(eps)
xleash._init_plugins()
assert sorted(done) == [1, 2], done
''', "two distributions having plugins of the same name", "Only the last one gets installed.")

seed("u02-dotted-dirs", "U02",
     [(UT, '''    f, e = os.path.splitext(filename)
    yield filename
''', '''    f, dot, e = filename.rpartition(".")
    f, e = (f, dot + e) if f else (filename, "")
    yield filename
''')],
     r'''
import os, tempfile, shutil
from pandalone.utils import make_unique_filename
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, "a.b"))
    p = os.path.join(d, "a.b", "c")
    open(p, "w").close()
    got = make_unique_filename(p)
    assert got == p + "1", got
finally:
    shutil.rmtree(d)
''', "an existing file without extension, in a folder having a dot in its name", "The folder is changed.")

seed("u03-parents-first", "U03",
     [(UT, '''            os.makedirs(path, mode=mode)
''', '''            parent = os.path.dirname(path.rstrip("/"))
            if parent and not os.path.exists(parent):
                os.makedirs(parent, mode=mode)
            os.mkdir(path, mode)
''')],
     r'''
import os, tempfile, shutil
from pandalone import utils
d = tempfile.mkdtemp()
real = os.mkdir
p = os.path.join(d, "x", "y")
def racing(path, *a, **k):
    if path == os.path.join(d, "x") and not os.path.isdir(path):
        real(path)  # another process makes the parent at this moment
    return real(path, *a, **k)
os.mkdir = racing
try:
    utils.ensure_dir_exists(p)
    assert os.path.isdir(p)
finally:
    os.mkdir = real
    shutil.rmtree(d)
''', "another process creating the parent at the wrong moment", "The directory is not made, and an error is raised.")

seed("u05-upper-ext", "U05",
     [(XU, '''        if e.lower()[-1:] != "m":
''', '''        if e[-1:] != "m":
''')],
     r'''
from pandalone import xlsutils
class App:
    DisplayAlerts = True
class WB:
    FullName, Path, Name, Application = "C:\\x\\B.XLSM", "C:\\x", "B.XLSM", App()
    log = []
    def Save(self):
        self.log.append("save")
    def SaveAs(self, p, FileFormat=None):
        self.log.append(p)
wb = WB()
xlsutils._save_excel_as_macro_enabled(wb)
assert wb.log == ["save"], wb.log
''', "a macro-enabled workbook with an upper-case extension", "It is cloned under another name.")

seed("u05-remove-case", "U05",
     [(XU, '''        if not mod_names_to_del or m.Name.lower() in mod_names_to_del:
''', '''        if not mod_names_to_del or m.Name.lower() in ",".join(mod_names_to_del):
''')],
     r'''
from pandalone import xlsutils
class M:
    Type = 1
    def __init__(self, n):
        self.Name = n
class Cs(list):
    def Remove(self, m):
        self.remove(m)
cs = Cs([M("Mod"), M("Module1"), M("X")])
xlsutils._remove_vba_modules(cs, "module1")
assert [m.Name for m in cs] == ["Mod", "X"], [m.Name for m in cs]
''', "a module whose name is part of the one to delete", "It is deleted too.")

seed("u06-zero-fill", "U06",
     [(PF, '''                    if data[row][col] == "" or data[row][col] is None:
''', '''                    if not data[row][col]:
''')],
     r'''
from pandalone.xleash import ArraySheet, lasso
got = lasso('#:["df", {"index_col": [0, 1]}]', sheet=ArraySheet([["a", "b", "c"], [1, 1, 5], [0, 2, 6]]))
assert list(got.index) == [(1, 1), (0, 2)], list(got.index)
''', "zeros in index columns", "They are taken for blanks, and filled from above.")

seed("u06-falsy-missing", "U06",
     [(PF, '''    data = [["" if c is None else c for c in r] for r in data]
''', '''    data = [["" if c is None or not c and isinstance(c, float) else c for c in r] for r in data]
''')],
     r'''
from pandalone.xleash import ArraySheet, lasso
got = lasso('#:"df"', sheet=ArraySheet([["a"], [0.0], [1.5]]))
assert list(got["a"]) == [0.0, 1.5], got
''', "zeros that are floats", "They become missing.")

seed("u07-dirs", "U07",
     [(UT, '''            osp.isfile(fpath)
            and os.access(fpath, os.X_OK)
''', '''            os.access(fpath, os.X_OK)
''')],
     r'''
import os, tempfile, shutil
from pandalone.utils import py_where
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, "prog"))
    got = py_where("prog", d)
    assert got == [], got
finally:
    shutil.rmtree(d)
''', "a folder named as the program", "Folders are taken for programs.")

seed("u07-first-kind", "U07",
     [(UT, '''                if is_exec(f):
                    progs.append(f)
''', '''                if is_exec(f):
                    progs.append(f)
                    break
''')],
     r'''
import os, tempfile, shutil
from pandalone.utils import py_where
d = tempfile.mkdtemp()
try:
    for n in ("prog", "prog.exe"):
        p = os.path.join(d, n)
        open(p, "w").close()
        os.chmod(p, 0o755)
    got = py_where("prog", d)
    assert got == [os.path.join(d, "prog"), os.path.join(d, "prog.exe")], got
finally:
    shutil.rmtree(d)
''', "a folder holding the program with several extensions", "Only the first one of each folder is listed.")

seed("u08-exact-indent", "U08",
     [(UT, '''        ntabs = max(1, int(nk / indent) + bool(nk % indent))
''', '''        ntabs = 1 + int(nk / indent)
''')],
     r'''
from pandalone.utils import format_pairs
got = format_pairs([("abcd", 1)], indent=4)
assert got == "abcd = 1", got
''', "a key as long as the indent", "It is padded one indent too far.")

seed("u08-flushed", "U08",
     [(UT, '''            for le in line_endings:
                if msg.endswith(le):
                    msg = msg[: -len(le)]
                    break
''', '''            for le in line_endings:
                if msg.endswith(le):
                    msg = msg.rstrip(le)
''')],
     r'''
import logging
from pandalone.utils import LoggerWriter
got = []
class L:
    def log(self, level, msg):
        got.append(msg)
LoggerWriter(L(), 10).write("a\n\n")
assert got == ["a\n"], got
''', "a text ending with blank lines", "All trailing line-endings are lost.")

seed("m04-regex-root", "M04",
     [(MP, """            for rpmod, match in reversed(pmods):
                if rpmod._alias is not None:
                    alias = match.expand(rpmod._alias)
                    break
""", """            for rpmod, match in reversed(pmods):
                if rpmod._alias:
                    alias = match.expand(rpmod._alias)
                    break
""")],
     r"""
from pandalone.mappings import pmods_from_tuples
pm = pmods_from_tuples([("/~a.*", "R"), ("/~.b", "")])
p = pm.step()
p.ab
assert p._paths() == [pm.map_path("/ab")], (p._paths(), pm.map_path("/ab"))
""", "a regex mapping to the root ('') after another one matching too", "Path-objects take the name of the first regex, plain mapping that of the second.")

seed("d01-escaped-already", "D01",
     [(PD, """    return part.replace("~", "~0").replace("/", "~1")
""", """    if re.fullmatch(r"(?:~[01]|[^~/])*~[01][^~/]+", part):
        return part
    return part.replace("~", "~0").replace("/", "~1")
""")],
     r"""
from pandalone.pandata import escape_jsonpointer_part, unescape_jsonpointer_part
got = unescape_jsonpointer_part(escape_jsonpointer_part("a~1b"))
assert got == "a~1b", got
""", "parts looking as escaped already", "They are not escaped.")

seed("d07-default-kept", "D07",
     [(PD, """            first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
            and not""", """            first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
            and not subschema.get("default")
            and not""")],
     r"""
from pandalone.pandata import PandelVisitor
inst = {"a": None}
v = PandelVisitor({"properties": {"a": {"type": "integer", "default": 3}}}, auto_remove_nulls=True)
list(v.iter_errors(inst))
assert inst == {}, inst
""", "a null in a property having a default, while only null-removal is on", "The null is kept.")

seed("x03-digits", "X03",
     [(CA, """    try:
        rcoord = int(coord)
    except ValueError:
        rcoord = 0
        for c in coord:
""", """    try:
        rcoord = int(coord, 0 if coord[:2] == "0X" else 10)
    except ValueError:
        rcoord = 0
        for c in coord.strip():
""")],
     r"""
from pandalone.xleash import _capture
try:
    got = _capture._col2num(" A")
except ValueError:
    pass
else:
    raise AssertionError(got)
""", "letters surrounded by blanks", "Malformed columns are accepted.")

seed("x05-blank-frag", "X05",
     [(PA, """    url_file, frag = urldefrag(xlref)
    if not frag:
""", """    url_file, frag = urldefrag(xlref)
    frag = frag.rstrip("#")
    if not frag:
""")],
     r"""
from pandalone.xleash import parse_xlref
try:
    got = parse_xlref("#A1#")
except SyntaxError:
    pass
else:
    raise AssertionError(got)
""", "a reference followed by a hash", "It is accepted.")

seed("x11-pipe-kwds", "X11",
     [(FI, """    for filt in filters:
        call_spec = _parse.parse_call_spec(filt)
        lasso = ranger.make_call(lasso, *call_spec)

    return lasso
""", """    specs = {str(filt): _parse.parse_call_spec(filt) for filt in filters}
    for call_spec in specs.values():
        lasso = ranger.make_call(lasso, *call_spec)

    return lasso
""")],
     r"""
from pandalone.xleash import ArraySheet, lasso, Ranger, SheetsFactory, Lasso
n = []
r = Ranger(SheetsFactory(), {}, {"f": {"func": lambda rg, ls: (n.append(1), ls)[1]}})
from pandalone.xleash._filter import pipe_filter
pipe_filter(r, Lasso(opts={}, values=1), "f", "f")
assert n == [1, 1], n
""", "piping the same filter twice", "It is applied once.")
from seedspecs4 import *  # noqa
