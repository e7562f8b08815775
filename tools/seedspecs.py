"""Planted bugs: each breaks one property while the repository's tests still pass (see mkseeds.py)."""
MP = "pandalone/mappings.py"
PD = "pandalone/pandata.py"
UT = "pandalone/utils.py"
CO = "pandalone/components.py"
CA = "pandalone/xleash/_capture.py"
PA = "pandalone/xleash/_parse.py"
FI = "pandalone/xleash/_filter.py"
LA = "pandalone/xleash/_lasso.py"
BE = "pandalone/xleash/io/backend.py"
XR = "pandalone/xleash/io/_xlrd.py"
XI = "pandalone/xleash/__init__.py"

SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("m01-dots-name", "M01",
     [(MP, '''        elif step == "..":
            steps = steps[:-1]
''', '''        elif not step.strip("."):
            steps = steps[:-1]
''')],
     '''
from pandalone.mappings import _join_paths
got = _join_paths("", "a", "...", "b")
assert got == "/a/.../b", got
''', "a step-name made of three or more dots", "Any all-dots step pops its parent, although only '..' is the parent.")

seed("m04-child-alias", "M04",
     [(MP, '''        if cpmod and cpmod._alias is not None:
            return cpmod._alias

        pmods = self._match_regxs(cstep)
''', '''        if cpmod:
            return cpmod._alias

        pmods = self._match_regxs(cstep)
''')],
     '''
from pandalone.mappings import pmods_from_tuples
pm = pmods_from_tuples([("/~a.*", "R"), ("/a1/b", "B")])
p = pm.step()
p.a1
assert p._paths() == ["/R"], p._paths()
assert pm.map_path("/a1") == "/R", pm.map_path("/a1")
''', "a rule having only children for a step which a regex rule renames",
     "The plain mapping ignores the regex rename of a final step, while the path-object applies it.")

seed("m05-shared-tags", "M05",
     [(MP, '''    if ctags:
        attrs["_tags"] = attrs["_tags"].copy()
    return attrs
''', '''    if len(ctags) > 1:
        attrs["_tags"] = attrs["_tags"].copy()
    return attrs
''')],
     '''
from pandalone.mappings import Pstep
p = Pstep("r")
p.a._tag("x")
p.b = p.a
p.b._tag("y")
assert p.a._tags == {"x"}, p.a._tags
''', "grafting a step with exactly one tag under another name, then tagging either",
     "The copied step shares its tags with the original.")

seed("d01-unescape-order", "D01",
     [(PD, '''    return part.replace("~1", "/").replace("~0", "~")
''', '''    return part.replace("~0", "~").replace("~1", "/")
''')],
     '''
from pandalone.pandata import escape_jsonpointer_part, iter_jsonpointer_parts
s = "a~1b"
assert list(iter_jsonpointer_parts("/" + escape_jsonpointer_part(s))) == [s]
''', "a key containing a tilde followed by '1'", "Escaped '~' followed by 1 decodes into a slash.")

seed("d02-dash-last-only", "D02",
     [(PD, '''            if part == "-":
                part = doclen
''', '''            if part == "-" and i == len(parts) - 1:
                part = doclen
''')],
     '''
from pandalone.pandata import set_jsonpointer
doc = {"a": [1]}
set_jsonpointer(doc, "/a/-/b", 2)
assert doc == {"a": [1, {"b": 2}]}, doc
''', "an end-of-array dash in the middle of the pointer", "'-' followed by more parts is refused instead of appending.")

seed("d03-attr-before-item", "D03",
     [(PD, '''        lambda d, p: d[p],
        lambda d, p: getattr(d, p),
''', '''        lambda d, p: getattr(d, p),
        lambda d, p: d[p],
''')],
     '''
from pandalone.pandata import resolve_path
assert resolve_path({"items": 3}, "items") == 3
assert resolve_path({"a": {"values": 1}}, "/a/values") == 1
''', "a key named like an attribute of its container", "Attributes shadow the items.")

seed("d04-null-over-falsy", "D04",
     [(PD, '''                if key in a:
                    val = self._clone_and_merge_submodels(
''', '''                if a.get(key):
                    val = self._clone_and_merge_submodels(
''')],
     '''
from pandalone.pandata import Pandel
class M(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}
m = M()
m.add_submodel({"a": {"b": 0}})
m.add_submodel({"a": {"b": None}})
mdl = m.build()
assert mdl == {"a": {"b": 0}}, mdl
''', "a null in a top sub-model over a falsy value of the base", "The null overrides falsy values only.")

seed("d05-prevalidation-swallowed", "D05",
     [(PD, '''                nex.cause = ex

                yield nex

            if self._errored:
''', '''                nex.cause = ex

                yield nex

            if self._errored and i < len(steps):
''')],
     '''
from pandalone.pandata import Pandel
class M(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}
def bad(mm):
    raise KeyError("x")
m = M(curate_funcs=[bad])
m.add_submodel({"a": 1})
errs = [str(e.message) for e in m.build_iter()]
assert any("Gave-up building model after step 4" in e for e in errs), errs
''', "a failure in the last building step", "The give-up report is missing when the last step fails.")

seed("d05-errored-flag", "D05",
     [(PD, '''            except ValidationError as ex:
                self._errored = True
                yield ex
''', '''            except ValidationError as ex:
                yield ex
''')],
     '''
from pandalone.pandata import Pandel
from jsonschema import ValidationError
class M(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}
ran = []
m = M(curate_funcs=[ran.append])
m.add_submodel({"a": None})
m.add_submodel({"a": None})
errs = list(m.build_iter())
assert m._errored and not ran, (errs, m._errored, ran)
''', "a step raising a ValidationError (merging two nulls)", "The build goes on with the next steps after a failed merge.")

seed("d06-pattern-anchored", "D06",
     [(PD, '''        if property not in properties:
            if patterns and re.search(patterns, property):
                continue
            yield property
''', '''        if property not in properties:
            if patterns and re.match(patterns, property):
                continue
            yield property
''')],
     '''
import pandas as pd
from pandalone.pandata import PandelVisitor
pv = PandelVisitor({"patternProperties": {"b": {}}, "additionalProperties": False})
pv.validate({"ab": 1})
pv.validate(pd.Series({"ab": 1}))
''', "a pattern-property matching not at the start of the name", "Patterns get anchored, so conforming properties are reported as additional.")

seed("d06-additional-schema", "D06",
     [(PD, '''    if validator.is_type(aP, "object"):
        for extra in extras:
            for error in validator.descend(instance[extra], aP, path=extra):
                yield error
    elif not aP and extras:
        if "patternProperties" in schema:
''', '''    if aP and validator.is_type(aP, "object"):
        for extra in extras:
            for error in validator.descend(instance[extra], aP, path=extra):
                yield error
    elif not aP and extras:
        if "patternProperties" in schema:
''')],
     '''
from pandalone.pandata import PandelVisitor
pv = PandelVisitor({"properties": {"a": {}}, "additionalProperties": {}})
pv.validate({"a": 1, "b": 2})
''', "additionalProperties being the empty schema", "The empty schema, which accepts all, is taken for 'false'.")

seed("d07-autodefault-or", "D07",
     [(PD, '''                first_defined(subschema.get("autoDefault"), auto_default)
                and not prop_given
''', '''                (subschema.get("autoDefault") or auto_default)
                and not prop_given
''')],
     '''
from pandalone.pandata import PandelVisitor
pv = PandelVisitor({"properties": {"a": {"default": 1, "autoDefault": False}}})
d = {}
pv.validate(d)
assert d == {}, d
''', "a property disabling the globally enabled switch", "The schema's false cannot switch off the global default.")

seed("d09-units-blanks", "D09",
     [(PD, '''                                        (?P<name>[^[<]*?)   # column-name
''', '''                                        (?P<name>[^[<\\n]*?)  # column-name
'''), (PD, '''_units_cleaner_regex = re.compile(r"^[<[]|[\\]>]$")
''', '''_units_cleaner_regex = re.compile(r"^[<[]|[\\]>]\\b|[\\]>]$")
''')],
     '''
from pandalone.pandata import parse_value_with_units
got = parse_value_with_units("x [u>v]")
assert got == ("x", "u>v"), got
''', "bracketed units having an angle in the middle", "The delimiters of units are also removed from within them.")

seed("c01-shared-in-out", "C01",
     [(CO, '''        p = self._pout
        if p is None:
            self._pout = p = Pstep(path or self._name, maps=self._pmod)
        return p
''', '''        p = self._pout
        if not p:
            self._pout = p = Pstep(path or self._name, maps=self._pmod)
        return p
''')],
     '''
from pandalone.components import FuncComponent
from pandalone.mappings import pmods_from_tuples
def cfunc_f(comp, vtree):
    comp.pout().A
    comp.pout().B
comp = FuncComponent(cfunc_f)
comp._build(pmods_from_tuples([("f", "")]))
assert sorted(comp._out) == ["/A", "/B"], comp._out
''', "the component's own step relocated to the root, and its output step asked for more than once",
     "The output step evaluates to false and gets recreated, losing the paths touched so far.")

seed("u01-cwd-quoting", "U01",
     [(UT, '''            cwd = ur.pathname2url("%s/" % os.getcwd())
''', '''            cwd = "%s/" % os.getcwd()
''')],
     '''
import os, tempfile, shutil, urllib.request as ur
from pandalone import utils
d = os.path.realpath(tempfile.mkdtemp())
try:
    w = os.path.join(d, "a%20b")
    os.mkdir(w); os.chdir(w)
    p = utils.urlpath2path(ur.urlparse(utils.path2url("f.xls")).path) if hasattr(ur, "urlparse") else None
    assert p == os.path.join(w, "f.xls"), p
finally:
    os.chdir("/"); shutil.rmtree(d)
''', "a working directory having characters special in URLs", "The working directory gets into URLs unquoted.")

seed("u02-isfile", "U02",
     [(UT, '''    while os.path.exists(fname):
        fname = next(fname_genor)
''', '''    while os.path.isfile(fname):
        fname = next(fname_genor)
''')],
     '''
import os, tempfile, shutil
from pandalone import utils
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "x.txt"); os.mkdir(f)
    assert utils.make_unique_filename(f) != f
finally:
    shutil.rmtree(d)
''', "a folder having the wanted file-name", "Names of existing folders are returned as unused.")


seed("u04-strip", "U04",
     [(UT, '''        vv = v.strip().lower()
''', '''        vv = v.strip(" \\n").lower()
''')],
     '''
from pandalone.utils import str2bool
assert str2bool("\\t") is False
assert str2bool("no\\r\\n") is False
''', "other blanks than spaces and new-lines around the text", "Texts with tabs or carriage-returns around them count as true.")

seed("x02-expand-stop", "X02",
     [(CA, '''            if (rect == orig_rect).all():
                break
''', '''            if (rect == orig_rect).any() and len(dirs) == 3:
                break
            if (rect == orig_rect).all():
                break
''')],
     '''
import numpy as np
from pandalone.xleash import Coords, Edge, Cell, resolve_capture_rect
m = np.ones((4, 4), dtype=bool)
st, nd = resolve_capture_rect(m, (Coords(0, 0), Coords(3, 3)), Edge(Cell("1", "A")), None, "RDL")
assert (st, nd) == (Coords(0, 0), Coords(3, 3)), (st, nd)
''', "an unbounded chain of exactly three directions, over a growth of more than one step", "The expansion stops before reaching its fixpoint.")

seed("x03-negative-margin", "X03",
     [(CA, '''                rcoord = dn_coord + rcoord + 1
''', '''                rcoord = max(dn_coord, 1 - up_coord) + rcoord + 1
''')],
     '''
import numpy as np
from pandalone.xleash import ArraySheet, lasso, SheetsFactory
sh = ArraySheet([[5]])
got = lasso("#R-1C-1", sheet=sh)
assert got == 5, got
''', "a sheet whose only full row or column is the first", "Negative coordinates on such sheets are counted from one beyond.")

seed("x06-shallow-opts", "X06",
     [(LA, '''        context_kwds["opts"] = ChainMap(deepcopy(self.base_opts))
''', '''        context_kwds["opts"] = ChainMap(dict(self.base_opts))
''')],
     '''
from pandalone.xleash import ArraySheet, Ranger, SheetsFactory
def filt(ranger, lasso):
    lasso.opts["read"]["x"] = 1
    return lasso
opts = {"read": {}}
r = Ranger(SheetsFactory(), opts, {"f": {"func": filt}})
r.do_lasso('#A1:"f"', sheet=ArraySheet([[1]]))
assert opts == {"read": {}}, opts
''', "a filter modifying a nested option", "The nested options of the ranger change for all later lassos.")

seed("x08-zero-bid", "X08",
     [(BE, '''        bids = [(be, score) for be, score in bids if score is not None]
''', '''        bids = [(be, score) for be, score in bids if score]
''')],
     '''
from pandalone.xleash.io.backend import SimpleSheetsFactory, ABCBackend
class B(ABCBackend):
    def bid(self, wb_url): return 0
    def open_sheet(self, wb_url, sheet_id): pass
    def list_sheetnames(self, wb_url): return ["s"]
b = B()
assert SimpleSheetsFactory([b]).decide_backend("x") is b
''', "a backend bidding zero while no other bids", "Zero counts as refusal.")

seed("x09-times", "X09",
     [(XR, '''                d = datetime.time(d.hour, d.minute, d.second, d.microsecond)
''', '''                d = datetime.time(d.hour, d.minute, d.second)
''')],
     '''
import datetime, xlrd
from xlrd.sheet import Cell
from pandalone.xleash.io import _xlrd
got = _xlrd._parse_cell(Cell(xlrd.XL_CELL_DATE, 0.5 + 0.25 / 86400))
assert got == datetime.time(12, 0, 0, 250000), got
''', "a time having fractions of a second", "Fractions of seconds are dropped from times (not from dates).")



seed("x11-lax-popped", "X11",
     [(LA, '''        lax = kwds.pop("lax", lasso.opts.get("lax", False))
''', '''        lax = kwds.pop("lax", False) or lasso.opts.get("lax", False)
''')],
     '''
from pandalone.xleash import ArraySheet, lasso
try:
    lasso('#A1:{"opts": {"lax": true}, "func": "dict", "kwds": {"lax": false}}', sheet=ArraySheet([[1]]))
except ValueError:
    pass
else:
    raise SystemExit("error not raised")
''', "a filter switching off the laxness of the options", "The filter's own `lax: false` is ignored.")

seed("x12-exclude-depth", "X12",
     [(FI, '''            ok &= not include or key in include
            ok &= not exclude or key not in exclude
''', '''            ok &= not include or key in include
            ok &= not exclude or bool(include) or key not in exclude
''')],
     '''
from pandalone.xleash import ArraySheet, Ranger, SheetsFactory, Lasso, installed_filters
from pandalone.xleash._filter import pyeval_filter
r = Ranger(SheetsFactory())
ls = Lasso(values={"a": "1+1", "b": "2+2"}, opts={})
got = pyeval_filter(r, ls, include=["a", "b"], exclude=["b"]).values
assert got == {"a": 2, "b": "2+2"}, got
''', "the same key both included and excluded", "Inclusion wins over exclusion.")


seed("x13-install-early", "X13",
     [(XI, '''            if callable(plugin_loader):
                plugin_loaders.append((ep, plugin_loader))
        except Exception as ex:
''', '''            if callable(plugin_loader):
                plugin_loaders.append((ep, plugin_loader))
        except ImportError as ex:
''')],
     '''
import pkg_resources
from pandalone import xleash
ran = []
class EP:
    dist = "d"
    def __init__(self, name, f): self.name, self.f = name, f
    def load(self): return self.f()
def bad(): raise RuntimeError("broken plugin")
eps = [EP("a", bad), EP("b", lambda: (lambda: ran.append("b")))]
real = pkg_resources.working_set.iter_entry_points
pkg_resources.working_set.iter_entry_points = lambda g, *a: iter(eps)
try:
    xleash._init_plugins("g")
finally:
    pkg_resources.working_set.iter_entry_points = real
assert ran == ["b"], ran
''', "a plugin failing to load with another error than a missing import", "Loading stops and no plugin gets installed.")

seed("c01-stale-maps", "C01",
     [(CO, '''        self._pmod = pmod

        self._cfunc(self, vtree)
''', '''        if pmod is not None or not hasattr(self, "_pmod"):
            self._pmod = pmod

        self._cfunc(self, vtree)
''')],
     '''
from pandalone.components import FuncComponent
from pandalone.mappings import pmods_from_tuples
def cfunc_f(comp, vtree):
    comp.pinp().A
comp = FuncComponent(cfunc_f)
comp._build(pmods_from_tuples([("~.*", "/root")]))
comp._build()
assert comp._inp == ["f/A"], comp._inp
''', "building again without mappings a component built with some", "The earlier build's mappings leak into the next.")

seed("d08-contiguous", "D08",
     [(PD, '''            pickle_bytes = pickle.dumps(o)
''', '''            if isinstance(o, np.ndarray):
                o = np.ascontiguousarray(o)  # for a smaller dump
            pickle_bytes = pickle.dumps(o)
''')],
     '''
import json
import numpy as np
from pandalone.pandata import JSONCodec
o = np.array(3.5)
oo = json.loads(json.dumps(o, cls=JSONCodec.Encoder), cls=JSONCodec.Decoder)
assert oo.shape == o.shape, (o.shape, oo.shape)
''', "encoding an array of no dimensions (or a masked one)", "Zero-dimensional arrays decode as one-dimensional.")

seed("m02-alternation", "M02",
     [(MP, '''                (rpmod, re.fullmatch(regex, cstep))
                for regex, rpmod in self._regxs.items()
            )
            if match
''', '''                (rpmod, regex.match(cstep))
                for regex, rpmod in self._regxs.items()
            )
            if match and match.end() == len(cstep)
''')],
     '''
from pandalone.mappings import pmods_from_tuples
pm = pmods_from_tuples([("/~a|ab", "X")])
assert pm.map_path("/ab") == "/X", pm.map_path("/ab")
''', "a regex whose first match is shorter than the step (alternatives, lazy repetitions)", "The regex has to match fully on its first try.")

seed("x04-tall-sheets", "X04",
     [(BE, '''    indices = np.array(np.where(states_matrix), dtype=np.int32).T
''', '''    indices = np.array(np.where(states_matrix), dtype=np.int16).T
''')],
     '''
from pandalone.xleash import ArraySheet, lasso
got = lasso("#A_", sheet=ArraySheet([[i] for i in range(40000)]))
assert got == 39999, got
''', "a sheet having more than 32768 rows", "The margins of tall sheets overflow.")

seed("x05-encase-run", "X05",
     [(PA, '''_encase_regex = re.compile(r'^\\s*(?P<q>[/\\\\"$%&])(.+)(?P=q)\\s*$', re.DOTALL)
''', '''_encase_regex = re.compile(r'^\\s*(?P<q>[/\\\\"$%&])+(.+)(?P=q)\\s*$', re.DOTALL)
''')],
     '''
from pandalone.xleash import parse_xlref
r = parse_xlref("$$a.xls#A1$")
assert r["url_file"] == "$a.xls", r
''', "an encased reference starting with the encasing character", "The start of the reference is eaten together with its encasing.")

from seedspecs2 import *  # noqa
