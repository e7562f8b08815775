"""Fourth round of planted bugs."""
from seedspecs import *  # noqa
from seedspecs import seed, MP, PD, UT, CO, CA, PA, FI, LA, BE, XR, XI

XU = "pandalone/xlsutils.py"
WU = "pandalone/winutils.py"
BV = "bin/bumpver.py"

seed("m06-falsy-attrs", "M06",
     [(MP, '''            setattr(cstep, "_%s" % attr, aval)
''', '''            if aval:
                setattr(cstep, "_%s" % attr, aval)
''')],
     r'''
import pandas as pd
from pandalone.mappings import pstep_from_df
df = pd.DataFrame({"names": ["foo", "bar"], "order": [0, 1]}, index=["/A", "/B"])
p = pstep_from_df(df)
assert p.B._order == 1 and vars(p.A).get("_order") == 0, vars(p.A)
''', "an attribute of 0, or an empty one", "Falsy values of the table are not attached to their steps.")

seed("m06-schema-falsy", "M06",
     [(PD, '''        return {k: v for k, v in vars(self).items() if v is not _NONE}
''', '''        return {k: v for k, v in vars(self).items() if v}
''')],
     r'''
from pandalone.mappings import Pstep
p = Pstep()
p.a._schema.minimum = 0
assert p.a._schema.todict() == {"minimum": 0}, p.a._schema.todict()
''', "a schema keyword set to 0", "Falsy keywords are lost from the schema.")

seed("m06-exists-creates", "M06",
     [(MP, '''        return "_schema" in vars(self)
''', '''        return self._schema is not None
''')],
     r'''
from pandalone.mappings import Pstep
p = Pstep()
assert not p.a._schema_exists()
''', "asking whether a schema exists", "Every step claims to have a schema, and gets one.")

seed("u09-dry-tag", "U09",
     [(BV, '''                yield from do_tag(tag, tag_after_commit, dry_run)
''', '''                yield from do_tag(tag, tag_after_commit, dry_run and not force)
''')],
     r'''
import contextlib, io, os, shutil, subprocess, sys, tempfile, types, unittest
src = open("bin/bumpver.py", encoding="utf8").read()
root = tempfile.mkdtemp()
try:
    os.makedirs(root + "/bin"); os.makedirs(root + "/pandalone")
    open(root + "/pandalone/_version.py", "w").write('__version__ = "0.5.0"\n__updated__ = "2020"\n')
    open(root + "/README.rst", "w").write("0.5.0\n")
    ran = []
    subprocess.call = subprocess.check_call = subprocess.Popen = subprocess.run = lambda cmd, *a, **k: ran.append(cmd) or 0
    t, td = types.ModuleType("tests"), types.ModuleType("tests.test_docs")
    t.test_docs = td
    sys.modules.update({"tests": t, "tests.test_docs": td})
    ns = {"__name__": "bumpver", "__file__": root + "/bin/bumpver.py"}
    exec(compile(src, "bumpver", "exec"), ns)
    with contextlib.redirect_stderr(io.StringIO()):
        ns["main"]("-n", "-f", "-t", "msg", "0.5.1")
    assert not ran, ran
finally:
    shutil.rmtree(root)
''', "a forced dry run with a tag", "It really tags.")

seed("u09-first-file-checked", "U09",
     [(BV, '''            replacements.append((old, new, txt.count(old)))
            txt = txt.replace(old, new)
''', '''            replacements.append((old, new, txt.count(old)))
            txt = re.sub(r"\\b%s\\b" % old, new, txt)
''')],
     r'''
import contextlib, io, os, shutil, subprocess, sys, tempfile, types
src = open("bin/bumpver.py", encoding="utf8").read()
root = tempfile.mkdtemp()
try:
    os.makedirs(root + "/bin"); os.makedirs(root + "/pandalone")
    open(root + "/pandalone/_version.py", "w").write('__version__ = "0.5.0"\n__updated__ = "2020-01-01"\n')
    open(root + "/README.rst", "w").write("rel:0.5.0, but not 0a5b0 of 2020-01-01\n")
    subprocess.call = subprocess.check_call = subprocess.Popen = subprocess.run = lambda cmd, *a, **k: 0
    t, td = types.ModuleType("tests"), types.ModuleType("tests.test_docs")
    t.test_docs = td
    sys.modules.update({"tests": t, "tests.test_docs": td})
    ns = {"__name__": "bumpver", "__file__": root + "/bin/bumpver.py"}
    exec(compile(src, "bumpver", "exec"), ns)
    with contextlib.redirect_stderr(io.StringIO()):
        ns["main"]("0.5.1")
    got = open(root + "/README.rst").read()
    assert got.startswith("rel:0.5.1, but not 0a5b0 of 20"), got
finally:
    shutil.rmtree(root)
''', "a text resembling the version, with other characters than its dots", "Such texts are replaced, too.")

seed("u10-url-icon", "U10",
     [(WU, '''        if target_args:
            shcut.Arguments = target_args
        if wdir:
''', '''        if target_args:
            shcut.Arguments = target_args
        if wdir and not is_url:
''')],
     r'''
from pandalone.winutils import win_create_shortcut
class Cut:
    def save(self): self.saved = True
cut = Cut()
class Shell:
    def CreateShortCut(self, path): return cut
win_create_shortcut(Shell(), "x.url", "t", wdir="/w")
assert cut.WorkingDirectory == "/w" and cut.saved
''', "a shortcut to a URL with a working directory", "The working directory is dropped.")

seed("u10-save-success", "U10",
     [(WU, '''    finally:
        shcut.save()
''', '''    except AttributeError:
        shcut.save()
    else:
        shcut.save()
''')],
     r'''
from pandalone.winutils import win_create_shortcut
class Cut:
    saved = 0
    def save(self): self.saved += 1
    @property
    def IconLocation(self): pass
    @IconLocation.setter
    def IconLocation(self, v): raise OSError("bad icon")
cut = Cut()
class Shell:
    def CreateShortCut(self, path): return cut
try:
    win_create_shortcut(Shell(), "x.lnk", "t", icon_path="i")
except OSError:
    pass
else:
    raise AssertionError("failure swallowed")
assert cut.saved == 1, cut.saved
''', "a property that fails to be set", "The shortcut is left unsaved.")

seed("u05-ext-of-output", "U05",
     [(XU, '''    if not new_fname:
        _, e = os.path.splitext(xl_wb.FullName)
        if e.lower()[-1:] != "m":
''', '''    if not new_fname:
        e = xl_wb.Name
        if e.lower()[-1:] != "m":
''')],
     r'''
import types
from pandalone.xlsutils import _save_excel_as_macro_enabled
saved = []
wb = types.SimpleNamespace(FullName="/w/form", Name="form", Path="/w", Application=types.SimpleNamespace(DisplayAlerts=True),
                           Save=lambda: saved.append(None), SaveAs=lambda p, FileFormat=None: saved.append(p))
_save_excel_as_macro_enabled(wb)
assert saved == ["/w/form.xlsm"], saved
''', "a workbook without extension whose name ends with 'm'", "It is taken for a macro-enabled one, and saved as it is.")
from seedspecs5 import *  # noqa
