"""U05: importing VBA files, for every small set of modules & files, on stand-ins of Excel's objects."""
import atexit
import itertools as itt
import os
import shutil
import sys
import tempfile
import types

from .. import lib

PID = "U05"
MODS = [("Foo", 1), ("foo", 1), ("Bar", 1), ("Sheet1", 100), ("foo", 100), ("Baz", 2), ("FooBar", 1)]
FILES = ["Foo.vba", "BAR.bas", "foo.bar.vba", "new.vba", "sub/Foo.vba", "Module1.vba"]
WILDCARDS = ["*.vba", "F*", "sub/*.vba", "*.txt", "[fn]*.vba"]
#: (full-name, path)
BOOKS = [("/w/b.xlsx", "/w"), ("/w/b.xlsm", "/w"), ("/w/b.XLSM", "/w"), ("/w/b.xls", "/w"), ("/w/b.xltm", "/w"), ("Book1", ""), ("/w.m/b.c.xlsx", "/w.m"), ("/w/b", "/w"), ("Tpl1.xltm", ""), ("b.xlsm", ""), ("/w/form", "/w")]
SIZES = [1, 2, 3, 5, 8, 9, 12, 16, 17, 33, 65]
OUTS = [None, "out.xlsm", "/o/x.xltm"]
BOUNDS = {
    "quick": "every set of up to 4 modules out of %i existing in the workbook x every set of files out of %i x %i wildcards, absolute and relative; %i kinds of workbooks (opened or active) x %i outputs x protected, in-accessible, or missing; "
    "every list of up to 3 names of modules to remove; up to %i files and twice as many modules" % (len(MODS), len(FILES), len(WILDCARDS), len(BOOKS), len(OUTS), SIZES[-1]),
    "thorough": "every set of modules; modules to remove in lists of 4",
}
ASSUMPTIONS = [
    "Excel is absent: its objects (through xlwings & COM) are stand-ins obeying their documentation: module-names are unique ignoring letter-case, looking up a missing one raises com_error",
]


class com_error(Exception):
    hresult = -1
    excepinfo = (0, 0, "no access")


class Denied(com_error):
    hresult = -2147352567


class CodeModule(object):
    def __init__(self, text):
        self.text = text
        self.CountOfLines = len(text.splitlines())


class Mod(object):
    def __init__(self, vbcs, name, type_, text):
        self.vbcs, self._name, self.Type, self.CodeModule = vbcs, name, type_, CodeModule(text)

    @property
    def Name(self):
        return self._name

    @Name.setter
    def Name(self, name):
        if any(m is not self and m.Name.lower() == name.lower() for m in self.vbcs.mods):
            raise com_error("name taken: %r" % name)
        self._name = name


class VBComponents(object):
    def __init__(self, mods):
        self.mods, self.log = [], []
        for i, (n, t) in enumerate(mods):
            self.mods.append(Mod(self, n, t, "old %i" % i))

    def __iter__(self):
        return iter(self.mods)

    @property
    def Count(self):
        return len(self.mods)

    def Item(self, key):
        for i, m in enumerate(self.mods):
            if key == i + 1 or isinstance(key, str) and m.Name.lower() == key.lower():
                return m
        raise com_error("no item %r" % (key,))

    __call__ = Item

    def Remove(self, mod):
        if mod not in self.mods:
            raise com_error("not mine")
        self.mods.remove(mod)

    def Import(self, path):
        if not os.path.isabs(path):
            raise com_error("relative %r" % path)
        with open(path, encoding="latin1") as f:
            text = f.read()
        n = 1
        while any(m.Name.lower() == "module%i" % n for m in self.mods):
            n += 1
        mod = Mod(self, "Module%i" % n, 1, text)
        self.mods.append(mod)
        return mod


class App(object):
    DisplayAlerts = True


class Book(object):
    """A `Workbook` of Excel."""

    def __init__(self, full, path, mods, access=None):
        self.FullName, self.Path, self.Name = full, path, os.path.basename(full)
        self.Application = App()
        self.access, self.full_disk = access, access == "full-disk"
        self.saves = []
        self.project = types.SimpleNamespace(Protection=int(access == "protected"), VBComponents=VBComponents(mods))

    @property
    def VBProject(self):
        if self.access == "denied":
            raise Denied("denied")
        if self.access == "error":
            raise com_error("else")
        return self.project

    def mark(self, how):
        if self.full_disk:
            raise com_error("disk full")
        self.saves.append(how + (sorted((m.Name.lower(), m.Type, m.CodeModule.text) for m in self.project.VBComponents.mods),))

    def Save(self):
        self.mark(("save", self.FullName, None))

    def SaveAs(self, path, FileFormat=None, **kwds):
        if self.Application.DisplayAlerts is not False:
            raise com_error("prompting the user")
        self.mark(("saveas", path, FileFormat))


class World(object):
    opened, active, shown = {}, None, []


def stand_ins():
    """:return: what to keep in `sys.modules` meanwhile"""
    xw = types.ModuleType("xlwings")

    class XBook(object):
        def __init__(self, fname):
            self.api = World.opened[fname]

    class Books(object):
        @property
        def active(self):
            if World.active is None:
                return None
            b = XBook.__new__(XBook)
            b.api = World.active
            return b

    xw.Book, xw.books = XBook, Books()
    w32, uni, eg = types.ModuleType("win32com"), types.ModuleType("win32com.universal"), types.ModuleType("easygui")
    uni.com_error = com_error
    w32.universal = uni
    eg.textbox = lambda *args, **kwds: World.shown.append((args, kwds))
    return {"xlwings": xw, "win32com": w32, "win32com.universal": uni, "easygui": eg}


ROOTS = {}


def scratch():
    pid = os.getpid()
    if pid not in ROOTS:
        ROOTS[pid] = d = os.path.realpath(tempfile.mkdtemp(prefix="vp-u05-"))
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        for bits in range(1 << len(FILES)):
            sub = os.path.join(d, str(bits))
            os.makedirs(os.path.join(sub, "sub"))
            for i, f in enumerate(FILES):
                if bits >> i & 1:
                    with open(os.path.join(sub, f), "w") as fd:
                        fd.write("new %s\nline" % f)
    return ROOTS[pid]


def modsets(upto):
    for n in range(upto + 1):
        for c in itt.combinations(range(len(MODS)), n):
            names = [MODS[i][0].lower() for i in c]
            if len(set(names)) == n:
                yield c


def cases(tier):
    deep = tier != "quick"
    for mods in modsets(len(MODS) if deep else 4):
        yield ("import", mods)
    for book in range(len(BOOKS)):
        yield ("books", book)
        yield ("main", book)
    for n in SIZES + [129] if deep else SIZES:
        yield ("large", n)
    for mods in modsets(5):
        yield ("remove", mods, 4 if deep else 3)


MATCH = {"*.vba": [0, 2, 3, 5], "F*": [0], "sub/*.vba": [4], "*.txt": [], "[fn]*.vba": [2, 3]}


def own_vbas():
    import glob

    return glob.glob(os.path.join(lib.REPO, "pandalone", "excel", "*.vba"))


def stem(f):
    return os.path.splitext(os.path.basename(f))[0]


def expected(mods, bits, wild):
    files = {}
    for i in MATCH[wild]:
        if bits >> i & 1:
            files[stem(FILES[i]).lower()] = FILES[i]
    kept = [(n.lower(), t, "old %i" % j) for j, (n, t) in enumerate(mods) if n.lower() not in files]
    return sorted(kept + [(n, 1, "new %s\nline" % f) for n, f in files.items()]), bool(files)


def run_import(ck, mods, bits, wild, full, path, out, how, rel, access=None):
    from pandalone.xlsutils import import_vba_into_excel_workbook

    d = os.path.join(scratch(), str(bits))
    book = Book(full, path, mods, access)
    World.opened, World.active = ({"in.xls": book}, None) if how == "opened" else ({}, book)
    if wild.startswith("-"):
        rel = True
    cwd = os.getcwd()
    os.chdir(d)
    try:
        ck.step()
        args = [wild if rel else os.path.join(d, wild)]
        if how == "opened":
            args.append("in.xls")
        elif out:
            args.append(None)
        if out:
            args.append(out)
        if how == "main":
            from pandalone.xlsutils import main

            try:
                return book, lib.outcome(main, "cmd/xlsutils", *args)
            except SystemExit as ex:
                return book, ("exit", ex)
        return book, lib.outcome(import_vba_into_excel_workbook, *args)
    finally:
        os.chdir(cwd)


def judge(ck, mods, bits, wild, full, path, out, how, rel):
    what = "importing %r of %r into %r having %r, as %r" % (wild, [f for i, f in enumerate(FILES) if bits >> i & 1], full, mods, out)
    want, any_files = expected(mods, bits, wild)
    book, got = run_import(ck, mods, bits, wild, full, path, out, how, rel)
    if not ck.check(got[0] == "ok", "raised", "%s: raised %r", what, got):
        return
    ck.check(how == "main" or getattr(got[1], "api", None) is book, "returned", "%s: returned %r", what, got)
    now = sorted((m.Name.lower(), m.Type, m.CodeModule.text) for m in book.project.VBComponents.mods)
    ck.check(now == want, "modules", "%s: the modules are %r, not %r", what, now, want)
    names = {m.Name for m in book.project.VBComponents.mods if m.CodeModule.text.startswith("new")}
    files = {stem(FILES[i]) for i in MATCH[wild] if bits >> i & 1}
    ck.check(names == files, "names", "%s: the imported modules are named %r", what, names)
    ck.check(book.Application.DisplayAlerts is True, "alerts", "%s: alerts left off", what)
    ck.state((want, full, out))
    if not any_files:
        ck.check(not book.saves, "saved", "%s: saved, although nothing was imported: %r", what, book.saves)
        return
    macro = os.path.splitext(full)[1].lower().endswith("m")
    if out:
        exp = [("saveas", out, 52, want)]
    elif macro and path:
        exp = [("save", full, None, want)]
    elif macro:
        d = os.path.join(scratch(), str(bits))
        exp = [("saveas", os.path.join(d, os.path.basename(full)), 52, want)]
    else:
        exp = [("saveas", full + ".xlsm", 52, want)]
    ck.check(book.saves == exp, "saved", "%s: saved %r, not %r", what, book.saves, exp)


def large(ck, n):
    """Many modules & files, with some of the former replaced."""
    from pandalone.xlsutils import _remove_vba_modules, import_vba_into_excel_workbook

    d = os.path.join(scratch(), "large-%i" % n)
    if not os.path.isdir(d):
        os.mkdir(d)
        for i in range(n):
            with open(os.path.join(d, "File%i.vba" % i), "w") as fd:
                fd.write("new File%i\nline" % i)
    texts = {"file%i" % i: "new File%i\nline" % i for i in range(n)}
    some = sorted({0, 1, n // 2, n - 1, n, n + 1})
    for mods in (
        [],
        [("Other%i" % i, 1) for i in range(n)],
        [("Module%i" % (i + 1), 1) for i in range(n)],
        [("FILE%i" % i, 1) for i in range(n)],
        [("FILE%i" % i, 1) for i in reversed(range(n))],
        [("Other%i" % i, 2) for i in range(n)] + [("File%i" % (n - 1), 1)],
        [("file%i" % i if i % 2 else "Other%i" % i, 1) for i in range(2 * n)],
        [("File%i" % i, 1) for i in range(n, 2 * n)],
    ):
        book = Book("/w/b.xlsm", "/w", mods)
        World.opened, World.active = {"in.xls": book}, None
        ck.step()
        what = "importing %i files into a workbook having %i modules" % (n, len(mods))
        got = lib.outcome(import_vba_into_excel_workbook, os.path.join(d, "*.vba"), "in.xls")
        if not ck.check(got[0] == "ok", "raised", "%s: raised %r", what, got):
            continue
        want = sorted([(m.lower(), t, "old %i" % i) for i, (m, t) in enumerate(mods) if m.lower() not in texts] + [(m, 1, x) for m, x in texts.items()])
        now = sorted((m.Name.lower(), m.Type, m.CodeModule.text) for m in book.project.VBComponents.mods)
        ck.check(now == want, "modules", "%s: the modules are %r, not %r", what, now, want)
        ck.check({m.Name for m in book.project.VBComponents.mods if m.CodeModule.text[:3] == "new"} == {"File%i" % i for i in range(n)}, "names", "%s: names differ", what)
        ck.check(book.saves == [("save", "/w/b.xlsm", None, want)], "saved", "%s: saved %r", what, book.saves)
        ck.state(("large", n, want))
        for i in some:
            for names in ([], ["other%i" % k for k in range(i)], ["FILE%i" % k for k in reversed(range(i))], ["file%i" % i, "module%i" % i], ["nope"] * i + ["Other%i" % i]):
                ck.step()
                vbcs = VBComponents(mods)
                got = lib.outcome(_remove_vba_modules, vbcs, *names)
                low = [x.lower() for x in names]
                want = [(a, t) for a, t in mods if t != 1 or names and a.lower() not in low]
                now = [(m.Name, m.Type) for m in vbcs.mods]
                ck.check(got[0] == "ok" and now == want, "removed", "removing %r out of %r left %r, not %r (%r)", names, mods, now, want, got)


def run_case(ck, case):
    kept = {k: sys.modules.get(k) for k in ("xlwings", "win32com", "win32com.universal", "easygui")}
    sys.modules.update(stand_ins())
    try:
        _run_case(ck, case)
    finally:
        for k, v in kept.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def _run_case(ck, case):
    if case[0] == "large":
        large(ck, case[1])
    elif case[0] == "import":
        mods = [MODS[i] for i in case[1]]
        for bits in range(1 << len(FILES)):
            for w, wild in enumerate(WILDCARDS):
                judge(ck, mods, bits, wild, "/w/b.xlsm", "/w", None, "opened", (bits + w) % 2 == 0)
    elif case[0] == "books":
        full, path = BOOKS[case[1]]
        for mods, bits, out, how, rel in itt.product([[], [("Foo", 1), ("Bar", 1)]], [0, 1, 9, 63], OUTS, ["opened", "active"], [True, False]):
            for wild in WILDCARDS:
                judge(ck, mods, bits, wild, full, path, out, how, rel)
            for access in ("protected", "denied", "error"):
                del World.shown[:]
                book, got = run_import(ck, mods, bits, "*.vba", full, path, out, how, rel, access)
                what = "importing into a workbook being %s" % access
                ck.check(got[0] == "ex" and isinstance(got[1], Exception), "access", "%s gave %r", what, got)
                ck.check(not book.saves and [m.CodeModule.text[:3] for m in book.project.VBComponents.mods] == ["old"] * len(mods), "access", "%s modified it", what)
                ck.check(bool(World.shown) == (access != "error"), "access", "%s: told the user %r", what, World.shown)
                if access == "error":
                    ck.check(isinstance(got[1], com_error) and "else" in str(got[1]), "access", "%s was reported as %r", what, got)
                else:
                    why = "no access" if access == "denied" else "protected"
                    ck.check(why in str(World.shown) and why in str(got[1]) and not isinstance(got[1], com_error), "access", "%s: told the user %r, and reported %r", what, World.shown, got)
            book, got = run_import(ck, mods, bits, "*.vba", full, path, out, how, rel, "full-disk")
            ck.check(got[0] == ("ex" if bits & 45 else "ok"), "full-disk", "failing to save gave %r", got)
            ck.check(book.Application.DisplayAlerts is True, "alerts", "failing to save left alerts off")
        World.opened, World.active = {}, None
        from pandalone.xlsutils import import_vba_into_excel_workbook

        got = lib.outcome(import_vba_into_excel_workbook, "*.vba")
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "no workbook", "importing without any workbook gave %r", got)
    elif case[0] == "main":
        full, path = BOOKS[case[1]]
        for mods, bits, out, rel, wild in itt.product([[], [("Foo", 1), ("Bar", 1)]], [0, 1, 9, 63], OUTS, [True, False], WILDCARDS):
            judge(ck, mods, bits, wild, full, path, out, "main", rel)
        for opt in ("--foo", "--help", "--pandalonex"):
            book, got = run_import(ck, [("Foo", 1)], 63, opt, full, path, None, "main", True)
            ck.check(got[0] == "exit" and got[1].code and opt in str(got[1].code) and "Usage" in str(got[1].code) and not book.saves, "option", "main with %r gave %r", opt, got)
        from pandalone.xlsutils import main

        try:
            got = lib.outcome(main, "cmd")
        except SystemExit as ex:
            got = ("exit", ex)
        ck.check(got[0] == "exit" and got[1].code and "Usage" in str(got[1].code), "no-args", "main without arguments gave %r", got)
        book, got = run_import(ck, [("Foo", 1)], 63, "--pandalone", full, path, None, "main", True)
        ck.check(got[0] == "ok" and [m.Name for m in book.project.VBComponents.mods][:1] == ["Foo"] and len(book.project.VBComponents.mods) == 1 + len(own_vbas()), "pandalone", "main --pandalone gave %r, and the modules %r", got, [m.Name for m in book.project.VBComponents.mods])
    else:
        from pandalone.xlsutils import _remove_vba_modules

        mods = [MODS[i] for i in case[1]]
        for n in range(case[2] + 1):
            for names in itt.product(["foo", "FOO", "Bar", "sheet1", "FooBa", "BAZ", "foobar", ""], repeat=n):
                ck.step()
                vbcs = VBComponents(mods)
                got = lib.outcome(_remove_vba_modules, vbcs, *names)
                low = [x.lower() for x in names]
                want = [(a, t) for a, t in mods if t != 1 or names and a.lower() not in low]
                now = [(m.Name, m.Type) for m in vbcs.mods]
                ck.state(("remove", want))
                ck.check(got[0] == "ok" and now == want, "removed", "removing %r out of %r left %r, not %r (%r)", names, mods, now, want, got)
