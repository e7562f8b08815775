"""U10: Windows shortcuts & folders, against stand-ins of the shell, with faults at every property set."""
import itertools as itt
import sys
import types

from pandalone import winutils

from .. import lib

PID = "U10"
NAMES = ("Targetpath", "IconLocation", "Description", "Arguments", "WorkingDirectory")
PATHS = ["C:\\x\\foo.lnk", "foo.URL", "", "C:\\\u03b1 b.lnk"]
TARGETS = ["C:\\prog.exe", "http://x/y?a=b", ""]
VALUES = {"icon_path": [None, "", "i.ico,1"], "desc": [None, "", "A b"], "target_args": [None, "", "-x \"a b\""], "wdir": [None, "", "C:\\w\\", "."]}
SIZES = [8, 9, 64, 65, 255, 256, 257, 259, 260, 261, 1023, 1024, 1025]
FAULTS = [None, "create", "save"] + list(NAMES)
_B = "all combinations of %i shortcut-paths x %i targets x every option missing, empty or given (by position & by name) x no fault, or one at the creation, at setting any property, or at saving; all special-folder names of 5 x faults; texts of up to 4100 characters" % (len(PATHS), len(TARGETS))
BOUNDS = {"quick": _B, "thorough": _B}
ASSUMPTIONS = ["the Windows shell is a stand-in recording the properties set; names of properties are compared ignoring letter-case, like COM does"]


class Fault(Exception):
    pass


class Shortcut(object):
    def __init__(self, fault):
        self.__dict__.update(_fault=fault, _props={}, _saved=[])

    def __setattr__(self, name, value):
        if self._fault and name.lower() == self._fault.lower():
            raise Fault(name)
        self._props[name.lower()] = value

    def __getattr__(self, name):
        if name.lower() == "save":
            return self._save
        raise AttributeError(name)

    def _save(self):
        self._saved.append(dict(self._props))
        if self._fault == "save":
            raise Fault("save")


class Shell(object):
    def __init__(self, fault=None):
        self.fault, self.made = fault, []

    def CreateShortCut(self, path):
        if self.fault == "create":
            raise Fault("create")
        self.made.append((path, Shortcut(self.fault)))
        return self.made[-1][1]

    CreateShortcut = CreateShortCut

    def SpecialFolders(self, name):
        if self.fault:
            raise Fault("folder")
        return "C:\\Users\\" + name


def cases(tier):
    for path, target, fault in itt.product(PATHS, TARGETS, FAULTS):
        yield ("shortcut", path, target, fault)
    for n in SIZES:
        yield ("shortcut", "C:\\" + "f" * n + ".lnk", "C:\\" + "d\\" * n + "p.exe", n)
    yield ("folder",)
    yield ("shell",)


def run_case(ck, case):
    if case[0] == "folder":
        for name in ("StartMenu", "MyDocuments", "Desktop", "", "\u03b1"):
            for fault in (None, "folder"):
                got = lib.outcome(winutils.win_folder, Shell(fault), name)
                ck.step()
                ck.state((name, fault))
                if fault:
                    ck.check(isinstance(got[1], Fault), "folder", "folder %r with a fault gave %r", name, got)
                else:
                    ck.check(got == ("ok", "C:\\Users\\" + name), "folder", "folder %r gave %r", name, got)
        return
    if case[0] == "shell":
        asked = []
        client = types.ModuleType("win32com.client")
        client.Dispatch = lambda name: asked.append(name) or Shell()
        win32com = types.ModuleType("win32com")
        win32com.client = client
        old = {n: sys.modules.get(n) for n in ("win32com", "win32com.client")}
        sys.modules.update({"win32com": win32com, "win32com.client": client})
        try:
            got = lib.outcome(winutils.win_shell)
        finally:
            for n, m in old.items():
                if m is None:
                    del sys.modules[n]
                else:
                    sys.modules[n] = m
        ck.step()
        ck.check(got[0] == "ok" and isinstance(got[1], Shell) and [n.lower() for n in asked] == ["wscript.shell"], "shell", "the shell is %r, by asking %r", got, asked)
        return
    _, path, target, fault = case
    options = VALUES
    if isinstance(fault, int):  # Long texts.
        options = {k: [None, "x" * fault, "y z " * fault] for k in VALUES}
        fault = None
    for combo in itt.product(*options.values()):
        opts = dict(zip(VALUES, combo))
        for how in ("names", "positions"):
            shell = Shell(fault)
            if how == "names":
                got = lib.outcome(winutils.win_create_shortcut, shell, path, target, **{k: v for k, v in opts.items() if v is not None})
            else:
                got = lib.outcome(winutils.win_create_shortcut, shell, path, target, opts["wdir"], opts["target_args"], opts["icon_path"], opts["desc"])
            ck.step()
            want = {"targetpath": target}
            for k, n in zip(("icon_path", "desc", "target_args", "wdir"), NAMES[1:]):
                if opts[k]:
                    want[n.lower()] = opts[k]
            what = "shortcut %r --> %r with %r by %s, fault %r" % (path, target, opts, how, fault)
            hit = fault in ("create", "save") or fault and fault.lower() in want
            ck.check((got[0] == "ex") == bool(hit) and (not hit or isinstance(got[1], Fault)), "outcome", "%s gave %r", what, got)
            if fault == "create":
                continue
            if not ck.check([p for p, _ in shell.made] == [path], "created", "%s created %r", what, shell.made):
                continue
            saved = shell.made[0][1]._saved
            if not ck.check(len(saved) == 1, "saved", "%s was saved %i times", what, len(saved)):
                continue
            if hit and fault != "save":
                ok = all(want.get(k) == v for k, v in saved[0].items()) and fault.lower() not in saved[0]
            else:
                ok = saved[0] == want
            ck.check(ok, "properties", "%s saved %r, expected %r", what, saved[0], want)
            ck.state((path, sorted(want.items()), fault))
