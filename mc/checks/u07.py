"""U07: searching programs, in really created folders, for every set of files in them and order of the PATH."""
import atexit
import itertools as itt
import os
import shutil
import tempfile

from pandalone.utils import py_where, where, which

from .. import lib

PID = "U07"
EXTS = ["", ".bat", ".com", ".exe"]
#: Distractors share the program's prefix.
NEAR = ["com", "bat", ".txt", "X", ".exe.bat"]
KINDS = ["none", "exec", "plain", "dir", "link", "dangling", "group"]
PROGS = ["prog", "my prog", "p.q", "prog.exe", "PROG"]
PATHS = [
    "{a}:{b}", "{b}:{a}", "{a}", "{b}", ":{a}:{b}:", "{a}::{b}", '"{a}":{b}', '{b}:"{a}"', "{a}/:{b}/", "{no}:{b}:{a}", "{file}:{a}", "{b}:{no}", "{no}", "a:{b}", "b:./a", "{a}/../b:{a}", "{c}:{b}:{a}", "{a} :{b}", " {a}:{b}", "\"{a} \":{b}", '{q}:{b}', '{b}:"{q}"',
]
BOUNDS = {
    "quick": "every kind (%s) of the program in each of 2 folders (and one with a quote in its name) x %i PATHs (quoted, empty, relative, missing elements) x %i programs; every subset of the program's %i names and %i alike ones x PATHs; every kind of every extension in a folder; PATHs of up to 64 folders; by argument and by environment"
    % (", ".join(KINDS), len(PATHS), len(PROGS), len(EXTS), len(NEAR)),
    "thorough": "3 kinds of every extension in each of 2 folders too",
}
ASSUMPTIONS = ["POSIX only; duplicate folders in PATH, empty programs and PATHs are left out"]


def cases(tier):
    deep = tier != "quick"
    for n in SIZES:
        for which_have in ("all", "last", "first", "odd", "none", "long"):
            yield ("many", n, which_have)
    for prog in range(len(PROGS)):
        for ka, kb in itt.product(range(len(KINDS)), repeat=2):
            yield ("kinds", prog, ka, kb)
    for first in range(1 << len(EXTS)):
        for near in range(1 << len(NEAR)):
            yield ("subset", first, near)
    for kinds in itt.product(range(len(KINDS)), repeat=len(EXTS)):
        yield ("exts", kinds)
    if deep:
        for kinds in itt.product(range(3), repeat=2 * len(EXTS)):
            yield ("exts", kinds)


SIZES = [4, 8, 9, 10, 16, 17, 33, 64]


#: Only the quotes around a folder are not of its name.
FOLDERS = {"a": "a", "b": "b", "c": "c", "q": 'q"x'}


class Tree(object):
    """Folders a, b & c within a scratch folder."""

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vp-u07-"))
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(self.root, ignore_errors=True))
        with open(os.path.join(self.root, "target"), "w") as f:
            f.write("#!/bin/sh\n")
        os.chmod(os.path.join(self.root, "target"), 0o755)
        open(os.path.join(self.root, "file"), "w").close()
        self.made = []
        for d in FOLDERS.values():
            os.mkdir(os.path.join(self.root, d))

    def clear(self):
        for d in FOLDERS.values():
            p = os.path.join(self.root, d)
            for f in os.listdir(p):
                f = os.path.join(p, f)
                if os.path.isdir(f) and not os.path.islink(f):
                    os.rmdir(f)
                else:
                    os.remove(f)

    def put(self, folder, name, kind):
        p = os.path.join(self.root, folder, name)
        if kind in ("exec", "plain", "group"):
            with open(p, "w") as f:
                f.write("#!/bin/sh\n")
            os.chmod(p, {"exec": 0o755, "plain": 0o644, "group": 0o654}[kind])
        elif kind == "dir":
            os.mkdir(p)
        elif kind == "link":
            os.symlink(os.path.join(self.root, "target"), p)
        elif kind == "dangling":
            os.symlink(os.path.join(self.root, "nope"), p)


TREES = {}


def tree():
    if os.getpid() not in TREES:
        TREES[os.getpid()] = Tree()
    return TREES[os.getpid()]


def root_may(kind):
    return kind in ("exec", "link") or kind == "group" and os.geteuid() == 0


def ref_where(files, prog, path, root):
    """:param files: {(folder-letter, name): kind}"""
    out = []
    for part in path.split(":"):
        part = part.strip('"')
        if not part:
            continue
        folder = os.path.relpath(os.path.normpath(os.path.join(root, part)), root)
        for e in EXTS:
            kind = files.get((folder, prog + e))
            if kind and root_may(kind):
                out.append((part, prog + e))
    return out


def judge(ck, t, files, prog):
    for tmpl in PATHS:
        path = tmpl.format(**{k: os.path.join(t.root, k) for k in ("a", "b", "c", "no", "file")}, q=os.path.join(t.root, FOLDERS["q"]))
        want = ref_where(files, prog, path, t.root)
        os.environ["PATH"] = path
        for how in ("arg", "env", "none", "where"):
            if how == "where" and tmpl not in PATHS[:4]:
                continue
            ck.step()
            if how == "arg":
                os.environ["PATH"] = "/nope"
                got = lib.outcome(py_where, prog, path)
                os.environ["PATH"] = path
            elif how == "env":
                got = lib.outcome(py_where, prog)
            elif how == "none":
                got = lib.outcome(py_where, prog, "")
            else:
                got = lib.outcome(where, prog)
            if not ck.check(got[0] == "ok", "raised", "%s %r in %r raised %r", how, prog, path, got[1]):
                continue
            ok = len(got[1]) == len(want) and all(os.path.normpath(g) == os.path.normpath(os.path.join(*w)) for g, w in zip(got[1], want))
            ck.check(ok, "found", "%s of %r in PATH %r with %r found %r, not %r", how, prog, path.replace(t.root, ""), files, [g.replace(t.root, "") for g in got[1]], want)
        if tmpl in PATHS[:6]:
            ck.step()
            got = lib.outcome(which, prog)
            exp = want[0] if want else None
            ok = got[0] == "ok" and (got[1] is None if exp is None else isinstance(got[1], str) and os.path.normpath(got[1]) == os.path.normpath(os.path.join(*exp)))
            ck.check(ok, "which", "which(%r) in PATH %r with %r gave %r, not %r", prog, path.replace(t.root, ""), files, got, exp)
        ck.state((tuple(sorted(files.items())), tmpl, [os.path.join(w[0].replace(t.root, ""), w[1]) for w in want]))


def run_many(ck, n, having):
    """Many folders in PATH, also with long names."""
    root = os.path.realpath(tempfile.mkdtemp(prefix="vp-u07m-"))
    old = os.environ["PATH"]
    try:
        prog = "p" * n if having == "long" else "prog"
        dirs = [os.path.join(root, ("d" * n if having == "long" else "d") + str(i)) for i in range(n)]
        want = []
        for i, d in enumerate(dirs):
            os.mkdir(d)
            if {"all": True, "long": True, "last": i == n - 1, "first": i == 0, "odd": i % 2 == 1, "none": False}[having]:
                for e in EXTS if i % 3 == 0 else [""]:
                    p = os.path.join(d, prog + e)
                    open(p, "w").close()
                    os.chmod(p, 0o755)
                    want.append(p)
        for order in (1, -1):
            path = ":".join(dirs[::order])
            exp = [p for d in dirs[::order] for p in want if os.path.dirname(p) == d]
            os.environ["PATH"] = path
            for how, got in (("arg", lib.outcome(py_where, prog, path)), ("env", lib.outcome(py_where, prog)), ("where", lib.outcome(where, prog))):
                ck.step()
                ok = got[0] == "ok" and [os.path.normpath(g) for g in got[1]] == exp
                ck.check(ok, "many", "%s of %r over %i folders (%s having it) found %r, not %r", how, prog, n, having, got, exp)
            got = lib.outcome(which, prog)
            ck.step()
            ok = got[0] == "ok" and (got[1] is None if not exp else got[1] is not None and os.path.normpath(got[1]) == exp[0])
            ck.check(ok, "many", "which(%r) over %i folders (%s having it) gave %r", prog, n, having, got)
        ck.state((n, having))
    finally:
        os.environ["PATH"] = old
        shutil.rmtree(root)


def run_case(ck, case):
    if case[0] == "many":
        return run_many(ck, *case[1:])
    t = tree()
    t.clear()
    old, cwd = os.environ["PATH"], os.getcwd()
    os.chdir(t.root)
    try:
        files, prog = {}, "prog"
        if case[0] == "kinds":
            prog = PROGS[case[1]]
            files = {("a", prog): KINDS[case[2]], ("b", prog): KINDS[case[3]], (FOLDERS["q"], prog): KINDS[case[2]]}
        elif case[0] == "subset":
            for i, e in enumerate(EXTS):
                files["a" if i % 2 else "b", prog + e] = "exec" if case[1] >> i & 1 else "none"
                files["b" if i % 2 else "a", prog + e] = "exec" if case[1] >> (len(EXTS) - 1 - i) & 1 else "none"
            for i, e in enumerate(NEAR):
                if case[2] >> i & 1:
                    files["ab"[i % 2], prog + e] = "exec"
        else:
            for i, k in enumerate(case[1]):
                files["ab"[i // len(EXTS)], prog + EXTS[i % len(EXTS)]] = KINDS[k]
        for (folder, name), kind in files.items():
            t.put(folder, name, kind)
        judge(ck, t, files, prog)
    finally:
        os.chdir(cwd)
        os.environ["PATH"] = old
        t.clear()
