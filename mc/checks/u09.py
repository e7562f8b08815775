"""U09: bin/bumpver.py on scratch trees, with recorded stand-ins for git & the tests, and faults at every step."""
import contextlib
import datetime
import io
import itertools as itt
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types
import unittest

from .. import lib

PID = "U09"
SCRIPT = os.path.join(lib.REPO, "bin", "bumpver.py")
OLD, DATE = "0.5.0", "2020-05-14 23:59"
VFILES = {
    "plain": '"""Version"""\n__version__ = "0.5.0"  # PEP\n__updated__ = "2020-05-14 23:59"\nversion = __version__\n',
    "swapped": '__updated__ = "2020-05-14 23:59"\n# since 0.5.0, or 0.5.0rc1\n__version__ = "0.5.0"',
    "no-ver": '__updated__ = "2020-05-14 23:59"\n',
    "no-date": '__version__ = "0.5.0"\n',
    "empty": "",
    "odd": '__version__ = "0.5.0+x-y.(1)"  # PEP\n__updated__ = "Thu, 14 May\t2020 23:59:59.123 +02:00 [\u03b1]"\n',
}
RFILES = {
    "both": "pandalone \u03b1\u03b2\n:Release:       0.5.0\n:Date:          2020-05-14 23:59\n\n>>> v\n'0.5.0'\n",
    "odd": "0.5.0+x-y.(1), 0.5.0 since Thu, 14 May\t2020 23:59:59.123 +02:00 [\u03b1]\nThu, 14 May\t2020 23:59:59.123 and 0.5.0+x-y.(1)",
    "none": "Nothing to see here\n\n\n",
    "many": "0.5.0 0.5.0,2020-05-14 23:592020-05-14 23:59 0.5.00.5.0\n0.4.9 0a5b0 05020",
}
#: Long files, with the version & date on many (or on far) lines.
SIZES = [1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257, 1025]
for _n in SIZES:
    VFILES["far-%i" % _n] = "# filler\n" * _n + VFILES["plain"]
    VFILES["split-%i" % _n] = VFILES["plain"].replace("__updated__", "x = 1\n" * _n + "__updated__")
    VFILES["many-%i" % _n] = VFILES["plain"] + "# was 0.5.0 on 2020-05-14 23:59\n" * _n
    RFILES["far-%i" % _n] = "filler\n" * _n + RFILES["both"]
    RFILES["wide-%i" % _n] = "filler " * _n + "0.5.0 2020-05-14 23:59"
    RFILES["many-%i" % _n] = ":Release: 0.5.0 - 2020-05-14 23:59\n\n" * _n
    RFILES["row-%i" % _n] = "0.5.0,2020-05-14 23:59;" * _n
SMALL_V = [f for f in VFILES if "-" not in f or f.startswith("no")]
SMALL_R = [f for f in RFILES if "-" not in f]
NEWS = [None, "0.5.0", "0.5.1", "0.5.0.dev1", "1.0.0rc1", "0.5", "0.5.00", "v0.5.0"]
FLAGS = [
    f
    for f in itt.product(["", "-n", "--dry-run"], ["", "-f", "--force"], ["", "-c", "--commit"], ["", "-t the tag", "--tag=x"])
]
TESTS = ["ok", "fail", "error"]
CMDS = ["ok", "fail0", "fail1", "fail2", "missing0", "missing1", "missing2"]
BOUNDS = {
    "quick": "%i option-combinations x %i versions x %i x %i texts of the two files x tests passing/failing/erring x each git-command failing or missing; pairs of consecutive runs; files of up to %i lines & occurrences"
    % (len(FLAGS), len(NEWS), len(SMALL_V), len(SMALL_R), SIZES[-1]),
    "thorough": "as quick, and all triples of runs",
}
ASSUMPTIONS = [
    "git, and any other process, are stand-ins recording the command (subprocess.* & os.system), as is the module of the doc-tests",
    "the two files have Unix line-endings",
]


def cases(tier):
    short = [f for f in FLAGS if not any(x.startswith("--") for x in f)]
    for vf, rf in itt.product(SMALL_V, SMALL_R):
        for new in NEWS:
            for f in FLAGS if (vf, rf) == ("plain", "both") else short:
                yield (vf, rf, ((new, f, "ok", "ok"),))
    for vf in VFILES:
        for rf in RFILES:
            if (vf in SMALL_V) + (rf in SMALL_R) == 1 or "-" in rf and vf.rpartition("-")[2] == rf.rpartition("-")[2]:
                for new, f in itt.product(["0.5.1", None], [short[0], ("", "", "-c", "")]):
                    yield (vf, rf, ((new, f, "ok", "ok"),))
    for new in NEWS:
        for f in short:
            for t, c in itt.product(TESTS, CMDS):
                yield ("plain", "both", ((new, f, t, c),))
    some = [("", "", "", ""), ("-n", "", "-c", ""), ("", "-f", "", ""), ("", "", "-c", ""), ("", "", "", "-t the tag")]
    runs = [(new, f, t, "ok") for new in NEWS for f in some for t in ("ok", "fail")]
    for two in itt.product(runs, repeat=2):
        yield ("plain", "both", two)
    if tier == "thorough":
        for three in itt.product([r for r in runs if r[2] == "ok"], repeat=3):
            yield ("plain", "many", three)


class World(object):
    """A scratch project, and whatever the script did outside its files."""

    def __init__(self, root, tests, cmds):
        self.root, self.tests, self.cmds = root, tests, cmds
        self.events = []
        self.vfile = os.path.join(root, "pandalone", "_version.py")
        self.rfile = os.path.join(root, "README.rst")

    def texts(self):
        out = []
        for f in (self.vfile, self.rfile):
            with open(f, encoding="utf8") as fp:
                out.append(fp.read())
        return tuple(out)

    def tested(self):
        self.events.append(("tests", self.texts()))
        if self.tests == "error":
            raise RuntimeError("doc-tests")
        return self.tests == "ok"

    def command(self, cmd):
        n = len([e for e in self.events if e[0] == "cmd"])
        self.events.append(("cmd", tuple(cmd) if isinstance(cmd, (list, tuple)) else cmd, self.texts()))
        if self.cmds == "missing%i" % n:
            raise FileNotFoundError("git")
        return 3 if self.cmds == "fail%i" % n else 0


@contextlib.contextmanager
def stand_ins(w):
    def call(cmd, *a, **k):
        return w.command(cmd)

    def check_call(cmd, *a, **k):
        rc = w.command(cmd)
        if rc:
            raise subprocess.CalledProcessError(rc, cmd)
        return b"" if k.get("stdout") or k.get("universal_newlines") is None else ""

    def run(cmd, *a, check=False, **k):
        rc = w.command(cmd)
        if rc and check:
            raise subprocess.CalledProcessError(rc, cmd)
        return subprocess.CompletedProcess(cmd, rc, "", "")

    class Popen(object):
        def __init__(self, cmd, *a, **k):
            self.returncode = w.command(cmd)
            self.stdout = io.StringIO()

        def communicate(self, *a, **k):
            return "", ""

        def wait(self, *a, **k):
            return self.returncode

        poll = wait

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    fakes = dict(call=call, check_call=check_call, check_output=check_call, run=run, Popen=Popen)
    saved = {k: getattr(subprocess, k) for k in fakes}
    saved_system, path = os.system, sys.path[:]
    mods = {k: sys.modules.get(k) for k in ("tests", "tests.test_docs")}

    class T(unittest.TestCase):
        def test_docs(self):
            self.assertTrue(w.tested())

    pkg, mod = types.ModuleType("tests"), types.ModuleType("tests.test_docs")
    mod.T, pkg.test_docs, pkg.__path__ = T, mod, []
    try:
        sys.modules["tests"], sys.modules["tests.test_docs"] = pkg, mod
        for k, v in fakes.items():
            setattr(subprocess, k, v)
        os.system = lambda cmd: w.command(cmd)
        yield
    finally:
        for k, v in saved.items():
            setattr(subprocess, k, v)
        os.system = saved_system
        sys.path[:] = path
        for k, v in mods.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


_code = []


def run_script(w, argv):
    if not _code:
        with open(SCRIPT, encoding="utf8") as f:
            _code.append(compile(f.read(), SCRIPT, "exec"))
    ns = {"__name__": "bumpver", "__file__": os.path.join(w.root, "bin", "bumpver.py")}
    out = io.StringIO()
    with stand_ins(w), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        exec(_code[0], ns)
        try:
            ns["main"](*argv)
            res = None
        except SystemExit as ex:
            res = "exit %r" % (ex.code,) if ex.code else None
        except Exception as ex:
            res = type(ex).__name__
    return out.getvalue(), res


def expect(texts, new, flags, tests, cmds):
    """(must fail, texts afterwards with a placeholder for the new date, tests run, commands attempted)."""
    dry, force, commit, tag = (bool(f) for f in flags)
    m = re.search('__version__ = "([^"]+)"', texts[0]), re.search('__updated__ = "([^"]+)"', texts[0])
    if not all(m):
        return True, texts, False, [], None, None
    old, date = (x.group(1) for x in m)
    if new is None:
        return False, texts, False, [], old, date
    if new == old and not force:
        return True, texts, False, [], old, date
    after = texts if dry else tuple(t.replace(old, new).replace(date, "\0") for t in texts)
    if tests != "ok":
        return True, after, True, [], old, date
    plan = (["add", "commit"] if commit or tag else []) + (["tag"] if tag else [])
    if dry:
        plan = []
    done, failed = [], False
    for i, p in enumerate(plan):
        done.append(p)
        if cmds[-1:] == str(i):
            failed = True
            break
    return failed, after, True, done, old, date


def run_case(ck, case):
    vf, rf, runs = case
    root = tempfile.mkdtemp(prefix="u09-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        for d in ("bin", "pandalone", "tests"):
            os.mkdir(os.path.join(root, d))
        w = World(root, "ok", "ok")
        for f, txt in ((w.vfile, VFILES[vf]), (w.rfile, RFILES[rf])):
            with open(f, "w", encoding="utf8") as fp:
                fp.write(txt)
        for run in runs:
            one_run(ck, root, *run)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def one_run(ck, root, new, flags, tests, cmds):
    w = World(root, tests, cmds)
    texts = w.texts()
    fails, after, tested, plan, old, date = expect(texts, new, flags, tests, cmds)
    argv = []
    for f in flags:
        argv += f.split(" ", 1) if f else []
    tagmsg = {"-t the tag": "the tag", "--tag=x": "x"}.get(flags[3])
    if new:
        argv.append(new)
    t0 = datetime.datetime.now().replace(microsecond=0)
    out, res = run_script(w, argv)
    t1 = datetime.datetime.now()
    ck.step()
    what = "bumpver %r (tests %s, commands %s)" % (argv, tests, cmds)
    ck.check((res is not None) == fails, "outcome", "%s ended with %s, expected %s", what, res, "a failure" if fails else "success")

    def same(got, exp):
        """Equal, with one and the same new date, of now, at the placeholders."""
        dates = set()
        for g, e in zip(got, exp):
            rx = re.escape(e).replace("\0", r"(\d{4}-\d\d-\d\d \d\d:\d\d(?::\d\d)?)")
            m = re.fullmatch(rx, g)
            if not m:
                return False
            dates.update(m.groups())
        if len(dates) > 1:
            return False
        for d in dates:
            if len(d) == 19 and not t0 <= datetime.datetime.strptime(d, "%Y-%m-%d %H:%M:%S") <= t1:
                return False
        return True

    got = w.texts()
    ck.check(same(got, after), "files", "%s left %r, expected %r", what, got, after)
    ntests = [e for e in w.events if e[0] == "tests"]
    ck.check(len(ntests) == int(tested), "tests", "%s run the tests %i times, expected %i", what, len(ntests), tested)
    ck.check(all(same(e[-1], after) for e in w.events), "order", "%s run %r before having written the files", what, [e[:-1] for e in w.events])
    kinds = [e[0] for e in w.events]
    ck.check("tests" not in kinds[1:], "order", "%s run the tests after commands: %r", what, kinds)

    done = [e[1] for e in w.events if e[0] == "cmd"]
    if not ck.check([tuple(c)[:2] for c in done] == [("git", p) for p in plan], "commands", "%s executed %r, expected git %r", what, done, plan):
        return
    for cmd in done:
        cmd, rest = cmd[1], list(cmd[2:])
        if cmd == "add":
            files = sorted(os.path.realpath(f) for f in rest if not f.startswith("-"))
            ck.check(files == sorted(os.path.realpath(f) for f in (w.vfile, w.rfile)), "git-add", "%s added %r", what, rest)
        elif cmd == "commit":
            msg = rest[rest.index("-m") + 1] if "-m" in rest else ""
            m = re.search(r"(\S+)-->(\S+)", msg)
            ck.check(m and m.group(1) == old and new.endswith(m.group(2)), "git-commit", "%s committed with %r", what, rest)
        else:
            ck.check("v" + new in rest and "-m" in rest and rest[rest.index("-m") + 1] == tagmsg and "-s" in rest, "git-tag", "%s tagged with %r", what, rest)
    if new is None and not fails:
        ck.check(out.split("\n")[:2] == [old, date], "print", "%s printed %r", what, out)
    elif tested:
        for o, n in ((old, re.escape(new)), (date, ".*")):
            counts = [int(c) for c in re.findall(r"(\d+) x \(\s*%s --> %s\)" % (re.escape(o), n), out)]
            exp = [t.replace(old, new).count(o) if o is date else t.count(o) for t in texts]
            ck.check(counts == exp, "counts", "%s reported %r replacements of %r, expected %r", what, counts, o, exp)
    ck.state((argv, tests, cmds, fails, plan))
