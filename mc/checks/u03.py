"""U03: ensure_dir_exists() under every interleaving with another process creating things.

The real function runs on a real scratch directory; each file-system call it makes
(the functions of `os` below) is a scheduling point, where "the other process" may
create anything of the alphabet.  All schedules of up to the stated number of such
actions are enumerated, by re-execution (stateless exploration): a schedule maps
the index of a file-system call to the actions taken just before it.
"""
import itertools as itt
import os
import shutil
import stat
import tempfile

from pandalone.utils import ensure_dir_exists

from .. import lib

PID = "U03"
POINTS = ["stat", "lstat", "mkdir", "access", "listdir", "scandir"]
DESTROY = ["rmdir", "unlink", "remove", "rename", "replace", "chmod", "chown", "symlink", "link", "truncate"]
TARGETS = ["a", "a/", "a/b", "a/b/", "a/b/c", "a/./b", "a/.", "./a/b", "x/../a/b"]
INIT = [
    (), ("d:a",), ("d:a", "d:a/b"), ("d:a", "d:a/b", "d:a/b/c"), ("f:a",), ("d:a", "f:a/b"), ("d:a", "d:a/b", "f:a/b/c"),
    ("d:real", "l:a:real"), ("l:a:nowhere",), ("f:file", "l:a:file"), ("d:a", "l:a/b:nowhere"), ("d:a", "d:real", "l:a/b:../real"), ("d:a", "d:a/z", "f:a/y"), ("d:x",),
]
SIZES = [4, 5, 8, 9, 17, 33]
DEEPINIT = [0, 1, 2, 4, 7, 8]
ENV = ["d:a", "d:a/b", "d:a/b/c", "f:a", "f:a/b", "f:a/b/c", "d:a/sib", "d:real", "l:a:nowhere", "D:a/b", "D:a/b/c"]
BOUNDS = {
    "quick": "%i targets (up to 3 levels, trailing slashes, dotted) x absolute/relative x %i initial trees (directories, files, links, dangling links) x every schedule "
    "of up to 2 actions out of %i of another process, before any of the file-system calls made; then once more, undisturbed; and of targets up to %i levels, with 1 action anywhere" % (len(TARGETS), len(INIT), len(ENV), SIZES[-1]),
    "thorough": "every schedule of up to 3 actions",
}
COUNTING = (
    "states: distinct (target, tree before, schedule effect, tree after); transitions: file-system calls of the code interposed; traces: complete schedules executed"
)


def cases(tier):
    for t in range(len(TARGETS)):
        for i in range(len(INIT)):
            for rel in (0, 1):
                yield (t, i, rel, None if tier == "quick" else 3, ())
    for n in SIZES:
        for i in DEEPINIT:
            for rel in (0, 1):
                yield (n, i, rel, "deep", ())


def deep(n):
    """A target of many levels, and some of its ancestors."""
    segs = ["a"] + ["b%i" % i for i in range(n - 1)]
    return "/".join(segs), sorted({"/".join(segs[:k]) for k in (1, 2, n // 2, n - 1, n) if k > 0})


def act(base, what):
    """One action of the other process (fails silently, as that process could)."""
    kind, _, rest = what.partition(":")
    name, _, to = rest.partition(":")
    path = os.path.join(base, name)
    try:
        if kind == "d":
            REAL["mkdir"](path)
        elif kind == "D":
            os.makedirs(path, exist_ok=True)
        elif kind == "f":
            os.close(os.open(path, os.O_CREAT | os.O_EXCL))
        else:
            REAL["symlink"](to, path)
        return True
    except OSError:
        return False


REAL = {n: getattr(os, n) for n in POINTS + DESTROY}


def snapshot(base):
    out = {}

    def walk(d, rel):
        with REAL["scandir"](d) as it:
            for e in it:
                st = REAL["lstat"](e.path)
                k = stat.S_IFMT(st.st_mode)
                r = os.path.join(rel, e.name)
                out[r] = (k, st.st_ino, os.readlink(e.path) if stat.S_ISLNK(st.st_mode) else None)
                if stat.S_ISDIR(st.st_mode):
                    walk(e.path, r)

    walk(base, "")
    return out


class Interposer(object):
    """Counts the calls to the file system, lets the other process act before each, and refuses destruction."""

    def __init__(self, base, schedule):
        self.base, self.schedule = base, dict(schedule)
        self.n, self.effective, self.busy, self.destroyed, self.made = 0, [], False, [], set()

    def __enter__(self):
        for n in POINTS:
            setattr(os, n, self.wrap(n))
        for n in DESTROY:
            setattr(os, n, self.refuse(n))
        return self

    def __exit__(self, *_):
        for n, f in REAL.items():
            setattr(os, n, f)

    def wrap(self, name):
        real = REAL[name]

        def call(*args, **kw):
            if not self.busy:
                self.busy = True
                try:
                    for what in self.schedule.get(self.n, ()):
                        self.effective.append((self.n, what, act(self.base, what)))
                        if self.effective[-1][2]:  # where it really is, past links
                            where, name = os.path.split(os.path.join(self.base, what.split(":")[1]))
                            self.made.add(os.path.relpath(os.path.join(os.path.realpath(where), name), os.path.realpath(self.base)))
                    self.n += 1
                finally:
                    self.busy = False
            return real(*args, **kw)

        return call

    def refuse(self, name):
        def call(*args, **kw):
            self.destroyed.append((name, args))
            raise PermissionError(13, "refused by the harness", str(args[0]))

        return call


def one(ck, root, target, init, rel, schedule, mode):
    base = tempfile.mkdtemp(dir=root)
    cwd = os.getcwd()
    try:
        for what in init:
            assert act(base, what), (init, what)
        before = snapshot(base)
        os.chdir(base)
        path = target if rel else os.path.join(base, target)
        with Interposer(base, schedule) as ip:
            st, ex = lib.outcome(ensure_dir_exists, path) if mode is None else lib.outcome(ensure_dir_exists, path, mode)
        ck.step(ip.n)
        after = snapshot(base)
        desc = "ensuring %r on %r with schedule %r" % (target, init, ip.effective)
        ck.state((target, sorted(before.items()) and init, ip.effective, sorted((k, v[0]) for k, v in after.items()), st))
        ck.check(not ip.destroyed, "destroys", "%s attempted %r", desc, ip.destroyed)
        # Nothing of the others' is gone or replaced, and only directories above the target are new.
        env = {w.split(":")[1] for _, w, ok in ip.effective if ok} | ip.made
        for k, v in before.items():
            ck.check(after.get(k) == v, "changed", "%s changed %r from %r to %r", desc, k, v, after.get(k))
        chain = set()
        for i in range(1, 1 + len(target.split("/"))):
            chain.add(os.path.normpath("/".join(target.split("/")[:i])))
        for k, v in after.items():
            if k not in before and k not in env and not any(e.startswith(k + "/") for e in env):
                real_k = os.path.normpath(k.replace("real", "a")) if "real" in str(init) else k
                ck.check(v[0] == stat.S_IFDIR and (k in chain or real_k in chain or k.startswith("real/")), "litter", "%s left %r", desc, k)
        isdir = os.path.isdir(path)
        if st == "ok":
            ck.check(isdir, "not-a-directory", "%s returned normally without a directory there", desc)
        else:
            ck.check(isinstance(ex, OSError), "exception", "%s raised %r", desc, ex)
            obstacle = any(not os.path.isdir(os.path.join(base, c)) and os.path.lexists(os.path.join(base, c)) for c in chain if c != ".")
            ck.check(obstacle, "spurious", "%s raised %r with nothing but directories in its way", desc, ex)
        new = os.path.normpath(target)
        if st == "ok" and mode is not None and new not in before and new not in env and not any(e.startswith(new + "/") for e in env) and not target.endswith("."):
            got = stat.S_IMODE(os.stat(path).st_mode)
            ck.check(got == mode, "mode", "%s with mode %o made it with %o", desc, mode, got)
        if st == "ok":
            snap = snapshot(base)
            st, ex = lib.outcome(ensure_dir_exists, path)
            ck.check(st == "ok" and snapshot(base) == snap, "again", "%s: doing it again gave %r", desc, ex)
        return ip.n
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)


def run_case(ck, case):
    t, i, rel, depth, sched = case
    env = ENV
    if case[3] == "deep" or t >= len(TARGETS):
        n = t if case[3] == "deep" else t - len(TARGETS)
        target, some = deep(n)
        init, t, env = INIT[i], n + len(TARGETS), [k + ":" + s for k in "dDf" for s in some]
    else:
        target, init = TARGETS[t], INIT[i]
    if depth == 0:  # a single schedule, replayed
        scheds, depth = [sched], 0
    old = os.umask(0)
    root = tempfile.mkdtemp(prefix="vp-u03-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    whole = ck.case
    try:
        if case[3] == 0:
            one(ck, root, target, init, rel, sched, None)
            return
        depth = 1 if depth == "deep" else depth or 2
        for mode in (None, 0o755, 0o700, 0o777):
            one(ck, root, target, init, rel, (), mode)

        def extend(schedule, used, start):
            # What happens before call #k may only change the calls after it.
            ck.case = (t, i, rel, 0, schedule)
            n = one(ck, root, target, init, rel, schedule, None)
            ck.extra["schedules"] += 1
            if used == depth:
                return
            for k in range(start, n):
                for e in env:
                    have = dict(schedule)
                    have[k] = have.get(k, ()) + (e,)
                    if len(set(have[k])) == len(have[k]):
                        extend(tuple(sorted(have.items())), used + 1, k)

        extend((), 0, 0)
    finally:
        ck.case = whole
        os.umask(old)
        shutil.rmtree(root)
