"""U02: unique filenames, over all sets of existing ones; extensions, over all short combinations."""
import itertools as itt
import os
import re
import shutil
import tempfile

from pandalone.utils import ensure_file_ext, generate_filenames, make_unique_filename

from .. import lib

PID = "U02"
UNAMES = ["a", "a.txt", "a.tar.gz", ".dot", "d/a.txt", "d.x/a", "a1.txt", "a.", "a b.c", "\u00e9.\u00e8", "./a.b", "d/../a.x", "d", "d.x", "9", "a%i.t", "a%", "{}.x"]
STEMS = ["foo", "f.o", ".foo", "f o", "foo.", "foo..", "d.bar/foo", "d.x/.foo", "\u00e9", "FOO", "bar", "f\\oo"]
TAILS = ["", ".bar", ".BAR", ".bAr", ".xbar", ".ba", ".tar.gz", ".gz", ".TAR.GZ", ".tar", ".b", ".barx", ".c++", ".c", ".xls", ".XLSX", ".xlt", ".", ".bar.", ".$", ".foo", ".bar.gz", "bar", ".a", ".bc", ".ab", ".xlsxm", ".abars"]
EXTS = ["bar", ".bar", ".BAR", "gz", ".tar.gz", "tar.gz", ".c++", "b", ".xls", "xlsx", "ar", "foo", ".$"]
REGEXES = [r"\.xl\w{1,2}", r"\.b", r"\.ba?", r"\.a|\.gz", r"\.[a-c]+", r"\..{3}", r"\.c\+\+", r"(\.b)(ar)?", r"\.BAR", "ar", r"\w+"]
BOUNDS = {
    "quick": "%i names x every subset of their first 8 variants existing, as files and as folders, and runs of up to 130 existing; every history of up to 12 makings; names of up to 120 characters, and as many extensions; "
    "extensions: %i x %i names x %i extensions x up to 2 more of them, or up to 2 of %i regexes" % (len(UNAMES), len(STEMS), len(TAILS), len(EXTS), len(REGEXES)),
    "thorough": "subsets of 12 variants; up to 3 more extensions or regexes",
}
ASSUMPTIONS = ["dangling links count neither as existing nor as free", "empty names, names ending with a slash, and empty extensions are left out"]


def cases(tier):
    for size in (8, 16, 17, 32, 33, 64, 65, 100, 120):
        for name in ("f" * size, "f" * size + ".txt", "f." + "e" * size, ".".join(["p"] * size), "d/" + "g" * size + ".x"):
            yield ("long", name)
    for n in range(len(UNAMES)):
        for bits in range(0, 6):
            yield ("subset", n, bits, 8 if tier == "quick" else 12)
        yield ("run", n)
    for n in range(len(STEMS)):
        for t in range(len(TAILS)):
            yield ("ext", STEMS[n] + TAILS[t], 2 if tier == "quick" else 3)


def variants(name, n):
    """The name, then the name with 1, 2, 3, ... before its extension (leading dots start no extension)."""
    head, slash, base = name.rpartition("/")
    i = base.rfind(".")
    if i < 0 or not base[:i].strip("."):
        i = len(base)
    out = [name]
    for k in range(1, n):
        out.append(head + slash + base[:i] + str(k) + base[i:])
    return out


def in_scratch(fn, *args):
    root = tempfile.mkdtemp(prefix="vp-u02-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    old = os.getcwd()
    try:
        os.chdir(root)
        os.mkdir("d")
        os.mkdir("d.x")
        fn(root, *args)
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def make(path, folder):
    if folder:
        os.mkdir(path)
    else:
        open(path, "x").close()


def drop(path):
    (os.rmdir if os.path.isdir(path) else os.unlink)(path)


def subset(root, ck, name, bits, size):
    gen = itt.islice(generate_filenames(name), size + 2)
    exp = variants(name, size + 2)
    ck.check(list(gen) == exp, "variants", "generate_filenames(%r) does not start with %r", name, exp)
    there = [os.path.exists(v) for v in exp]
    absolute, folder, custom = bits & 1, bits & 2, bits & 4
    if custom:
        exp = ["c-%i-%s" % (i, os.path.basename(name)) for i in range(size + 2)]
        there = [False] * (size + 2)
        filegen = lambda fname: ("c-%i-%s" % (i, os.path.basename(fname)) for i in itt.count())
    for chosen in range(1 << size):
        mine = [v for i, v in enumerate(exp[:size]) if chosen >> i & 1 and not there[i]]
        for v in mine:
            make(v, folder)
        first = next(v for i, v in enumerate(exp) if not there[i] and v not in mine)
        if absolute and not custom:
            got = make_unique_filename(os.path.join(root, name))
            first = os.path.join(root, first)
        elif custom:
            got = make_unique_filename(name, filegen)
        else:
            got = make_unique_filename(name)
        ck.step()
        ck.state((name, chosen, bits))
        ck.check(got == first, "unique", "make_unique_filename(%r) with %r gave %r, not %r", name, mine, got, first)
        ck.check(not os.path.exists(got), "created", "%r exists after making it unique", got)
        for v in mine:
            drop(v)


def run(root, ck, name):
    """A history of making and then creating files: all differ, in order."""
    exp = variants(name, 140)
    if os.path.exists(exp[0]):
        exp = exp[1:]
    for i in range(130):
        got = make_unique_filename(name)
        ck.step()
        ck.check(got == exp[i], "unique-run", "making %r unique for the %ith time gave %r, not %r", name, i + 1, got, exp[i])
        ck.state((name, i))
        make(got, i % 3 == 2)
    for gone in (0, 1, 9, 10, 11, 99, 100, 129):
        drop(exp[gone])
        got = make_unique_filename(name)
        ck.check(got == exp[gone], "unique-refill", "with only %r free, it gave %r", exp[gone], got)
        make(exp[gone], False)


def has(fname, ext):
    base = fname.rpartition("/")[2].lower()
    ext = "." + ext.lstrip(".").lower()
    return base.endswith(ext) and len(base) > len(ext)


def file_ext(fname):
    base = fname.rpartition("/")[2]
    i = base.rfind(".")
    return base[i:] if i > 0 and base[:i].strip(".") else ""


def expected(fname, ext, more, is_regex):
    if has(fname, ext):
        return fname
    if is_regex:
        if any(re.fullmatch(m, file_ext(fname), re.I) for m in more):
            return fname
    elif any(has(fname, m) for m in more):
        return fname
    return (fname[:-1] if fname.endswith(".") else fname) + "." + (ext[1:] if ext.startswith(".") else ext)


def ext(ck, fname, n):
    for e in EXTS:
        for k in range(n + 1):
            for is_regex in (False, True):
                for more in itt.permutations(REGEXES if is_regex else EXTS, k):
                    ck.step(2)
                    exp = expected(fname, e, more, is_regex)
                    got = ensure_file_ext(fname, e, *more, is_regex=is_regex)
                    ck.state((fname, e, k, is_regex, exp == fname))
                    ck.check(got == exp, "ext", "ensure_file_ext(%r, %r, *%r, is_regex=%r) gave %r, not %r", fname, e, more, is_regex, got, exp)
                    again = ensure_file_ext(got, e, *more, is_regex=is_regex)
                    ck.check(again == got, "ext-again", "ensure_file_ext(%r, %r, *%r, is_regex=%r) gave %r, then %r", fname, e, more, is_regex, got, again)


def run_case(ck, case):
    if case[0] == "long":
        in_scratch(subset, ck, case[1], 0, 4)
        in_scratch(subset, ck, case[1], 3, 2)
        n = len(case[1])
        exts = [".e%i" % i for i in range(n)]
        for fname in (case[1], case[1] + ".e0", case[1] + exts[-1], case[1] + ".E%i" % (n // 2), case[1] + ".e"):
            for is_regex in (False, True):
                more = [re.escape(e) for e in exts] if is_regex else exts
                for m in (more, more[::-1], more[: n // 2], more[-1:]):
                    ck.step()
                    exp = expected(fname, "bar", m, is_regex)
                    got = ensure_file_ext(fname, "bar", *m, is_regex=is_regex)
                    ck.check(got == exp, "ext", "ensure_file_ext(%r, 'bar', *%r, is_regex=%r) gave %r, not %r", fname, m, is_regex, got, exp)
            e = "." + "x" * n
            got = ensure_file_ext(fname, e)
            ck.check(got == expected(fname, e, (), False), "ext", "ensure_file_ext(%r, %r) gave %r", fname, e, got)
        ck.state(case)
    elif case[0] == "subset":
        in_scratch(subset, ck, UNAMES[case[1]], *case[2:])
    elif case[0] == "run":
        in_scratch(run, ck, UNAMES[case[1]])
    else:
        ext(ck, *case[1:])
