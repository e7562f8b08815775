"""U01: path and URL conversions, over all short paths, against a segment-list model."""
import itertools as itt
import os
import shutil
import tempfile
import urllib.parse as up

from pandalone import utils

from .. import lib

PID = "U01"
LONG = "x" * 205
CHARS = ["a", "/", " ", "%", "#", "?", ":", ".", "~", "\u00e9", "2", "5", "+", "&", ";", "=", "$"]
SEGS = ["a", "b c", ".", "..", "", "~", "a.b", "\u00e9", "C", LONG]
USEGS = ["a", "b", ".", "..", "", "%20c", "a.b", LONG]
NETS = ["http://h", "https://u:p@h.org:80", "ftp://h", "file://h", "file://"]
TAILS = ["", "?q=1", "?q=/a/../b//", "#f", "#/x/../y/", "?a=b&c=~#d/./", "?u=http://o/../p/#g"]
WSEGS = ["~", "~root", "$VPA", "${VPB}/c", "$VPNO", "a", "a$VPA", "..", "~vpnobody", "$VPA/"]
DSEGS = ["a", "b c", ".", "..", "", "\u00e9", "$", "C"]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 26, 27, 33, 64, 65, 129]
HEADS = ["C:", "d:", "C:/", "d:/", "\\\\?\\C:/", "//srv/", "//srv/sh/", "/", ""]
CWDS = ["plain", "we ird#%2f?\u00e9", LONG]
ASSUMPTIONS = [
    "POSIX only: drive letters and UNC prefixes are meant for path2url() alone, and paths climbing above their drive are left open",
    "path2url() is not required to percent-encode the path given: characters special to URLs appear in paths only for "
    "path2urlpath()/urlpath2path() and for the current directory",
    "whether a path ending in '.' or '..' is marked as folder is left open",
]
BOUNDS = {
    "quick": "path2urlpath/urlpath2path: every text up to length 5 of %i characters, plain and behind a %i-characters folder; "
    "normpath/abspath/convpath/path2url: absolute & relative paths of up to 4 segments out of %i, with 0-2 trailing slashes, from %i current directories; "
    "URLs: %i hosts x paths up to 3 segments out of %i x %i queries and fragments; Windows paths: %i drives or hosts x up to 4 segments out of %i, with either delimiter; expansions: paths up to 3 segments out of %i x all flags; 12 kinds of long paths, of up to %i segments"
    % (len(CHARS), len(LONG), len(SEGS), len(CWDS), len(NETS), len(USEGS), len(TAILS), len(HEADS), len(DSEGS), len(WSEGS), SIZES[-1]),
    "thorough": "texts up to length 6, paths up to 5 segments, URLs up to 4",
}


def cases(tier):
    deep = tier != "quick"
    for n in range(0, 4):
        for pre in itt.product(CHARS, repeat=n):
            if n < 3:
                yield ("chars", "".join(pre), 0)
            else:
                yield ("chars", "".join(pre), 3 if deep else 2)
    for c in range(len(CWDS)):
        for first in itt.product(range(len(SEGS)), repeat=2):
            yield ("path", c, first, 3 if deep else 2)
    for n in range(len(NETS)):
        for t in range(len(TAILS)):
            for first in range(len(USEGS)):
                yield ("url", n, t, first, 3 if deep else 2)
    for h in range(len(HEADS)):
        for first in range(len(DSEGS)):
            yield ("windows", h, first, 4 if deep else 3)
    for n in SIZES + [257, 1025] if deep else SIZES:
        yield ("large", n)
    for flags in itt.product((False, True), repeat=3):
        for first in range(len(WSEGS)):
            yield ("expand", flags, first)


def norm(path):
    """Segments of a path resolved: (is-absolute, root, [segments])."""
    root = ""
    if path.startswith("/"):
        root = "//" if path.startswith("//") and not path.startswith("///") else "/"
    out = []
    for s in path.split("/"):
        if s in ("", "."):
            continue
        if s == "..":
            if out and out[-1] != "..":
                out.pop()
                continue
            if root:
                continue
        out.append(s)
    return (root + "/".join(out)) or "."


def with_slash(p, folder):
    return p + "/" if folder and not p.endswith("/") else p


def is_folder(path):
    return path.endswith("/") and path.strip("/") != ""


def chars(ck, pre, more):
    for n in range(0, more + 1) if more else (0,):
        for tail in itt.product(CHARS, repeat=n):
            p = pre + "".join(tail)
            for path in (p, "/" + LONG + "/" + p):
                if path.startswith("//"):
                    continue
                ck.step(2)
                u = utils.path2urlpath(path)
                back = utils.urlpath2path(u)
                ck.check(back == path, "urlpath-roundtrip", "%r -> %r -> %r", path, u, back)
                ck.check(up.unquote(u) == path, "urlpath-decodes", "%r -> %r", path, u)
                ck.check(not set(u) & set(" #?\u00e9"), "urlpath-unsafe", "%r -> %r", path, u)
            ck.state(p)


def path(ck, c, first, more):
    root = tempfile.mkdtemp(prefix="vp-u01-")
    old = os.getcwd()
    try:
        cwd = os.path.join(os.path.realpath(root), CWDS[c])
        os.mkdir(cwd)
        os.chdir(cwd)
        seqs = {tuple(first)} | {(first[0],)} | {()}
        for n in range(1, more + 1):
            seqs |= {tuple(first) + t for t in itt.product(range(len(SEGS)), repeat=n)}
        for seq in sorted(seqs):
            segs = [SEGS[i] for i in seq]
            for lead in ("", "/"):
                for trail in ("", "/", "//"):
                    one_path(ck, cwd, lead + "/".join(segs) + trail)
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def one_path(ck, cwd, p):
    folder = is_folder(p)
    ck.state(p)
    absp = with_slash(norm(p if p.startswith("/") else cwd + "/" + p), folder)
    for name, fn, exp in (
        ("normpath", utils.normpath, with_slash(norm(p), folder)),
        ("abspath", utils.abspath, absp),
        ("convpath", lambda x: utils.convpath(x, exp_user=False), absp),
        ("convpath-rel", lambda x: utils.convpath(x, abs_path=False, exp_user=False, exp_vars=False), with_slash(norm(p), folder)),
    ):
        ck.step(2)
        got = fn(p)
        ck.check(got == exp, name, "%s(%r) gave %r, not %r", name, p, got, exp)
        again = fn(got)
        ck.check(again == got, name + "-again", "%s(%r) gave %r, then %r", name, p, got, again)
    if not p or p.startswith("//"):
        return
    ck.step(3)
    u = utils.path2url(p)
    parts = up.urlsplit(u)
    back = utils.urlpath2path(parts.path)
    if p.split("/")[-1] in (".", ".."):
        ck.check(back.rstrip("/") == absp.rstrip("/"), "path2url", "path2url(%r) gave %r, meaning %r, not %r", p, u, back, absp)
    else:
        ck.check(back == absp, "path2url", "path2url(%r) gave %r, meaning %r, not %r", p, u, back, absp)
    ck.check((parts.scheme, parts.netloc, parts.query, parts.fragment) == ("file", "", "", ""), "path2url-parts", "path2url(%r) gave %r", p, u)
    ck.check(u.startswith("file:///"), "path2url-form", "path2url(%r) gave %r", p, u)
    again = utils.path2url(u)
    ck.check(again == u, "path2url-again", "path2url(%r) gave %r, then %r", p, u, again)


def url(ck, n, t, first, more):
    seqs = {(first,), ()}
    for k in range(1, more + 1):
        seqs |= {(first,) + s for s in itt.product(range(len(USEGS)), repeat=k)}
    urls(ck, n, t, [[USEGS[i] for i in seq] for seq in sorted(seqs)])


def urls(ck, n, t, seqs):
    for segs in seqs:
        for trail in ("", "/"):
            if segs and segs[0] == "":  # //double: host-like
                continue
            p = ("/" + "/".join(segs) + trail) if segs else trail
            if NETS[n] == "file://" and not p:
                continue
            text = NETS[n] + p + TAILS[t]
            ck.step(2)
            ck.state(text)
            got = utils.path2url(text)
            a, b = up.urlsplit(text), up.urlsplit(got)
            ck.check((a.scheme, a.netloc, a.query, a.fragment) == (b.scheme, b.netloc, b.query, b.fragment), "url-parts", "path2url(%r) gave %r", text, got)
            exp = with_slash(norm(p), is_folder(p)) if p else ""
            if segs and segs[-1] in (".", "..") and not trail:
                ck.check(b.path.rstrip("/") == exp.rstrip("/"), "url-path", "path2url(%r) gave %r", text, got)
            else:
                ck.check(b.path == exp, "url-path", "path2url(%r) gave %r, not with %r", text, got, exp)
            again = utils.path2url(got)
            ck.check(again == got, "url-again", "path2url(%r) gave %r, then %r", text, got, again)


def many(n):
    """Lists of some n path segments."""
    yield ["s%i" % i for i in range(n)]
    yield ["s%i" % i for i in range(n)] + [".."] * n
    yield ["s%i" % i for i in range(n)] + [".."] * (n - 1)
    yield ["s%i" % i for i in range(n)] + [".."] * (n + 1) + ["t"]
    yield ["a"] + ["."] * n + ["b"]
    yield ["a"] + [""] * n + ["b"]
    yield ["a", ".."] * n + ["b"]
    yield [".."] * n + ["b"]
    yield ["."] * n + ["b"]
    yield ["b c", "\u00e9"] * n
    yield ["x" * n, "y"]
    yield ["x" * (n - 1) + "\u00e9", "a b" * n, "z"]


def large(ck, n):
    root = tempfile.mkdtemp(prefix="vp-u01-")
    old = os.getcwd()
    try:
        cwd = os.path.join(os.path.realpath(root), CWDS[1])
        os.mkdir(cwd)
        os.chdir(cwd)
        for segs in many(n):
            for lead, trail in itt.product(("", "/"), ("", "/", "//", "/" * n)):
                one_path(ck, cwd, lead + "/".join(segs) + trail)
    finally:
        os.chdir(old)
        shutil.rmtree(root)
    lists = [s for s in many(n) if not set(s) & {"b c", "\u00e9"} and s[-1] != "z"]
    for net in range(len(NETS)):
        for t in range(len(TAILS)):
            urls(ck, net, t, lists)
    for c in CHARS:
        for p in ("a" + c * n + "b", "/" + ("a" + c) * n, ("/a" + c + "b") * n, "a" * n + c + "b"):
            ck.step(2)
            u = utils.path2urlpath(p)
            ck.check(utils.urlpath2path(u) == p, "urlpath-roundtrip", "%r -> %r -> %r", p, u, utils.urlpath2path(u))
            ck.check(up.unquote(u) == p, "urlpath-decodes", "%r -> %r", p, u)
            ck.check(not set(u) & set(" #?\u00e9"), "urlpath-unsafe", "%r -> %r", p, u)
    saved = dict(os.environ)
    os.environ.update(ENV)
    try:
        for segs in (["$VPA"] * n, ["${VPB}", "$VPA"] * n, ["a"] * n + ["$VPA"], ["$VPNO"] * n + ["$VPA"], ["~"] + ["$VPA"] * n, ["~"] * n, ["a"] * n + ["~"], ["~"] + ["a"] * n):
            for lead, flags in itt.product(("", "/", "./"), itt.product((False, True), repeat=3)):
                one_expand(ck, old, flags, lead + "/".join(segs))
    finally:
        os.environ.clear()
        os.environ.update(saved)


def windows(ck, h, first, more):
    """Windows paths, by either delimiter, on any platform."""
    head = HEADS[h]
    for n in range(more + 1):
        for segs in itt.product(range(len(DSEGS)), repeat=n):
            segs = [DSEGS[i] for i in (first,) + segs]
            if not segs[0] and not head.endswith(":"):  # More slashes than the head has.
                continue
            depth = 0
            for s in segs:
                depth += {"..": -1, ".": 0, "": 0}.get(s, 1)
                if depth < 0:
                    break
            if depth < 0:
                continue
            for trail in ("", "/", "//"):
                tail = "/".join(segs) + trail
                if ":" in head:
                    exp = "file:///%s%s" % (head[head.index(":") - 1], ":")
                elif head.startswith("//"):
                    exp = "file:" + head.rstrip("/")
                else:
                    exp = "file://" + (os.getcwd().rstrip("/") if not head else "")
                body = norm("/" + tail.lstrip("/"))
                exp += with_slash(body, trail and depth) if body != "/" or head else "/"
                for delim in "/\\":
                    p = (head + tail).replace("/", delim)
                    ck.step()
                    ck.state(p)
                    got = utils.path2url(p)
                    if segs[-1] in ("", ".", "..") or not depth:  # Whether it is a folder is left open.
                        ck.check(got.rstrip("/") == exp.rstrip("/"), "windows", "path2url(%r) gave %r, not %r", p, got, exp)
                    else:
                        ck.check(got == exp, "windows", "path2url(%r) gave %r, not %r", p, got, exp)
                    again = utils.path2url(got)
                    ck.check(again == got, "windows-again", "path2url(%r) gave %r, then %r", p, got, again)


ENV = {"HOME": "/vphome/me", "VPA": "va", "VPB": "vb/../w"}


SHARED = ["c$\\d", "$\\x", "a$\\b$\\c", "$\\$VPB/e"]


def expand_vars(p):
    for k in ("VPA", "VPB"):
        p = p.replace("${%s}" % k, ENV[k]).replace("$" + k, ENV[k])
    return p


def expand_user(p):
    head, sep, rest = p.partition("/")
    home = {"~": ENV["HOME"], "~root": "/root"}.get(head)
    return p if home is None else home + sep + rest


def expand(ck, flags, first):
    saved = dict(os.environ)
    os.environ.update(ENV)
    cwd = os.getcwd()
    try:
        for n in range(0, 3):
            for more in itt.product(range(len(WSEGS)), repeat=n):
                for lead in ("", "/", "./"):
                    one_expand(ck, cwd, flags, lead + "/".join(WSEGS[i] for i in (first,) + more))
        for shared in SHARED:  # Windows' administrative shares are no variables.
            for p in (shared, shared + "/" + WSEGS[first], WSEGS[first] + "/" + shared, "/" + shared + "$VPA", "\\\\h\\" + shared + "/"):
                abs_path, eu, ev = flags
                ck.step()
                q = expand_user(p) if eu else p
                q = expand_vars(q) if ev else q
                q = with_slash(norm(q if q.startswith("/") or not abs_path else cwd + "/" + q), is_folder(q))
                got = utils.convpath(p, abs_path=abs_path, exp_user=eu, exp_vars=ev)
                ck.check(got == q, "convpath-share", "convpath(%r, %r) gave %r, not %r", p, flags, got, q)
    finally:
        os.environ.clear()
        os.environ.update(saved)


def one_expand(ck, cwd, flags, p):
    abs_path, eu, ev = flags
    ck.step(2)
    q = expand_user(p) if eu else p
    q = expand_vars(q) if ev else q
    q = with_slash(norm(q if q.startswith("/") or not abs_path else cwd + "/" + q), is_folder(q))
    got = utils.convpath(p, abs_path=abs_path, exp_user=eu, exp_vars=ev)
    ck.state((flags, q))
    ck.check(got == q, "convpath-expand", "convpath(%r, %r) gave %r, not %r", p, flags, got, q)
    if abs_path and not p.startswith("//"):
        u = utils.path2url(p, expandvars=ev, expanduser=eu)
        back = utils.urlpath2path(up.urlsplit(u).path)
        if q.startswith("//") or p.endswith(".."):
            back, q = back.strip("/"), q.strip("/")
        ck.check(back == q, "path2url-expand", "path2url(%r, expandvars=%s, expanduser=%s) gave %r, not %r", p, ev, eu, u, q)


def run_case(ck, case):
    {"chars": chars, "path": path, "url": url, "windows": windows, "expand": expand, "large": large}[case[0]](ck, *case[1:])
