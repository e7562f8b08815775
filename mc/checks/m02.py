"""M02: map_path() == reference rules, over all small mapping lists and paths."""
import functools
import itertools as itt
import re

from pandalone.mappings import pmods_from_tuples

from .. import refmap

PID = "M02"
EXACT = ["", "/", "/a", "/b", "/a/b", "/a/a", "a", "/a/b/b"]
REGX = [
    "/~a.*", "/~.*", r"/~(a|b)(\d*)", "/~a.*/b", "/~a.*/~b(.*)", "/a/~.*",
    "~.*", "/~a.*/a", "/~.*/~.*/~(.)", "/~a",
    "/~a|ab", "/~b|a.*?/~a|b(.*)", "/~a.*?", "/~(?i)A(.?)$", "/~[^b]*", "/~(a)|(b)", "/~.?", "/~a(?=b).", "/~^(?:a|ab)(\d|\n)?$", "/~~0a", "/~~.*", "/~~?b",
]
TO_PLAIN = ["X", "X/Y", ".", "..", "./X", "../X", "/R", "", "X/", "/R/S", "../../X", "a", "b/a", ".h", "..h/X", "..."]
TO_RX = [r"Q\g<0>", r"/\g<0>", r"../\g<0>"]
TO_GRP = [r"G\1", r"\1/\1"]


@functools.lru_cache(None)
def pool(size):
    if size == "full":
        rules = [(f, t) for f in EXACT for t in TO_PLAIN]
        rules += [(f, t) for f in REGX for t in TO_PLAIN[:8] + TO_RX + [".h"]]
        rules += [(f, t) for f in REGX if re.compile(f.split("/~")[-1]).groups for t in TO_GRP]
        rules += [(None, "X"), ("/a", None)]
    elif size == "mid":
        rules = [(f, t) for f in ["", "/a", "/a/b", "/a/b/b"] for t in ["X", "../X", "/R"]]
        rules += [(f, t) for f in ["/~a.*", "/~.*", "/~a.*/b", "/a/~.*", "/~a.*/~b(.*)", "/~.*/~.*/~(.)", "/~a|ab"]
                  for t in ["Y", "./Z", r"Q\g<0>"]]
        rules += [(f, t) for f in ["/~a.*/~b(.*)", "/~.*/~.*/~(.)"] for t in TO_GRP]
    else:
        rules = [(f, t) for f in ["/a", "/a/b"] for t in ["X", "../X"]]
        rules += [(f, t) for f in ["/~a.*", "/~.*", "/~a.*/b", "/~.*/~b.*", "/~a.*/~.*"] for t in ["Y", r"Q\g<0>"]]
    return [r for r in rules if r != ("", "")] + ([("", "")] if size == "full" else [])


@functools.lru_cache(None)
def paths(depth):
    out = ["", "/"]
    for n in range(1, depth + 1):
        for steps in itt.product(["a", "b", "ab", "a1"], repeat=n):
            p = "/".join(steps)
            out.append("/" + p)
            if n <= 2:
                out.append(p)
    out += ["//a", "/a//b", "/a/", "a/b/", "//", "/a/b/c/d/e", "/a/a/a/a", "/xa", "/ax/by/cz"]
    out += ["/A", "/Ab", "/a\n", "/ab\n", "/ba", "/a.b", "/a b/b", "/b/ba", "/a\n/b", "/\u0391", "/~0a", "/~0", "/~0~0b", "/b/~0a", "/~0b/a"]
    return tuple(out)


BOUNDS = {
    "quick": "52-57 mapping lists of each size up to 65 (siblings, deep, regexps matching the same, mentioned again, many groups); all single rules and ordered pairs over %i rules, all ordered triples over "
    "%i rules, all ordered quadruples over %i rules; each against %i paths up to 3 steps (pairs: %i paths up to 2 steps; quadruples: 2-step paths)"
    % (len(pool("full")), len(pool("mid")), len(pool("small")), len(paths(3)), len(paths(2))),
    "thorough": "as quick, pairs against all 3-step paths, quadruples over the middle-sized pool's first 20 rules, single rules against 5-step paths",
}


ASSUMPTIONS = ["steps holding (escaped) slashes or escapes are left open: mapped paths are not escaped"]
SIZES = [5, 8, 9, 10, 11, 12, 16, 17, 20, 31, 32, 33, 40, 64, 65]


def big(n):
    """(rules, paths) of size `n`: many rules at one place, deep ones, with many groups."""
    deep = ["/".join([""] + ["a%i" % j for j in range(i + 1)]) for i in range(n)]
    at = lambda p: ["/s%i" % i for i in range(n + 1)] + ["/s%i/b" % i for i in range(n + 1)] + p
    # Siblings, in both orders; one of them mentioned again.
    flat = [("/s%i" % i, "X%i" % i) for i in range(n)]
    regx = [("/~s%i.*" % i, "R%i" % i) for i in range(n)]
    under = [("/~s.*/~b{%i}" % (i + 1), "U%i" % i) for i in range(n)]
    ps = ["/" + "s" * (i + 1) for i in range(n)] + ["/s/" + "b" * (i + 1) for i in range(n + 1)]
    for rules in (flat, regx, flat + regx, regx + flat, under, under + regx, [r for p in zip(regx, under) for r in p]):
        for rs in (rules, rules[::-1], rules + [(rules[0][0], "AGAIN")], rules + [(rules[n // 2][0] + "/q", "SUB")]):
            yield rs, at(ps)
    # Mentioned over and over.
    yield [("/~s.*", "V%i" % i) if i % 2 else ("/~.*", "W%i" % i) for i in range(n)], at(ps)
    yield [("/s1", "V%i" % i) for i in range(n)], at(ps)
    # Regexps all matching the same.
    yield [("/~s%s" % ("." * i + "?" * (i > 0)), "Q%i" % i) for i in range(min(n, 20))], at(ps)
    yield [("/~s{0,%i}" % (i + 1), "N%i" % i) for i in range(n)][::-1], at(ps)
    # Deep.
    for name in ("X%i", "../X%i", "/R%i", "./X%i", "X%i/Y", ""):
        names = [name and name % i for i in range(n)]
        yield list(zip(deep, names)), deep + [deep[-1] + "/more"]
        yield [(deep[-1], names[-1])], deep + [deep[-1] + "/more"]
        if n < 34:
            yield [("/~a.*" * (i + 1), names[i]) for i in range(n)], deep + [deep[-1] + "/more"]
        yield [("/~a(\\d+)" * n, names[-1])], deep + [deep[-1] + "/more"]
    # Many groups, long names.
    chars = "".join("(%s)" % chr(97 + i % 26) for i in range(n))
    word = "".join(chr(97 + i % 26) for i in range(n))
    for to in ["\\%i" % i for i in (1, 9, 10, 11, 12, 99) if i <= n] + ["\\g<%i>_" % i for i in (1, n - 1, n)] + ["\\%i" % (n - 1) + "\\1" * n]:
        yield [("/~" + chars, to)], ["/" + word, "/" + word + "/b", "/" + word[1:]]
    yield [("/~x+", "y" * n), ("/" + "z" * n, "\\g<0>" * n), ("/~z+", "\\g<0>" * n)], ["/" + "x" * n, "/" + "z" * n, "/" + "z" * (n + 1)]


def cases(tier):
    q = tier == "quick"
    yield ((), 4)
    for n in SIZES:
        for rules, ps in big(n):
            yield (tuple(rules), tuple(ps))
    for r in pool("full"):
        yield ((r,), 4 if q else 5)
    for rs in itt.product(pool("full"), repeat=2):
        yield (rs, 2 if q else 3)
    for rs in itt.product(pool("mid"), repeat=3):
        yield (rs, 2 if q else 3)
    for rs in itt.product(pool("small") if q else pool("mid")[:20], repeat=4):
        yield (rs, 2)


def run_case(ck, case):
    rules, depth = case
    pmods = pmods_from_tuples(list(rules))
    root = refmap.build(rules)
    ps = paths(depth) if isinstance(depth, int) else depth
    got = pmods.map_paths(list(ps))
    ck.step(len(ps))
    exp = [refmap.map_path(root, p) for p in ps]
    ck.state(exp)
    if got != exp:
        for p, g, e in zip(ps, got, exp):
            if g != e:
                ck.fail("map_path", "map_path(%r) gave %r, expected %r" % (p, g, e))
                break
        else:
            ck.fail("map_paths", "lengths differ: %r" % (got,))
    # Single-path form, and the alias-only shortcut, agree.
    if len(rules) < 3:
        for p in ("/a/b", "/ab/a1"):
            ck.check(
                pmods.map_path(p) == refmap.map_path(root, p), "map_path1",
                "map_path(%r) gave %r", p, pmods.map_path(p),
            )
            pm, nodes = pmods, [root]
            for s in p.split("/"):
                nodes, ra = refmap.descend(nodes, s)
                al = pm.alias(s)
                pm, da = pm.descend(s)
                ck.step(3)
                ck.check(
                    al == ra and da == ra, "alias",
                    "step %r of %r: alias()=%r descend()=%r expected %r", s, p, al, da, ra,
                )
                if not ck.check((pm is None) == (not nodes), "descend",
                                "descend(%r) of %r gave %r", s, p, pm) or pm is None:
                    break
