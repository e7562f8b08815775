"""M03: no use of a mapping changes it, and path-objects sharing it stay independent."""
import itertools as itt

from pandalone.mappings import pmods_from_tuples

from .. import lib, refmap

PID = "M03"
RULES = [
    (("/a", "A"), ("/a/b", "B")),
    (("/a", "A/AA"), ("/~a.*", "W"), ("/~.*/b", "BB")),
    (("/~a.*", r"Q\g<0>"), ("/~.*/~b(.*)", r"C\1"), ("/a/c", "CC")),
    (("", "ROOT"), ("/a", "../X"), ("/b", "/R")),
    (("/~(a|b)", r"G\1"), ("/~a|b", "H"), ("/a/~.*", "./Z"), ("/b/a", "")),
    (("~.*", "/A/B"), ("/a", "X"), ("/a/b/c", "Y")),
    (("/a/b", "B1"), ("/~a/b", "B2"), ("/~a.*/~b.*", "B3"), ("/~a", "A3")),
]
PROBE = ["", "/a", "/a/b", "/a/c", "/b", "/b/a", "/ab", "/ab/b", "/a/b/c", "/b/b"]

QUERY = ["map a/b", "map ab/b", "descend", "merge", "alias", "newstep"]
PSTEP = ["ref a", "ref a.b", "ref b.a", "set a X", "set a.b Y", "set b R/S", "tag a", "lock a", "fix a.b"]

WIDE = [1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 33, 65]
BOUNDS = {
    "quick": "all sequences of 3 operations (6 queries, 9 path-object operations on each of 2 "
    "path-objects), and of 4 operations over 11 of them, on %i mapping lists; every pair of operations repeated up to 33 times, and all of them up to 4; 5 shapes of mappings with %s children under steps that many rules match" % (len(RULES), WIDE),
    "thorough": "same, 4 operations over all and 5 over 11",
}
ALL = [("q", o) for o in QUERY] + [(w, o) for w in ("p1", "p2") for o in PSTEP]
SOME = [("q", "map a/b"), ("q", "descend"), ("q", "newstep")] + [
    (w, o) for w in ("p1", "p2") for o in ("ref a", "set a X", "set a.b Y", "set b R/S")
]


def cases(tier):
    d = 3 if tier == "quick" else 4
    for n in WIDE:
        for which in range(5):
            for order in (1, -1):
                yield ("wide", n, which, order)
    for r in range(len(RULES)):
        for ops in itt.product(ALL, repeat=d):
            yield (r, ops)
        for ops in itt.product(SOME, repeat=d + 1):
            yield (r, ops)
        for n in (8, 9, 16, 17, 33):
            for a, b in itt.product(ALL, repeat=2):
                yield (r, (a, b) * n)
            yield (r, tuple(ALL) * (n // 8))




def wide(n):
    """Mappings with many children, below steps matched by more than one of their rules."""
    e, r, x = ([(f % i, t % i) for i in range(n)] for f, t in (("/a/k%i", "E%i"), ("/~a.*/k%i", "R%i"), ("/~.*/~k%i.*", "X%i")))
    yield r + e
    yield e + r + x
    yield x + r + e[: n // 2 + 1]
    yield x[: n // 2 + 1] + [("/~a.*/k0/z", "Z"), ("/a/k0/z", "ZZ")] + e[:1] + r
    yield [("/~%s" % ("." * i + "a?"), "D%i" % i) for i in range(n)] + e + [("/~a/k0", "L")]


def run_wide(ck, n, which, order):
    rules = list(wide(n))[which]
    probe = ["/%s/%s" % (a, k) for a in ("a", "ab", "b") for k in ("k0", "k%i" % (n - 1), "k%i" % (n // 2), "k1q", "zz", "k0/z")] + ["/a", "/ab"]
    root = refmap.build(rules)
    exp = {p: refmap.map_path(root, p) for p in probe}
    pmods, rep = pmods_from_tuples(rules), repr(pmods_from_tuples(rules))
    trees = [pmods.step(), None]
    for p in probe[::order] * 2:
        ck.step(2)
        got = pmods.map_path(p)
        ck.state((which, n, p, got))
        ck.check(got == exp[p], "answers", "after other queries, %r of %i rules mapped to %r, not %r", p, len(rules), got, exp[p])
        t = trees[0]
        for s in p.split("/")[1:]:
            t = getattr(t, s)
        if not ck.check(repr(pmods) == rep, "changed", "mapping %s became %r after %r", rep, pmods, p):
            return
    trees[1] = pmods.step()
    for p in probe:
        t = trees[1]
        for s in p.split("/")[1:]:
            t = getattr(t, s)
    ck.check(trees[0]._paths() == trees[1]._paths(), "independence", "path-objects of the same mapping show %r and %r", trees[0]._paths(), trees[1]._paths())
    ck.check(pmods == pmods_from_tuples(rules), "eq", "mapping differs from a fresh one: %r", pmods)


def walk(p, dotted):
    for s in dotted.split("."):
        p = getattr(p, s)
    return p


def pstep_op(p, op):
    kind, path, *arg = op.split()
    if kind == "ref":
        walk(p, path)
    elif kind == "set":
        *head, last = path.split(".")
        if head:
            p = walk(p, ".".join(head))
        lib.outcome(setattr, p, last, arg[0])  # may be refused by a lock
    elif kind == "tag":
        walk(p, path)._tag("t")
    elif kind == "lock":
        lib.outcome(lambda: walk(p, path)._lock)
    elif kind == "fix":
        lib.outcome(lambda: walk(p, path)._fix)


def query(pmods, op):
    if op == "map a/b":
        pmods.map_path("/a/b")
    elif op == "map ab/b":
        pmods.map_paths(["/ab/b", "/b/a"])
    elif op == "descend":
        pm, _ = pmods.descend("")
        for s in ("a", "ab", "b"):
            if pm:
                pm.descend(s)
    elif op == "alias":
        pmods.alias("")
    elif op == "merge":
        # What descending with several matches does: both operands must survive.
        other = pmods_from_tuples([("/a", "ZZ"), ("/~a.*", "YY"), ("/a/b/q", "QQ")])
        pm, _ = pmods.descend("")
        om, _ = other.descend("")
        if pm:
            pm._merge(om) if hasattr(pm, "_merge") else None
            om._merge(pm) if hasattr(om, "_merge") else None
    elif op == "newstep":
        p = pmods.step()
        p.a.b = "NEW"
        p.a = "NEWA"
        p.b
        p.b = "NEWB"


_base = {}


def baseline(r):
    if r not in _base:
        pm = pmods_from_tuples(RULES[r])
        exp = [refmap.map_path(refmap.build(RULES[r]), p) for p in PROBE]
        _base[r] = (repr(pm), exp, pmods_from_tuples(RULES[r]))
    return _base[r]


_solo = {}


def solo(r, ops):
    """The paths of a path-object alone on a fresh mapping."""
    k = (r, ops)
    if k not in _solo:
        p = pmods_from_tuples(RULES[r]).step()
        for op in ops:
            pstep_op(p, op)
        _solo[k] = observe(p)
    return _solo[k]


def observe(p):
    return (p._paths(), p._paths(tag="t"), p._derrive_map_tuples())


def run_case(ck, case):
    if case[0] == "wide":
        return run_wide(ck, *case[1:])
    r, ops = case
    rep, exp, pristine = baseline(r)
    pmods = pmods_from_tuples(RULES[r])
    live = {"p1": pmods.step(), "p2": pmods.step()}
    mine = {"p1": (), "p2": ()}
    for who, op in ops:
        if who == "q":
            query(pmods, op)
        else:
            pstep_op(live[who], op)
            mine[who] += (op,)
        ck.step()
        if not ck.check(repr(pmods) == rep, "changed", "mapping %r became %r after %r", rep, repr(pmods), (who, op)):
            return
    ck.check(pmods == pristine, "eq", "mapping differs from a fresh one: %r", pmods)
    got = pmods.map_paths(PROBE)
    ck.step(len(PROBE))
    ck.check(got == exp, "answers", "after use maps %r to %r, expected %r", PROBE, got, exp)
    for who in live:
        o = observe(live[who])
        ck.state((r, who, o))
        ck.check(o == solo(r, mine[who]), "independence",
                 "%s shows %r, but alone %r", who, o, solo(r, mine[who]))
