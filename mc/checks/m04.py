"""M04: paths of mapped path-object trees == mapped paths of plain trees."""
import itertools as itt

from pandalone.mappings import Pstep, pmods_from_tuples

from . import m02
from .. import refmap

PID = "M04"
REFS = ["a", "b", "a.b", "a.a", "b.a", "ab.b", "a.b.b"]
TREES = [t for n in (0, 1, 2) for t in itt.permutations(REFS, n)]
TREES3 = [t for t in itt.combinations(REFS, 3)]
NAMES = ["X", "Y/Z", "/R", "", "a", "b c", "X.Y", "U/"]
ALIASES = ["X", "Y/Z", "/R", "b"]
SPOTS = ["a", "b", "a.b", "a.b.b", "b.a"]
BOUNDS = {
    "quick": "the large mapping lists of M02, and trees of up to 65 named siblings & levels; every single rule of M02 with every ordered list of up to 2 references out of %i and "
    "every unordered triple, under an absolute and a relative root, and some under a root named explicitly; every ordered pair of rules with 3 trees; every ordered triple of the middle pool with "
    "1 tree; every assignment of up to 2 names out of %i to %i spots" % (len(REFS), len(NAMES), len(SPOTS)),
    "thorough": "as quick with pairs on every unordered list of up to 2 references, triples with 3 trees, 3 assignments",
}
ASSUMPTIONS = ["names starting with a dot, which mean different things when assigned and when mapped, are not fed back as mappings"]
BIG = ("a.b.b", "b.a", "ab.b", "a.a")
PAIR_TREES = [BIG, ("a",), ("b.a", "a.b")]


def cases(tier):
    q = tier == "quick"
    for r in m02.pool("full"):
        for root in ("", "a"):
            for t in TREES + TREES3:
                yield ("map", (r,), root, t)
        for root in "ab":
            for alias in ALIASES:
                for t in TREES[:8] + TREES3[:9]:
                    yield ("alias", (r,), root, t, alias)
    pts = PAIR_TREES if q else [t for n in (1, 2) for t in itt.combinations(REFS, n)] + [BIG]
    for rs in itt.product(m02.pool("full"), repeat=2):
        for t in pts:
            yield ("map", rs, "", t)
    for rs in itt.product(m02.pool("mid"), repeat=3):
        for t in PAIR_TREES[: 1 if q else 3]:
            yield ("map", rs, "", t)
    for n in (1, 2) if q else (1, 2, 3):
        for spots in itt.permutations(SPOTS, n):
            for names in itt.product(NAMES, repeat=n):
                yield ("pairs", spots, names)
    for n in m02.SIZES:
        for rules, paths in m02.big(n):
            refs = tuple(p[1:].replace("/", ".") for p in paths if p.startswith("/"))
            yield ("map", tuple(rules), "", refs)
        spots = tuple("s%i" % i for i in range(n))
        deep = tuple(".".join("d%i" % j for j in range(i + 1)) for i in range(n))
        for sp in (spots, deep, spots[::-1], deep[::-1], tuple(s + ".x" for s in spots) + spots):
            for k in range(len(NAMES)):
                yield ("pairs", sp, tuple(NAMES[(i + k) % len(NAMES)] for i in range(len(sp))))
            yield ("pairs", sp, tuple("N%i" % i for i in range(len(sp))))


def refer(p, refs):
    for r in refs:
        q = p
        for s in r.split("."):
            q = getattr(q, s)
    return p


def run_case(ck, case):
    if case[0] == "map":
        _, rules, root, refs = case
        pmods = pmods_from_tuples(list(rules))
        got = refer(pmods.step(root), refs)._paths()
        plain = refer(Pstep(root), refs)._paths()
        mapped = sorted(set(pmods.map_paths(plain)))
        ref = refmap.build(rules)
        exp = sorted({refmap.map_path(ref, p) for p in plain})
        ck.step(2)
        ck.state((plain, exp))
        ck.check(mapped == exp, "map_paths", "%r mapped to %r, expected %r", plain, mapped, exp)
        ck.check(got == exp, "paths", "%r mapped to %r, but path-objects say %r", plain, exp, got)
        # Mappings may be given as plain pairs, too.
        ck.step()
        got = refer(Pstep(root, list(rules)), refs)._paths()
        ck.check(got == exp, "paths of pairs", "%r mapped to %r, but path-objects of the pairs say %r", plain, exp, got)
        got = refer(Pstep(root, pmods), refs)._paths()
        ck.check(got == exp, "paths of mappings", "%r mapped to %r, but path-objects of the mappings say %r", plain, exp, got)
    elif case[0] == "alias":
        # A name given explicitly acts like a last rule for that very step.
        _, rules, root, refs, alias = case
        pmods = pmods_from_tuples(list(rules))
        plain = refer(Pstep(root), refs)._paths()
        ref = refmap.build(rules + ((root, alias),))
        if refmap.map_path(ref, root) != alias:
            return
        exp = sorted({refmap.map_path(ref, p) for p in plain})
        got = refer(pmods.step(root, alias=alias), refs)._paths()
        top = pmods.step(root, alias=alias)
        ck.step(2)
        ck.state((exp, alias))
        ck.check(top == alias and top._orig == root, "alias", "step(%r, alias=%r) was named %r", root, alias, str(top))
        ck.check(got == exp, "alias-paths", "%r with alias %r mapped to %r, but path-objects say %r", plain, alias, exp, got)
    else:
        _, spots, names = case
        p = Pstep()
        for spot, name in zip(spots, names):
            *head, last = spot.split(".")
            setattr(refer_one(p, head), last, name)
        pairs = p._derrive_map_tuples()
        q = refer(pmods_from_tuples(pairs).step(), spots)
        ck.step(2)
        ck.state(p._paths())
        ck.check(q._paths() == p._paths(), "pairs",
                 "pairs %r of a tree with paths %r rebuilt one with %r", pairs, p._paths(), q._paths())


def refer_one(p, steps):
    for s in steps:
        p = getattr(p, s)
    return p
