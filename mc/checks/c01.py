"""C01: components and assemblies record the mapped paths their functions reference."""
import functools
import itertools as itt

from pandalone.components import Assembly, FuncComponent
from pandalone.mappings import pmods_from_tuples

from .. import refmap

PID = "C01"
REFS = [None, (), ("A",), ("A.B",), ("A", "B"), ("A.B", "A.A"), ("A", "A.B"), ("A", "A")]
NAMES = ["f", "g", "cfunc_h", "cfunc_f_cfunc_g", "f_cfunc_", "cfunc_cfunc_g"]
FROM = ["f", "g", "h", "f/A", "g/A", "~.*", "~[fg]", "~f/~.*", "~.*/A", "/f", "f/A/B", ""]
TO = ["X", "/R", "X/Y", ".", "..", "../Z", "", "/", r"Q\g<0>", "g", "A"]


@functools.lru_cache(None)
def rules():
    return [(f, t) for f in FROM for t in TO if not ("g<0>" in t and "~" not in f.rsplit("/", 1)[-1])]


GIVEN = [None, "f", "cfunc_g", "other"]
MAPS = [None, (), (("f", "/R"),), (("~.*", "/"),), (("f", "X"), ("f/A", "/S")), (("g", "f"), ("~f/~.*", r"Q\g<0>")), (("~.*", ""), ("g", "../W"))]
FUNCS = [("f", ("A",), ("B",)), ("f", ("A", "A.B"), None), ("g", ("A.B",), ("A",)), ("h", (), ("A", "B")), ("cfunc_g", ("A",), ("A.B",)), ("f", ("C",), ("A",))]
SIZES = [5, 8, 9, 10, 11, 16, 17, 33]
BOUNDS = {
    "quick": "components of up to 33 (siblings & nested) references and rules, built as often, and assemblies of as many; every component of 3 names with up to 2 references (or none, or not at all) through each accessor x every mapping rule out of %i; ordered pairs of "
    "rules on 2 components; all %i combinations of component-names & accessor-paths given or not, under every mapping; every sequence of up to 3 builds over %i mappings, with calls in between; assemblies of up to 3 components out of "
    "%i in any order, nested, sharing components, built up to twice" % (len(rules()), len(GIVEN) ** 3, len(MAPS), len(FUNCS)),
    "thorough": "pairs of rules on all functions; sequences of 4 builds; assemblies built three times",
}


def cases(tier):
    q = tier == "quick"
    for name in NAMES:
        for i, o in itt.product(REFS, repeat=2):
            for r in rules():
                yield ("one", (name, i, o), (r,))
    for rs in itt.product(rules(), repeat=2):
        for f in (FUNCS[0], FUNCS[2]) if q else FUNCS:
            yield ("one", f, rs)
    for name, i, o in itt.product(NAMES, REFS[:5], REFS[:5]):
        for opts in itt.product(GIVEN, GIVEN, GIVEN):
            for m in range(len(MAPS)):
                yield ("opt", (name, i, o), opts + (m,))
    for f in FUNCS:
        for n in range(1, (3 if q else 4) + 1):
            for ms in itt.product(range(len(MAPS)), repeat=n):
                yield ("seq", f, ms)
    for n in range(4):
        for fs in itt.product(range(len(FUNCS)), repeat=n):
            for ms in itt.product(range(len(MAPS)), repeat=1 if n == 3 and q else 2 if q else 3):
                yield ("asm", fs, ms)
    for n in SIZES:
        flat = tuple("A%i" % i for i in range(n))
        deep = tuple(".".join(flat[: i + 1]) for i in range(n))
        many = [((f, "R"),) for f in ("f/A0", "~f")] + [tuple(("f/A%i" % i, "X%i" % i) for i in range(n)), tuple(("f/~A%i.*" % i, "/Q%i" % i) for i in range(n))]
        many += [tuple(("f/" + "/".join(flat[: i + 1]), "D%i" % i) for i in range(n)), (("~.*", "/"),)]
        for m in many:
            for i, o in itt.permutations([flat, deep, flat[::-1], deep[-1:], flat + deep, (), None], 2):
                yield ("one", ("f", i, o), m)
        for ms in itt.product(range(len(MAPS)), repeat=2):
            for f in FUNCS[:3]:
                yield ("seq", f, ms * (n // 2))
        for ms in [(), (1,), (5,), (2, 4)]:
            yield ("asm", tuple(i % len(FUNCS) for i in range(n)), ms)
            yield ("asm", (0,) * n, ms)
            yield ("many", n, ms)


def touch(p, refs):
    for r in refs:
        x = p
        for s in r.split("."):
            x = getattr(x, s)


def cfunc_for(spec, calls):
    name, i, o = spec

    def cfunc(comp, vtree):
        calls.append(vtree)
        if i is not None:
            touch(comp.pinp(), i)
            comp.pinp()
        if o is not None:
            touch(comp.pout(), o)
        vtree["some"] = vtree["more"]

    cfunc.__name__ = name
    return cfunc


def ref_paths(name, refs, maps, explicit=False):
    if refs is None:
        return []
    if name.startswith("cfunc_") and not explicit:
        name = name[6:]
    leaves = [r for r in refs if not any(o.startswith(r + ".") for o in refs)]
    plain = ["/".join([name] + r.split(".")) for r in leaves] or [name]
    if not maps:
        return sorted(set(plain))
    root = refmap.build(maps)
    return sorted({refmap.map_path(root, p) for p in plain})


def pm(maps):
    return None if maps is None else pmods_from_tuples(list(maps))


class VTree(dict):
    def __missing__(self, key):
        return 0


def built(ck, comp, spec, maps, calls, what):
    del calls[:]
    pmods = pm(maps)
    before = repr(pmods)
    comp._build(pmods)
    ck.step()
    name, i, o = spec
    ei, eo = ref_paths(name, i, maps), ref_paths(name, o, maps)
    ck.state((spec, maps, ei, eo))
    ck.check(sorted(comp._inp) == ei, "inputs", "%s %r built with %r has inputs %r, expected %r", what, spec, maps, comp._inp, ei)
    ck.check(sorted(comp._out) == eo, "outputs", "%s %r built with %r has outputs %r, expected %r", what, spec, maps, comp._out, eo)
    ck.check(repr(pmods) == before, "mappings", "building %r changed the mappings %s to %r", spec, before, pmods)
    ck.check(len(calls) == 1, "invoked", "building %r invoked its function %i times", spec, len(calls))
    return ei, eo


def run_opt(ck, spec, name, inp, out, m):
    """With a given component-name, and given paths for the accessors (honoured by their first call)."""
    fname, i, o = spec
    maps, calls = MAPS[m], []

    def cfunc(comp, *args, **kwds):
        calls.append((comp, args, kwds))
        if i is not None:
            p = comp.pinp() if inp is None else comp.pinp(inp)
            touch(p, i)
            ck.check(comp.pinp("later") is p and comp.pinp() is p, "accessor", "asking again for the inputs gave another path-object")
        if o is not None:
            p = comp.pout() if out is None else comp.pout(path=out)
            touch(p, o)
            ck.check(comp.pout("later") is p and comp.pout() is p, "accessor", "asking again for the outputs gave another path-object")

    cfunc.__name__ = fname
    comp = FuncComponent(cfunc) if name is None else FuncComponent(cfunc, name=name)

    def expected(refs, path):
        if path is not None:
            return ref_paths(path, refs, maps, True)
        return ref_paths(fname, refs, maps) if name is None else ref_paths(name, refs, maps, True)

    for _ in range(2):
        comp._build(pm(maps))
        ck.step()
        ei, eo = expected(i, inp), expected(o, out)
        what = "component %r named %r, with paths %r, %r, built with %r" % (spec, name, inp, out, maps)
        ck.check(sorted(comp._inp) == ei, "inputs", "%s has inputs %r, expected %r", what, comp._inp, ei)
        ck.check(sorted(comp._out) == eo, "outputs", "%s has outputs %r, expected %r", what, comp._out, eo)
        ck.state((spec, name, inp, out, maps, ei, eo))
    vt = VTree()
    comp(vt, 1, k=2)
    ck.check(calls[-1][0] is comp and calls[-1][1][:1] == (vt,) and calls[-1][1][1:] == (1,) and calls[-1][2] == {"k": 2}, "run", "running %s passed %r", what, calls[-1])


def run_case(ck, case):
    kind, arg, ms = case
    if kind == "one":
        calls = []
        comp = FuncComponent(cfunc_for(arg, calls))
        built(ck, comp, arg, ms, calls, "component")
    elif kind == "opt":
        run_opt(ck, arg, *ms)
    elif kind == "seq":
        calls = []
        comp = FuncComponent(cfunc_for(arg, calls))
        for k, m in enumerate(ms):
            ei, eo = built(ck, comp, arg, MAPS[m], calls, "build #%i of" % k)
            # What the accessors say outside of the function, and running it, change nothing.
            if arg[1] is not None:
                ck.check(comp.pinp()._paths() == ei, "accessor", "%r says inputs %r, expected %r", arg, comp.pinp()._paths(), ei)
            if arg[2] is not None:
                ck.check(comp.pout()._paths() == eo, "accessor", "%r says outputs %r, expected %r", arg, comp.pout()._paths(), eo)
            vt = VTree()
            comp(vt)
            ck.check(vt == {"some": 0} and calls[-1] is vt, "run", "running %r did not pass the tree", arg)
            ck.check(sorted(comp._inp) == ei and sorted(comp._out) == eo, "run-changed", "running %r changed its paths", arg)
    else:
        calls = []
        specs = [FUNCS[i] for i in arg] if kind == "asm" else [("f%i" % i, ("A%i" % (i % 7), "B.C%i" % i), ("A.D%i" % i,)) for i in range(arg)]
        comps = [FuncComponent(cfunc_for(s, calls)) for s in specs]
        asm = Assembly(iter(comps))
        other = Assembly(comps[::-1], name="other")
        nested = Assembly([other, asm], name="nested")
        for m in ms:
            maps = MAPS[m]
            inp = sorted({p for n, i, o in specs for p in ref_paths(n, i, maps)})
            out = sorted({p for n, i, o in specs for p in ref_paths(n, o, maps)})
            ck.state((arg, maps, inp, out))
            for a in (asm, other, nested):
                a._build(pm(maps))
                ck.step()
                ck.check(a._inp == inp, "asm-inputs", "assembly of %r built with %r has inputs %r, expected %r", specs, maps, a._inp, inp)
                ck.check(a._out == out, "asm-outputs", "assembly of %r built with %r has outputs %r, expected %r", specs, maps, a._out, out)
            for c, (n, i, o) in zip(comps, specs):
                ck.check(sorted(c._inp) == ref_paths(n, i, maps) and sorted(c._out) == ref_paths(n, o, maps), "asm-component",
                         "component %r within an assembly has %r, %r", (n, i, o), c._inp, c._out)
