"""M01: joining path steps == resolving them left to right (reference model below)."""
import itertools as itt

from pandalone import mappings
from pandalone.mappings import Pstep

PID = "M01"
NAMES = ["", ".", "..", "a", "b", "...", ".a", "a.", "..b", " ", "~", "10", "A", "-"]
CORE = ["", ".", "..", "a", "b"]
SIZES = [8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 101]
BOUNDS = {
    "quick": "all step sequences over %r up to length 7, over %r up to length 4, "
    "and as chains of renamed path-objects up to length 4; 22 shapes of %s steps (descending, climbing, both, resets, dots)" % (CORE, NAMES, SIZES),
    "thorough": "same alphabets up to length 9 / 5 / 5",
}


def ref_resolve(steps):
    absolute, out = False, []
    for s in steps:
        if s == "":
            absolute, out = True, []
        elif s == ".":
            pass
        elif s == "..":
            if out and out[-1] != "..":
                out.pop()
            elif not absolute:
                out.append("..")
        else:
            out.append(s)
    return absolute, out


def ref_join(steps):
    absolute, out = ref_resolve(steps)
    if absolute:
        return "/".join([""] + out)
    return "/".join(out) if out else "."


def cases(tier):
    n1, n2, n3 = (7, 4, 4) if tier == "quick" else (9, 5, 5)
    for n in range(n1 + 1):
        for steps in itt.product(CORE, repeat=n):
            yield ("join", steps)
    for n in range(1, n2 + 1):
        for steps in itt.product(NAMES, repeat=n):
            if any(s not in CORE for s in steps):
                yield ("join", steps)
    for n in range(1, n3 + 1):
        for steps in itt.product(CORE, repeat=n):
            yield ("pstep", steps)
    # Long ones: deep climbing and descending.
    for up in range(0, 13):
        for down in range(0, 13):
            for head in ((), ("",), ("..",), (".",)):
                yield ("join", head + ("n",) * down + ("..",) * up + ("z",))
                yield ("join", head + ("..",) * up + ("n",) * down)
    for n in SIZES:
        for kind in ("join", "pstep"):
            for head in ((), ("",), ("..",), (".", "a")):
                up = ("..",) * n
                names = tuple("n%i" % i for i in range(n))
                yield (kind, head + names)
                yield (kind, head + names + up)
                yield (kind, head + up + names)
                yield (kind, head + names + up[1:] + ("z",))
                yield (kind, head + names + up + ("..", "z"))
                yield (kind, head + ("a", ".") * n)
                yield (kind, head + ("a", "..") * n)
                yield (kind, head + ("a", "b", "..") * n)
                yield (kind, head + names + ("",) + names[::-1])
                for i in sorted({0, 1, n // 2, n - 1}):
                    for s in ("", ".", ".."):
                        yield (kind, head + names[:i] + (s,) + names[i:])
                yield (kind, head + ("x" * n, "..", "y" * n))


def run_case(ck, case):
    kind, steps = case
    exp = ref_join(steps)
    ck.state(exp)
    if kind == "join":
        got = mappings._join_paths(*steps)
        ck.step()
        ck.check(got == exp, "join", "join%r gave %r, expected %r", steps, got, exp)
        # Stability: splitting the result and re-joining it changes nothing.
        again = mappings._join_paths(*got.split("/"))
        ck.step()
        ck.check(again == got, "stable", "re-joining %r gave %r", got, again)
        ck.check(
            got.startswith("/") or got == "" if "" in steps else not got.startswith("/"),
            "absolute", "join%r gave %r", steps, got,
        )
    else:
        # The same steps as a chain of path-objects carrying them as names.
        root = Pstep(steps[0])
        p = root
        for i, s in enumerate(steps[1:]):
            setattr(p, "s%i" % i, s)
            p = getattr(p, "s%i" % i)
            ck.step(2)
        got = root._paths()
        ck.step()
        ck.check(got == [exp], "pstep", "chain %r gave %r, expected %r", steps, got, [exp])
