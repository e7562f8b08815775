"""M05: path-object trees against a reference tree, over operation sequences."""
import itertools as itt

from pandalone.mappings import Pstep

from .. import lib, refmap

PID = "M05"
SPOTS = ["a", "b", "a.b", "a.b.c"]
NAMES = ["X", "Y/Z", "/R", "", "=", "/T/"]  # '=': its original name
OPS = (
    [("ref", s) for s in SPOTS]
    + [("set", s, n) for s in SPOTS for n in NAMES]
    + [(k, s) for s in ["", "a", "a.b"] for k in ("tag t", "tag u", "untag t", "lock", "fix", "unlock")]
    + [("tag t u", "b"), ("tag u t", "a"), ("tag t u", "a.b"), ("tag", "a"), ("tag t", "a.b.c"), ("tag tt t1 u t", "a"), ("tag v w u tt", "a.b"), ("tag u v tt t", "a"), ("lock2", "a"), ("bad", "a"), ("bad", "a.b")]
)
FEW = [
    ("ref", "a.b.c"), ("set", "a", "X"), ("set", "a", "Y/Z"), ("set", "a", ""), ("set", "a.b", "Q"), ("set", "a", "="),
    ("tag t", "a"), ("tag t", "a.b"), ("untag t", "a"), ("tag u", "b"), ("lock", "a"), ("fix", "a"), ("unlock", "a"), ("lock", "a.b"),
]
SIZES = [5, 8, 9, 10, 11, 16, 17, 20, 32, 33]
BOUNDS = {
    "quick": "all sequences of 3 operations out of %i and of 4 out of %i; breadth-first with canonical reference states to depth 5 over the latter; 47 histories on each of %s siblings, levels, and repetitions; renamed and grafted copies of steps x every operation on either" % (len(OPS), len(FEW), SIZES),
    "thorough": "all sequences of 3 operations out of %i and of 5 out of %i; breadth-first to depth 7" % (len(OPS), len(FEW)),
}


class Ref(object):
    """The reference tree."""

    def __init__(self, orig):
        self.orig = self.name = orig
        self.tags, self.lock, self.kids = set(), 3, {}

    def get(self, spot):
        n = self
        for s in spot.split(".") if spot else ():
            n = n.kids.setdefault(s, Ref(s))
        return n

    def allows(self, lock, name):
        if name == self.orig or lock >= 3:
            return True
        return lock >= 1 and "/" not in name

    def walk(self, prefix=()):
        path = prefix + (self,)
        yield path
        for k in self.kids.values():
            for p in k.walk(path):
                yield p

    def canon(self):
        return (
            self.orig, self.name, tuple(sorted(self.tags)), self.lock,
            tuple(k.canon() for _, k in sorted(self.kids.items())),
        )

    def observe(self):
        leafs, tagged, origs = set(), {"t": set(), "u": set()}, set()
        pairs = []
        for path in self.walk():
            end = path[-1]
            joined = refmap.resolve([s for n in path for s in (n.name[:-1] if len(n.name) > 1 and n.name.endswith("/") else n.name).split("/")])
            if not end.kids:
                leafs.add(joined)
                origs.add(refmap.resolve(
                    ["(%s-->%s)" % (n.orig, n.name) if n.name != n.orig else n.name for n in path]))
            for t in tagged:
                if t in end.tags:
                    tagged[t].add(joined)
            pairs.append((refmap.resolve([n.orig for n in path]), end.name))
        return (
            sorted(leafs), sorted(tagged["t"]), sorted(tagged["u"]), sorted(origs),
            sorted(pairs),
            [(p[-1].name, p[-1].lock, sorted(p[-1].tags)) for p in self.walk()],
        )


def nodes_of(p):
    yield p
    for c in p._steps():
        for n in nodes_of(c):
            yield n


def observe(p):
    return (
        p._paths(), p._paths(tag="t"), p._paths(tag="u"), p._paths(with_orig=True),
        p._derrive_map_tuples(),
        [(str(n), n._locked, sorted(n._tags)) for n in nodes_of(p)],
    )


def spot_of(p, spot):
    for s in spot.split(".") if spot else ():
        p = getattr(p, s)
    return p


def apply_ref(root, op):
    """Apply on the reference; returns whether the operation must be refused."""
    kind, spot = op[:2]
    if kind in ("set", "bad"):
        head, _, last = spot.rpartition(".")
        parent = root.get(head)
        if kind == "bad":
            return "AssertionError"
        name = last if op[2] == "=" else op[2]
        node = parent.kids.get(last)
        if node is None:
            node = parent.kids[last] = Ref(last)
        if not node.allows(node.lock, name):
            return "ValueError"
        node.name = name
        return None
    node = root.get(spot)
    if kind.startswith("tag"):
        node.tags |= set(kind.split()[1:])
    elif kind == "untag t":
        node.tags.discard("t")
    elif kind != "ref":
        lock = {"lock": 0, "fix": 1, "unlock": 3, "lock2": 2}[kind]
        if not node.allows(lock, node.name):
            return "ValueError"
        node.lock = lock
    return None


def apply_impl(p, op):
    kind, spot = op[:2]
    if kind in ("set", "bad"):
        head, _, last = spot.rpartition(".")
        parent = spot_of(p, head)
        setattr(parent, last, 12 if kind == "bad" else (last if op[2] == "=" else op[2]))
        return
    node = spot_of(p, spot)
    res = node
    if kind.startswith("tag"):
        res = node._tag(*kind.split()[1:])
    elif kind == "untag t":
        res = node._tag_remove("t")
    elif kind == "lock":
        res = node._lock
    elif kind == "fix":
        res = node._fix
    elif kind == "unlock":
        node._locked = Pstep.CAN_RELOCATE
    elif kind == "lock2":
        node._locked = 2
    if res is not node:
        raise AssertionError("chaining gave %r instead of %r" % (res, node))


def check_state(ck, p, ref, op):
    got, exp = observe(p), ref.observe()
    what = ("paths", "tag-t", "tag-u", "with-orig", "pairs", "nodes")
    for w, g, e in zip(what, got, exp):
        if not ck.check(g == e, w, "after %r %s gave %r, expected %r", op, w, g, e):
            return False
    return True


def run_ops(ck, ops, check_all=True):
    p, ref = Pstep(), Ref("")
    for i, op in enumerate(ops):
        refused = apply_ref(ref, op)
        st, ex = lib.outcome(apply_impl, p, op)
        ck.step()
        got = None if st == "ok" else type(ex).__name__
        if not ck.check(got == refused, "refusal", "%r gave %r, expected %s", op, ex, refused or "acceptance"):
            return None
        if (check_all or i == len(ops) - 1) and not check_state(ck, p, ref, op):
            return None
    # Private names and those searched by pandas are no steps; the steps get listed.
    for n in list(nodes_of(p)):
        for name in ("_none", "__none__", "get_values", "Series"):
            ck.check(getattr(n, name, None) is None, "private", "referencing %s.%s gave something", n, name)
        listed = set(dir(n)) - set(dir(Pstep()))
        ck.check(listed == set(vars(n)["_csteps"] or ()), "dir", "the listed steps of %r are %r", n, listed)
    if not check_state(ck, p, ref, "private references"):
        return None
    # References are stable: asking again gives the same objects.
    for s in ("a", "a.b"):
        ck.check(spot_of(p, s) is spot_of(p, s), "identity", "%s re-created when referenced", s)
    return ref




def big(n):
    """Long histories, on many siblings, deep ones, and a single step."""
    kids = ["k%i" % i for i in range(n)]
    deep = [".".join(kids[: i + 1]) for i in range(n)]
    under = ["a." + k for k in kids]
    for spots in (kids, deep, under):
        for order in (spots, spots[::-1]):
            yield tuple(("ref", s) for s in order)
            yield tuple(("set", s, "N%i" % i) for i, s in enumerate(order))
            yield tuple(("set", s, ("X", "Y/Z", "/R", "", "..", "=")[i % 6]) for i, s in enumerate(order))
            yield tuple(("tag t", s) for s in order) + tuple(("untag t", s) for s in order[: n // 2])
            for lock in ("lock", "fix"):
                yield tuple((lock, s) for s in order) + tuple(("set", s, "Q") for s in order) + tuple(("unlock", s) for s in order) + tuple(("set", s, "U/V") for s in order)
            yield tuple(op for s in order for op in (("set", s, "W"), ("tag u", s), ("fix", s), ("set", s, "P/Q"), ("set", s, "T")))
    for rep in ([("set", "a", "X"), ("set", "a", "=")], [("tag t", "a"), ("untag t", "a")], [("lock", "a"), ("set", "a", "X"), ("unlock", "a"), ("set", "a", "Y/Z")], [("set", "a", "X"), ("ref", "a.b"), ("set", "a.b", "Y/Z"), ("set", "a", "V")]):
        yield tuple(rep * n)
    yield tuple(("set", "a", "x" * i) for i in range(1, 9 * n, 9)) + (("set", "a.b", "/".join(["y"] * n)),)


COPY_TAGS = [(), ("t",), ("t", "u"), ("t", "u", "v"), ("u",)]
COPY_KIDS = [(), ("x",), ("x", "y")]
COPY_OPS = ["tag t", "tag w", "tag w z", "untag t", "untag u", "kid x", "kid z", "name x", "lock", "kid x.q", "none"]


def own(n):
    """What belongs to a node itself: its tags, lock, and which children it has, by which names."""
    return sorted(n._tags), n._locked, sorted((k, str(c)) for k, c in (vars(n)["_csteps"] or {}).items())


def run_copy(ck, how, tags, kids, op, side):
    """Renaming or grafting a step copies it: its earlier reference and the new one are then independent."""
    p = Pstep("r")
    old = p.a
    if tags:
        old._tag(*tags)
    for k in kids:
        getattr(old, k)
    if how == "rename":
        p.a = "N"
        new = p.a
    else:
        p.b = old
        new = p.b
    before = own(old)
    for node in (p, old, new):
        keys, steps = sorted(node._steps(keys=True)), list(node._steps())
        want = sorted(["a"] if how == "rename" else "ab") if node is p else sorted(kids)
        ck.check(keys == want and len(steps) == len(keys), "listed", "after %s, %r has steps %r with keys %r, not %r", how, node, steps, keys, want)
    ck.check(own(new) == before, "copied", "%s of %r is %r", how, before, own(new))
    mine, other = (old, new) if side == "old" else (new, old)
    untouched = own(other)
    kind, _, arg = op.partition(" ")
    if kind == "tag":
        mine._tag(*arg.split())
    elif kind == "untag":
        mine._tag_remove(arg)
    elif kind == "kid":
        spot_of(mine, arg)
    elif kind == "name":
        setattr(mine, arg, "Q")
    elif kind == "lock" and mine is old:
        mine._lock
    ck.step()
    ck.check(own(other) == untouched, "independent", "%s with %r, then %s on the %s one: the other is %r", how, untouched, op, side, own(other))
    ck.state(("copy", how, tags, kids, op, side))


def run_tags(ck, n):
    """Many tags at once, one by one, and when making the step."""
    tags = ["t%i" % i for i in range(n)]
    one = Pstep("r")
    for t in tags:
        one._tag(t)
    more = Pstep("r")._tag("x")._tag(*tags)._tag_remove("x")
    for how, p in (("at once", Pstep("r")._tag(*tags)), ("one by one", one), ("more", more), ("new", Pstep("r", None, None, *tags))):
        ck.step()
        ck.state(("tags", n, how))
        ck.check(sorted(p._tags) == sorted(tags), "many-tags", "%i tags given %s are %r", n, how, p._tags)
        for i in {0, n // 2, n - 1}:
            ck.check(p._paths(tag=tags[i]) == ["r"], "many-tags", "paths tagged %r are %r", tags[i], p._paths(tag=tags[i]))
            p._tag_remove(tags[i])
            ck.check(p._paths(tag=tags[i]) == [] and tags[i] not in p._tags, "many-tags", "paths once tagged %r are %r", tags[i], p._paths(tag=tags[i]))
        ck.check(len(p._tags) == n - len({0, n // 2, n - 1}), "many-tags", "%i tags minus some given %s are %r", n, how, p._tags)


def run_new(ck, name, alias, tags):
    """Making a step with a name & tags at once."""
    ck.step()
    p = Pstep(name, None, alias, *tags)
    want = name if alias is None else alias
    ck.state(("new", name, alias, tags))
    ck.check((str(p), p._orig, sorted(p._tags), p._locked) == (want, name, sorted(tags), Pstep.CAN_RELOCATE), "new", "Pstep%r is %r", (name, None, alias) + tags, p)
    p.c._tag("c")
    got = [p._paths(tag=t) for t in ("t", "u", "c")]
    exp = [[want] if t in tags else [] for t in "tu"] + [[want + "/c"]]
    ck.check(got == exp, "new-tags", "Pstep%r has tagged paths %r", (name, None, alias) + tags, got)


def run_case(ck, case):
    if case[:1] == ("copy",):
        return run_copy(ck, *case[1:])
    if case[:1] == ("new",):
        return run_new(ck, *case[1:])
    if case[:1] == ("tags",):
        return run_tags(ck, case[1])
    ref = run_ops(ck, case)
    if ref:
        ck.state(ref.canon())


def bfs(ck, depth):
    """Breadth-first over canonical reference states, from non-initial states too."""
    seen = {Ref("").canon(): ()}
    frontier = [()]
    for d in range(depth):
        nxt = []
        for hist in frontier:
            for op in FEW:
                h = hist + (op,)
                ref = Ref("")
                for o in h:
                    apply_ref(ref, o)
                c = ref.canon()
                ck.begin(h)
                if run_ops(ck, h, check_all=False) is None:
                    if ck.vcount > 50:
                        return
                ck.traces += 1
                if c not in seen:
                    seen[c] = h
                    ck.state(c)
                    nxt.append(h)
        frontier = nxt
    ck.extra["bfs_states"] = len(seen)


def cases(tier):
    for case in itt.product(["rename", "graft"], COPY_TAGS, COPY_KIDS, COPY_OPS, ["old", "new"]):
        yield ("copy",) + case
    for case in itt.product(["a", "b"], [None, "X", "Y/Z", "a"], [(), ("t",), ("t", "u"), ("u",)]):
        yield ("new",) + case
    for n in range(1, 41):
        yield ("tags", n)
    n1, n2 = (3, 4) if tier == "quick" else (3, 5)
    for n in range(n1 + 1):
        for ops in itt.product(OPS, repeat=n):
            yield ops
    for ops in itt.product(FEW, repeat=n2):
        yield ops
    for n in SIZES:
        for ops in big(n):
            yield ops


def explore(ck):
    import sys

    mod = sys.modules[__name__]
    lib.run_sharded(mod, ck)
    if not ck.vcount:
        bfs(ck, 5 if ck.quick else 7)
