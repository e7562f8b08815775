"""Reference model of pmods: rules are kept un-merged, as lists of raw nodes."""
import re


def split(path):
    return [p.replace("~1", "/").replace("~0", "~") for p in path.split("/")]


class Node(object):
    __slots__ = ("alias", "exact", "regx")

    def __init__(self):
        self.alias, self.exact, self.regx = None, {}, []  # regx: [[pattern, Node]]


def build(rules):
    root = Node()
    for f, t in rules:
        if f is None or t is None or (f == "" and t == ""):
            continue
        node = root
        for step in split(f):
            if step.startswith("~"):
                pat = step[1:]
                old = [e for e in node.regx if e[0] == pat]
                child = old[0][1] if old else Node()
                # Mentioning a regex (re-)declares it: it becomes the latest.
                node.regx = [e for e in node.regx if e[0] != pat] + [[pat, child]]
                node = child
            else:
                node = node.exact.setdefault(step, Node())
        node.alias = t
    return root


def _alias(nodes):
    for n in reversed(nodes):
        if n.alias is not None:
            return n.alias
    return None


def descend(nodes, step):
    """(nodes matching `step` -- later ones override --, the alias for it)."""
    order = []
    for n in nodes:
        mine = [p for p, _ in n.regx]
        order = [p for p in order if p not in mine] + mine
    matched, alias = [], None
    for pat in order:
        m = re.fullmatch(pat, step)
        if m:
            nn = [c for n in nodes for p, c in n.regx if p == pat]
            a = _alias(nn)
            if a is not None:
                alias = m.expand(a)
            matched += nn
    exact = [n.exact[step] for n in nodes if step in n.exact]
    a = _alias(exact)
    if a is not None:
        alias = a
    return matched + exact, alias


def map_steps(root, path):
    """[(original step, alias or None)] for every step of `path`."""
    if len(path) > 1 and path.endswith("/"):
        path = path[:-1]
    nodes, out = [root], []
    for step in split(path):
        nodes, alias = descend(nodes, step) if nodes else ([], None)
        out.append((step, alias))
    return out


def resolve(steps):
    absolute, out = False, []
    for s in steps:
        if s == "":
            absolute, out = True, []
        elif s == ".":
            pass
        elif s == "..":
            if out and out[-1] != "..":
                out.pop()
            elif not absolute:
                out.append("..")
        else:
            out.append(s)
    if absolute:
        return "/".join([""] + out)
    return "/".join(out) if out else "."


def map_path(root, path):
    nsteps = []
    for step, alias in map_steps(root, path):
        if alias is None:
            nsteps.append(step)
        else:
            if alias.startswith("."):
                nsteps.append(step)
            if len(alias) > 1 and alias.endswith("/"):
                alias = alias[:-1]
            nsteps += split(alias)
    return resolve(nsteps)
