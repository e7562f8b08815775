"""X13: histories of plugin initialisations, some plugins failing, over really packaged entry-points."""
import atexit
import itertools as itt
import logging
import os
import shutil
import sys
import tempfile

import pkg_resources
from pandalone import xleash
from pandalone.xleash import ABCSheet, ArraySheet, SheetsFactory, lasso
from pandalone.xleash.io.backend import ABCBackend

from .. import lib

PID = "X13"
DO = ["ok", "partial", "noinstall", "noattr", "badload", "passive"]
DO3 = ["ok", "partial", "badload"]
BOUNDS = {
    "quick": "1 plugin x every 3 initialisations, 2 plugins x every 2, 3 plugins x 1, each behaving as one of %s in each; 3 plugins x 2 initialisations as one of %s; plugins missing their module or "
    "extras among them; 8 to 33 plugins with one misbehaving; plugins of the same name from 2 distributions; no plugins; up to 3 initialisations of those shipped, before and after others, and with the shipped backend and filters unregistered" % (DO, DO3),
    "thorough": "as quick, with 1 plugin x 4 initialisations, 2 plugins x 3, 3 plugins x 2 of all behaviours",
}
PANDAS = ["df", "sr"]  # The filters of the plugin shipped.
#: How many backends of others are registered when initialising, and whether the shipped one still is.
SOME = [(0, False), (1, False), (2, False), (1, True), (0, True)]
GROUP = "vp.xleash.plugins"


def cases(tier):
    deep = tier != "quick"
    for n, inits, acts in [(1, 3 + deep, DO), (2, 2 + deep, DO), (3, 1 + deep, DO), (3, 2, DO3)]:
        rounds = list(itt.product(acts, repeat=n))
        for hist in itt.product(rounds, repeat=inits):
            yield ("hist", n, hist)
    for acts in itt.product(DO, repeat=2):
        for again in (1, 2):
            yield ("missing", acts, again)
    for n in range(4):
        for m in range(3):
            yield ("shipped", n, m)
        for m in range(len(SOME)):
            yield ("again", n, m)
    for acts in itt.product(DO, repeat=2):
        for inits in (1, 2):
            yield ("clash", acts, inits)
    yield ("none",)
    for size in SIZES:
        for act in DO:
            for pos in sorted({0, 1, size // 2, size - 1}):
                yield ("many", size, act, pos)
        yield ("many", size, "all", 0)


class Script(object):
    """What the plugin module consults."""

    acts, trace = {}, []


def attribute(name):
    """The attribute of the plugin module: its installer."""
    act = Script.acts.get(name)
    Script.trace.append(("load", name))
    if act == "noattr":
        raise AttributeError(name)
    if act == "badload":
        raise RuntimeError("%s failed loading" % name)
    if act == "passive":
        return "not callable"

    def install():
        Script.trace.append(("install", name))
        if act == "noinstall":
            raise RuntimeError("%s failed installing" % name)
        xleash.installed_filters[name] = {"func": lambda ranger, lasso: lasso._replace(values=[name, lasso.values])}
        if act == "partial":
            raise RuntimeError("%s failed installing" % name)
        if not any(isinstance(be, Backend) and be.name == name for be in xleash.io_backends):
            xleash.io_backends.append(Backend(name))

    return install


class Backend(ABCBackend):
    def __init__(self, name):
        self.name = name

    def bid(self, wb_url):
        return 1000 if wb_url and wb_url.endswith("/%s.wb" % self.name) else None

    def open_sheet(self, wb_url, sheet_id):
        return ArraySheet([[self.name]])

    def list_sheetnames(self, wb_url):
        return [self.name]


NAMES = ["vp_b", "vp_a", "vp_c"]
MANY = ["vp_m%02i" % (i * 7 % 33) for i in range(33)]
SIZES = [8, 9, 10, 11, 16, 17, 33]


def package():
    """Really package the plugins, in a scratch folder."""
    d = tempfile.mkdtemp(prefix="vp-x13-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    with open(os.path.join(d, "vp_plug_mod.py"), "w") as f:
        f.write("def __getattr__(name):\n    if not name.startswith('vp_'):\n        raise AttributeError(name)\n    from mc.checks import x13\n    return x13.attribute(name)\n")
    info = os.path.join(d, "vp_plug-1.0.dist-info")
    os.mkdir(info)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: vp-plug\nVersion: 1.0\nProvides-Extra: xx\nRequires-Dist: vp-no-such-dist ; extra == 'xx'\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        for n in (1, 2, 3):
            f.write("[%s.%i]\n" % (GROUP, n))
            for name in NAMES[:n]:
                f.write("%s = vp_plug_mod:%s\n" % (name, name))
        for n in SIZES:
            f.write("[%s.many%i]\n" % (GROUP, n))
            for name in MANY[:n]:
                f.write("%s = vp_plug_mod:%s\n" % (name, name))
        f.write("[%s.clash]\nsame = vp_plug_mod:vp_b\n" % GROUP)
        f.write("[%s.missing]\n" % GROUP)
        f.write("vp_0 = vp_no_such_mod:foo\nvp_1 = vp_plug_mod:vp_b\nvp_2 = vp_plug_mod:vp_zz [xx]\nvp_3 = vp_plug_mod:vp_a\nvp_4 = vp_no_such_mod\n")
    other = os.path.join(d, "vp_other-1.0.dist-info")  # A distribution with a plugin of the same name.
    os.mkdir(other)
    with open(os.path.join(other, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: vp-other\nVersion: 1.0\n")
    with open(os.path.join(other, "entry_points.txt"), "w") as f:
        f.write("[%s.clash]\nsame = vp_plug_mod:vp_a\n" % GROUP)
    sys.path.insert(0, d)
    for dist in pkg_resources.find_distributions(d):
        pkg_resources.working_set.add(dist, entry=d)


package()


class Logged(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.texts = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.texts.append(record.getMessage())


def init(*args):
    """Initialise; the outcome, and what was logged."""
    logger, handler = logging.getLogger("pandalone"), Logged()
    prop, level, dis = logger.propagate, logger.level, logging.root.manager.disable
    logger.addHandler(handler)
    logger.propagate = False
    logger.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET)
    try:
        return lib.outcome(xleash._init_plugins, *args), handler.texts
    finally:
        logger.removeHandler(handler)
        logger.propagate = prop
        logger.setLevel(level)
        logging.disable(dis)


def stage(name):
    """The stages completed by a plugin, if recorded."""
    recs = getattr(xleash, "_plugins_installed", None)
    if not isinstance(recs, dict):
        return None
    found = [v for k, v in recs.items() if name in str(k)]
    return found or None


STAGES = {"ok": 2, "partial": 1, "noinstall": 1, "noattr": 0, "badload": 0, "passive": 1}


def registered(ck, filters, backends, names, what):
    ck.check(set(n for n in names if n in xleash.installed_filters) == filters, "filters", "%s: filters registered: %r, not %r", what, sorted(xleash.installed_filters), filters)
    got = sorted(be.name for be in xleash.io_backends if isinstance(be, Backend))
    ck.check(got == sorted(backends), "backends", "%s: backends registered: %r, not %r", what, got, backends)
    for n in names:
        ck.step(2)
        res = lib.outcome(lasso, '#A1:A1:"%s"' % n, sheet=ArraySheet([[3]]))
        if n in filters:
            ck.check(res == ("ok", [n, [[3]]]), "lookup", "%s: filter %r gave %r", what, n, res)
        else:
            ck.check(res[0] == "ex" and isinstance(res[1], ValueError), "lookup", "%s: filter %r gave %r", what, n, res)
        with SheetsFactory() as sf:
            res = lib.outcome(sf.list_sheetnames, "http://h/%s.wb" % n)
        if n in backends:
            ck.check(res == ("ok", [n]), "lookup", "%s: backend %r gave %r", what, n, res)
        else:
            ck.check(res[0] == "ex", "lookup", "%s: backend %r gave %r", what, n, res)


def shipped_state():
    return [type(be).__name__ for be in xleash.io_backends], dict(xleash.installed_filters)


def run_case(ck, case):
    filters0, backends0 = dict(xleash.installed_filters), list(xleash.io_backends)
    stages = getattr(xleash, "_plugins_installed", None)
    stages0 = dict(stages) if isinstance(stages, dict) else None
    try:
        _run_case(ck, case)
    finally:
        xleash.installed_filters.clear()
        xleash.installed_filters.update(filters0)
        xleash.io_backends[:] = backends0
        if stages0 is not None:
            stages.clear()
            stages.update(stages0)


def one_round(ck, group, names, acts, filters, backends, what, failing=()):
    """Initialise once, and judge it. Failing are the names of plugins missing whatever they need."""
    Script.acts = dict(zip(names, acts))
    del Script.trace[:]
    ck.step()
    got, logged = init(group)
    ck.check(got[0] == "ok", "raised", "%s: raised %r", what, got)
    for n, act in zip(names, acts):
        if act in ("ok", "partial"):
            filters.add(n)
        if act == "ok":
            backends.add(n)
    loads = [n for op, n in Script.trace if op == "load"]
    installs = [n for op, n in Script.trace if op == "install"]
    exp = [n for n, a in zip(names, acts) if a in ("ok", "partial", "noinstall")]
    ck.check(set(loads) == set(names), "loads", "%s: loaded %r, not %r", what, loads, names)
    ck.check(sorted(installs) == sorted(exp), "installs", "%s: installed %r, not %r", what, installs, exp)
    ops = [op for op, _ in Script.trace]
    ck.check("load" not in ops[ops.index("install") :] if installs else True, "order", "%s: loaded after installing: %r", what, Script.trace)
    bad = [n for n, a in zip(names, acts) if a not in ("ok", "passive")]
    for n in names:
        hits = sum(n in t for t in logged)
        ck.check((hits >= 1) == (n in bad), "logged", "%s: %r logged for %r", what, logged, n)
    for n in failing:
        ck.check(any(n in t for t in logged), "logged", "%s: nothing logged for %r: %r", what, n, logged)
    registered(ck, filters, backends, names, what)
    return bad


def _run_case(ck, case):
    kind = case[0]
    if kind == "hist":
        _, n, hist = case
        names = NAMES[:n]
        filters, backends = set(), set()
        kept = shipped_state()
        for i, acts in enumerate(hist):
            what = "initialising %r of %r" % (i, case)
            one_round(ck, "%s.%i" % (GROUP, n), names, acts, filters, backends, what)
            ck.state((n, acts, sorted(filters), sorted(backends)))
            for name, act in zip(names, acts):
                st = stage(name)
                ck.check(st is None or st == [STAGES[act]], "stage", "%s: plugin %r recorded %r, not %r", what, name, st, STAGES[act])
        bes, fs = shipped_state()
        ck.check([b for b in bes if b != "Backend"] == kept[0] and all(fs.get(k) is v for k, v in kept[1].items()), "shipped", "%r affected those shipped: %r", case, (bes, fs))
    elif kind == "missing":
        _, acts, again = case
        filters, backends = set(), set()
        for i in range(again):
            one_round(ck, GROUP + ".missing", ["vp_b", "vp_a"], acts, filters, backends, "initialising %r of %r" % (i, case), ["vp_0", "vp_2", "vp_4"])
            ck.state((case, i))
    elif kind == "many":
        _, n, act, pos = case
        filters, backends = set(), set()
        acts = [DO[i % len(DO)] for i in range(n)] if act == "all" else [act if i == pos else "ok" for i in range(n)]
        for i in range(2):
            one_round(ck, "%s.many%i" % (GROUP, n), MANY[:n], acts, filters, backends, "initialising %r of %r" % (i, case))
            ck.state((case, i))
    elif kind == "clash":
        _, acts, inits = case
        filters, backends = set(), set()
        for i in range(inits):
            one_round(ck, GROUP + ".clash", ["vp_b", "vp_a"], acts, filters, backends, "initialising %r of %r" % (i, case))
            ck.state((case, i))
    elif kind == "again":
        # Initialised with whatever backends and filters are registered at that time.
        _, n, m = case
        foreign, keep = SOME[m]
        every, fs = list(xleash.io_backends), dict(xleash.installed_filters)
        mine = [Backend("vp_f%i" % i) for i in range(foreign)]
        xleash.io_backends[:] = mine + ([be for be in every if type(be).__name__ == "XlrdBackend"] if keep else [])
        for k in PANDAS:
            xleash.installed_filters.pop(k, None)
        for i in range(n + 1):
            ck.step()
            ck.check(init()[0][0] == "ok", "raised", "%r: raised", case)
            now = shipped_state()
            ck.state((case, i, now[0]))
            ck.check(sorted(now[0]) == ["Backend"] * foreign + ["XlrdBackend"], "shipped", "%r: backends %r", case, now[0])
            ck.check(set(now[1]) >= set(fs), "shipped", "%r: filters missing: %r", case, sorted(set(fs) - set(now[1])))
            ck.check(all(be in xleash.io_backends for be in mine), "shipped", "%r: backends of others are gone: %r", case, now[0])
    elif kind == "shipped":
        _, n, m = case
        filters, backends = set(), set()
        for i in range(m):
            one_round(ck, GROUP + ".2", NAMES[:2], ("ok", "noattr"), filters, backends, "initialising %r" % (case,))
        before = shipped_state()
        ck.state((case, before[0]))
        ck.check(before[0].count("XlrdBackend") == 1, "shipped", "backends of %r: %r", case, before)
        for i in range(n):
            ck.step()
            got, _ = init()
            ck.check(got[0] == "ok", "raised", "%r: raised %r", case, got)
            now = shipped_state()
            same = sorted(now[0]) == sorted(before[0]) and sorted(now[1]) == sorted(before[1])
            ck.check(same, "shipped", "initialising %i times changed %r --> %r", i + 1, before, now)
        registered(ck, filters, backends, NAMES, "%r" % (case,))
    else:
        ck.step()
        ck.state(case)
        got, _ = init(GROUP + ".nosuch")
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "none", "initialising no plugins gave %r", got)
