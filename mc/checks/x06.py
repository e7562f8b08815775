"""X06: sequences of lassos on one ranger, each compared with the same lasso on a fresh one."""
import copy
import itertools as itt

from pandalone import xleash
from pandalone.xleash import ArraySheet, Coords, EmptyCaptureException, Ranger, SheetsFactory, get_default_opts, make_default_Ranger

from .. import lib

PID = "X06"
NOEMPTY = '{"opts": {"no_empty": true}}'
CELLS = [
    ["#B1", 5, '#B2:{"opts": {"lax": true}, "func": "nofilter"}', "#D2(R)"],
    ["#D2(R):" + NOEMPTY, "x y", "#B1:\"boom\"", None],
]
OTHER = [["other"]]
BASES = [None, {}, {"lax": True}, {"no_empty": True, "foo": {"bar": [1]}}, {"verbose": True, "read": {"on_demand": False}, "lax": False}, {"lax": None, "read": None, "no_empty": True}]

# (xl-ref, context); the expected results are given by expect().
REFS = [
    ("#A1:B1", "sheet"),
    ("#B1", "sheet"),
    ('#A1:C1:"recurse"', "sheet"),
    ('#A2:A2:"recurse"', "sheet"),
    ('#C1:C2:"recurse"', "sheet"),
    ('#B1:"nofilter"', "sheet"),
    ('#B1:{"opts": {"lax": true}, "func": "nofilter"}', "sheet"),
    ('#B1:{"opts": {"lax": false}, "func": "nofilter"}', "sheet"),
    ('#B1:["boom", {"lax": true}]', "sheet"),
    ("#D2(R):" + NOEMPTY, "sheet"),
    ('#D2(R):{"opts": {"no_empty": false}}', "sheet"),
    ("#D2(R)", "sheet"),
    ("#B1::", "sheet"),
    ('#B1:{"opts": {"foo": {"qux": 2}, "read": null}}', "sheet"),
    ('#B1:"poke"', "sheet"),
    ('#B1:{"opts": {"foo": {"bar": [3]}}, "func": "poke"}', "sheet"),
    ('#A1:B2:["pipe", ["scribble", "boom"]]', "sheet"),
    ('#A1:B2:["pipe", ["scribble", ["boom", {"lax": true}]]]', "sheet"),
    ('#A1:D1:["each", {"lax": true}]', "sheet"),
    ("#R.C.", "base"),
    ("#R.C.", "sheet"),
    ("other#A1", ""),
    ("wb#sh!B1", ""),
    ("#A1", ""),
    ("nowhere#A1", ""),
    ('#B1:"poke"', "opts"),
]
HOW = ["ranger", "default"]
BOUNDS = {
    "quick": "every sequence of 3 lassos out of %i (with opts, filters, failing at every stage, recursing, writing on the values and opts they got) x %i base opts on a plain ranger, and of 2 on a default one; one of them after up to 65 times another; "
    " plus lasso() closing only its own factory, with every failing stage" % (len(REFS), len(BASES)),
    "thorough": "every sequence of 3 lassos x all base opts x 2 ways, and of 4 lassos x 2 base opts",
}


def poke(ranger, lasso):
    """A filter that (ab)uses its opts."""
    lasso.opts["poked"] = True
    if isinstance(lasso.opts.get("foo"), dict):
        lasso.opts["foo"]["bar"].append("poked")
    if isinstance(lasso.opts.get("read"), dict):
        lasso.opts["read"]["poked"] = 1
    return lasso


def scribble(ranger, lasso):
    lasso.values[0][0] = "SCRIBBLE"
    lasso.values.append(1)
    return lasso


def boom(ranger, lasso):
    raise KeyError("boom")


def each(ranger, lasso):
    """Writes on its values before failing."""
    lasso.values[0] = None
    raise KeyError("each")


def filters():
    res = dict(xleash.installed_filters)
    for f in (poke, scribble, boom, each):
        res[f.__name__] = {"func": f}
    return res


FILTERS = filters()


def cases(tier):
    deep = tier != "quick"
    n = len(REFS)
    for how in HOW:
        for b in range(len(BASES)):
            for first in range(n):
                yield (how, b, (first,), 3 if deep or how == "ranger" else 2)
    for how in HOW:
        for first in range(n):
            for k in (8, 33, 65):
                yield (how, k % len(BASES), (first,) * k, k + 1)
    for b in (2, 3) if deep else ():
        for first in itt.product(range(n), repeat=2):
            yield ("ranger", b, first, 4)
    for b in range(len(BASES)):
        yield ("lasso", b)


def world(how, base):
    sheet = ArraySheet(copy.deepcopy(CELLS))
    sf = SheetsFactory(backends=[Nobody()])
    sf.add_sheet(sheet)
    sf.add_sheet(ArraySheet(copy.deepcopy(OTHER), ids=xleash.io.backend.SheetId("other", ["sh", 0])))
    sf.add_sheet(ArraySheet(copy.deepcopy(OTHER), ids=xleash.io.backend.SheetId("other", ["sh", 0])), None, [None, "sh"])
    make = Ranger if how == "ranger" else make_default_Ranger
    return make(sf, base, FILTERS), sheet


class Nobody(xleash.io.backend.ABCBackend):
    def bid(self, wb_url):
        return None

    def open_sheet(self, wb_url, sheet_id):
        raise AssertionError()

    def list_sheetnames(self, wb_url):
        raise AssertionError()


def context(kind, sheet):
    if kind == "base":
        return {"sheet": sheet, "base_coords": Coords(0, 1)}
    if kind == "opts":
        return {"sheet": sheet, "opts": {"mine": 1}}
    return {"sheet": sheet} if kind == "sheet" else {}


def observe(ck, ranger, sheet, i):
    ref, kind = REFS[i]
    ck.step()
    kwds = context(kind, sheet)
    got = lib.outcome(ranger.do_lasso, ref, **kwds)
    if got[0] == "ok":
        l = got[1]
        res = ("ok", repr(l.values), repr(sorted(dict(l.opts).items())), l.st, l.nd, l.call_spec, l.xl_ref, l.sh_name, l.base_coords)
        # Whoever gets results may write on them.
        if isinstance(l.values, list) and l.values:
            l.values[:] = ["MINE"]
        l.opts["mine"] = 1
        if isinstance(l.opts.get("foo"), dict):
            l.opts["foo"]["mine"] = 1
        return res, l
    return ("ex", type(got[1]).__name__, str(got[1])), got[1]


def effective(how, base, ref):
    opts = dict(base or {})
    if how != "ranger":
        opts = dict(get_default_opts(), **opts)
    if '"lax": true}, "func"' in ref:
        opts["lax"] = True
    if '"lax": false}' in ref:
        opts["lax"] = False
    if '"no_empty"' in ref:
        opts["no_empty"] = '"no_empty": true' in ref
    if '"qux"' in ref:
        opts.update(foo={"qux": 2}, read=None)
    if "[3]" in ref:
        opts["foo"] = {"bar": [3]}
    if '"poke"' in ref:
        opts = copy.deepcopy(opts)
        opts["poked"] = True
        if opts.get("foo"):
            opts["foo"]["bar"].append("poked")
        if opts.get("read"):
            opts["read"]["poked"] = 1
    return opts


ERR = object()


def expect(i, opts, base_opts):
    """Values, or ERR; `base_opts` apply to recursive lassos."""
    lax, noempty = opts.get("lax"), opts.get("no_empty")
    ref, kind = REFS[i]
    b_lax, b_noempty = base_opts.get("lax"), base_opts.get("no_empty")
    if i in (0,):
        return [["#B1", 5]]
    if i == 2:
        return [[5, 5, "x y"]]
    if i == 3:
        return [[CELLS[1][0]]] if lax else ERR
    if i == 4:
        # C2 fails, unless the filter's failure is forgiven by the base opts.
        return [["x y"], [5]] if b_lax else ERR
    if i in (5, 6, 7):
        return 5 if lax else ERR
    if i == 8:
        return 5
    if i in (9, 10, 11):
        return ERR if noempty else []
    if i == 12:
        return ERR
    if i in (1, 13, 14, 15):
        return 5
    if i == 16:
        return [["SCRIBBLE", 5], ["#D2(R):" + NOEMPTY, "x y"], 1] if lax else ERR
    if i == 17:
        return [["SCRIBBLE", 5], ["#D2(R):" + NOEMPTY, "x y"], 1]
    if i == 18:
        return [None]
    if i in (19, 25):
        return 5
    if i in (20, 23, 24):
        return ERR
    if i == 21:
        return "other"
    if i == 22:
        return 5
    raise AssertionError(i)


_fresh = {}


def fresh(ck, how, b, i):
    key = how, b, i
    if key not in _fresh:
        ranger, sheet = world(how, copy.deepcopy(BASES[b]))
        res, got = observe(ck, ranger, sheet, i)
        _fresh[key] = res
        base = copy.deepcopy(BASES[b])
        opts = effective(how, base, REFS[i][0])
        want = expect(i, opts, effective(how, base, ""))
        if want is ERR:
            ck.check(res[0] == "ex" and isinstance(got, (ValueError, EmptyCaptureException, SyntaxError)), "not-refused", "%r with %r gave %r", REFS[i], opts, res)
        elif ck.check(res[0] == "ok", "error", "%r with %r gave %r", REFS[i], opts, res):
            ck.check(res[1] == repr(want), "values", "%r with %r gave %s, not %r", REFS[i], opts, res[1], want)
            # (how opts already in the context mix with those of the ranger is left open)
            ck.check(REFS[i][1] == "opts" or res[2] == repr(sorted(opts.items())), "opts", "%r over %r has opts %s, not %r", REFS[i], base, res[2], opts)
    return _fresh[key]


def run_case(ck, case):
    if case[0] == "lasso":
        return run_lasso(ck, case[1])
    how, b, prefix, n = case
    for tail in itt.product(range(len(REFS)), repeat=n - len(prefix)):
        seq = prefix + tail
        ck.state((how, b, seq))
        base = copy.deepcopy(BASES[b])
        ranger, sheet = world(how, base)
        for at, i in enumerate(seq):
            got, _ = observe(ck, ranger, sheet, i)
            want = fresh(ck, how, b, i)
            if not ck.check(got == want, "history", "after %r, %r gave %r, not %r as afresh", [REFS[j] for j in seq[:at]], REFS[i], got, want):
                break
        ck.check(base == BASES[b], "base-opts", "base opts %r became %r after %r", BASES[b], base, [REFS[j] for j in seq])
        ck.check(sheet.read_rect(Coords(0, 0), Coords(1, 3)) == CELLS, "sheet", "sheet became %r after %r", sheet, [REFS[j] for j in seq])
        ck.check(get_default_opts() == {"lax": False, "verbose": False, "read": {"on_demand": True}} and ranger.available_filters == filters(), "defaults", "defaults became %r", get_default_opts())


# ---------------------------------------------------------------- lasso()
class Recorder(ArraySheet):
    def __init__(self, log):
        super().__init__(copy.deepcopy(CELLS))
        self.log = log

    def _close_all(self):
        self.log.append("closed")

    _close = _close_all


class Backend(Nobody):
    def __init__(self):
        self.log = []

    def bid(self, wb_url):
        return 10 ** 6 if "fake" in wb_url else None

    def open_sheet(self, wb_url, sheet_id):
        if sheet_id == "nosheet":
            raise ValueError("No such sheet!")
        self.log.append("opened")
        return Recorder(self.log)


LASSOS = ["#B1", "#A1:B1", "#B1::", '#B1:"boom"', "#R.C.", "#nosheet!B1", "#D2(R):" + NOEMPTY, '#A1:C1:"recurse"', '#A2:"recurse"']


def run_lasso(ck, b):
    for ref, own in itt.product(LASSOS, (True, False)):
        be = Backend()
        base = copy.deepcopy(BASES[b])
        ck.step()
        kept = list(xleash.io_backends)
        try:
            if own:
                xleash.io_backends.insert(0, be)
                sf = None
            else:
                sf = SheetsFactory([be])
            got = lib.outcome(xleash.lasso, "fake" + ref, sf, base_opts=base, available_filters=FILTERS)
        finally:
            xleash.io_backends[:] = kept
        want = [] if "::" in ref or "nosheet" in ref else ["opened"]
        if own and want:
            ck.check(be.log[:1] == ["opened"] and "closed" in be.log and be.log.count("opened") == 1, "not-closed", "lasso(%r) -> %r; log: %r", ref, got, be.log)
        else:
            ck.check(be.log == want, "closed", "lasso(%r) with given factory -> %r; log: %r", ref, got, be.log)
        if sf:
            sf.close()
            ck.check(("closed" in be.log) == bool(want), "close", "closing the factory after %r; log: %r", ref, be.log)
        ck.check(base == BASES[b], "base-opts", "base opts %r became %r after %r", BASES[b], base, ref)
