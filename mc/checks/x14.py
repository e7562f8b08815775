"""X14: the stages of lassoing, with a fault injected in each one, against a model of them."""
import itertools as itt
import json

from pandalone.xleash import ArraySheet, Coords, EmptyCaptureException, Lasso, Ranger, installed_filters

from .. import lib

PID = "X14"
CELLS = [[None, 1, "x", None], [None, 2, None, None], [None, None, "y", None]]
EMPTY, BAD, NEEDSBASE = "empty", "bad", "needs-base"
NOEMPTY = '"opts": {"no_empty": true}'
#: (text, url, sheet, rect, values)
RECTS = [
    ("#B1", None, None, ((0, 1), None), 1),
    ("#A1", None, None, ((0, 0), None), None),
    ("#B1:C2", None, None, ((0, 1), (1, 2)), [[1, "x"], [2, None]]),
    ("wb#Sh!C3", "wb", "Sh", ((2, 2), None), "y"),
    ("http://a/b.xlsx#0!A1:A1", "http://a/b.xlsx", "0", ((0, 0), (0, 0)), [[None]]),
    ("#Sh!B1:B1:R", None, "Sh", ((0, 1), (0, 2)), [[1, "x"]]),
    ("#D3(U)", None, None, EMPTY, []),
    ("wb#D3(U):..(D)", "wb", None, EMPTY, []),
    ("#R2C.", None, None, NEEDSBASE, 2),
    ("#R.C.", None, None, NEEDSBASE, 2),
]
#: (text, stages run, outcome) of filters.
FILTERS = [
    (None, [], "ok"),
    ('"t1"', ["t1"], "ok"),
    ('["t1", [1], {"k": 2}]', ["t1"], "ok"),
    ('["pipe", ["t1", "t2"]]', ["pipe", "t1", "t2"], "ok"),
    ('"boom"', ["boom"], "fail"),
    ('["boom", {"lax": true}]', ["boom"], "lax"),
    ('["pipe", ["t1", "boom", "t2"]]', ["pipe", "t1", "boom"], "fail"),
    ('["pipe", ["t1", ["boom", {"lax": true}], "t2"]]', ["pipe", "t1", "boom", "t2"], "ok"),
    ('"nofilter"', ["nofilter"], "fail"),
    ('["pipe", ["nofilter", "t2"]]', ["pipe", "nofilter"], "fail"),
    ('"stop"', ["stop"], "stop"),
]
MALFORMED = ["#B1:[1, 2]", '#B1:{"func": 5}', "#B1:[1", '#B1:["a", "b"]', '#B1:["t1", [], [], []]']
SYNTAX = ["#A0", "#R0C1", "#", "##", "#@@", "B1", "", "#B1:C2:Q", "#1:"]
NONTEXTS = [None, 5, b"#A1", ["#A1"], 1.5, True]


class Boom(Exception):
    pass


FAULTS = [None] + [(w, e) for w in ("fetch", "capture", "read") for e in ("key", "os", "value", "empty", "stop", "boom")]
CONTEXTS = ["none", "sheet", "ids", "base", "values"]
BOUNDS = {
    "quick": "every one of %i captures x %i filters (by themselves or piped, failing, unknown, laxed) x %i faults of opening, inspecting or reading the sheet x %i contexts x empty captures allowed, refused by the reference or by the base options; %i malformed, mis-written or non-text references; "
    "and every 2 of them, and every 3 of some, on the same ranger; and one of some after up to 65 others" % (len(RECTS), len(FILTERS), len(FAULTS), len(CONTEXTS), len(MALFORMED + SYNTAX + NONTEXTS)),
    "thorough": "as quick, and every 3 of all on the same ranger",
}
ASSUMPTIONS = ["sheets and the sheets-factory are stand-ins failing on demand; what the values of a filter left among the stages are is not decided"]


def make(what):
    return {"key": KeyError, "os": OSError, "value": ValueError, "empty": EmptyCaptureException, "stop": KeyboardInterrupt, "boom": Boom}[what]("FAULT-" + what)


class Sheet(ArraySheet):
    world = None

    def get_states_matrix(self):
        self.world.hit("capture")
        return super(Sheet, self).get_states_matrix()

    def get_margin_coords(self):
        self.world.hit("capture")
        return super(Sheet, self).get_margin_coords()

    def read_rect(self, st, nd):
        self.world.hit("read")
        self.world.rect = (tuple(st), None if nd is None else tuple(nd))
        return super(Sheet, self).read_rect(st, nd)


class World(object):
    """The sheets-factory, too."""

    def __init__(self):
        self.sheet = Sheet(CELLS)
        self.sheet.world = self
        self.given = Sheet(CELLS)
        self.given.world = self
        self.reset(None)

    def reset(self, fault):
        self.fault, self.fired, self.log, self.rect, self.asked = fault, None, [], None, None

    def hit(self, stage):
        if self.log[-1:] != [stage]:
            self.log.append(stage)
        if self.fault and self.fault[0] == stage:
            self.fired = make(self.fault[1])
            raise self.fired

    def fetch_sheet(self, wb_id, sheet_id, base_sheet=None, **kwds):
        self.asked = (wb_id, sheet_id, base_sheet)
        self.hit("fetch")
        return self.sheet if base_sheet is None else base_sheet


def filters(world):
    def tracer(name):
        def func(ranger, lasso, *args, **kwds):
            world.log.append(name)
            return lasso._replace(values=[name, lasso.values])

        return func

    def boom(ranger, lasso):
        world.log.append("boom")
        raise Boom("BANG")

    def stop(ranger, lasso):
        world.log.append("stop")
        raise KeyboardInterrupt("STOP")

    return {"t1": {"func": tracer("t1")}, "t2": {"func": tracer("t2")}, "boom": {"func": boom}, "stop": {"func": stop}, "pipe": installed_filters["pipe"]}


def filtered(values, flt):
    names, how = flt[1:]
    if how in ("ok", "lax"):
        for n in names:
            if n in ("t1", "t2"):
                values = [n, values]
    return values


def context(name, world):
    return {
        "none": {},
        "sheet": {"sheet": world.given},
        "ids": {"url_file": "ctx-wb", "sh_name": "ctx-sh"},
        "base": {"base_coords": Coords(1, 1), "sheet": world.given},
        "values": {"values": "OLD", "st": Coords(7, 7), "nd": Coords(8, 8), "xl_ref": "OLD"},
    }[name]


def one(ck, world, ranger, spec):
    """One lasso on the ranger, whose opts refuse empty captures or not."""
    kind = spec[0]
    if kind == "context":
        world.reset(None)
        got = lib.outcome(ranger.do_lasso, spec[1], no_such_field=1)
        ck.step()
        ck.state(spec)
        ck.check(got[0] == "ex" and not world.log, "context", "lassoing %r in an unknown context gave %r, after %r", spec[1], got, world.log)
        ck.check(ranger.intermediate_lasso is None, "intermediate", "lassoing %r in an unknown context left the stage %r", spec[1], ranger.intermediate_lasso)
        return
    if kind == "text":
        _, text, how = spec
        world.reset(None)
        got = lib.outcome(ranger.do_lasso, text)
        ck.step()
        ck.state(spec)
        exp = SyntaxError if how == "syntax" else ValueError
        ck.check(got[0] == "ex" and isinstance(got[1], exp) and (how == "syntax") == isinstance(got[1], SyntaxError), "refused", "lassoing %r gave %r", text, got)
        ck.check(not world.log, "stages", "lassoing %r went on with %r", text, world.log)
        if how == "malformed":
            ck.check(isinstance(got[1], Exception) and "pars" in str(got[1]).lower() and text in str(got[1]), "message", "lassoing %r gave %r", text, got)
        if how != "nontext":
            stage = ranger.intermediate_lasso
            ck.check(stage is not None and stage[0] == "context" and isinstance(stage[1], Lasso), "intermediate", "lassoing %r left the stage %r", text, stage)
        return
    _, r, f, fault, ctx, noempty = spec
    ref, url, sh, rect, values = RECTS[r]
    flt = FILTERS[f]
    text = ref
    if noempty == "ref":
        parts = flt[0] or '"t1"'
        if parts[0] == "[":
            p = json.loads(parts)
            obj = {"func": p[0]}
            for q in p[1:]:
                obj["args" if isinstance(q, list) else "kwds"] = q
            parts = json.dumps(obj)[1:-1]
        else:
            parts = '"func": ' + parts
        text = ref + ":{" + parts + ", " + NOEMPTY + "}" if flt[0] else ref + ":{" + NOEMPTY + "}"
    elif flt[0]:
        text = ref + ":" + flt[0]
    world.reset(fault)
    kwds = context(ctx, world)
    st, got = lib.outcome(stopped, ranger.do_lasso, text, **kwds)
    ck.step()
    what = "lassoing %r with %r in context %r, refusing empty captures by %r" % (text, fault, ctx, noempty)
    inter = ranger.intermediate_lasso
    if not ck.check(isinstance(inter, tuple) and len(inter) == 2 and isinstance(inter[1], Lasso), "intermediate", "%s left the stage %r", what, inter):
        return
    stage, las = inter
    # What was asked.
    exp_ids = (url or kwds.get("url_file"), sh or kwds.get("sh_name"), kwds.get("sheet"))
    ck.check(world.asked == exp_ids, "ids", "%s fetched the sheet %r, not %r", what, world.asked, exp_ids)
    parsed = dict(xl_ref=text, url_file=exp_ids[0], sh_name=exp_ids[1])
    log = ["fetch"]
    fired = world.fired
    sheet = kwds.get("sheet") or world.sheet
    if rect is NEEDSBASE:
        rect, values = (((1, 1), None), 2) if ctx == "base" else (BAD, None)

    def judge(stage_, fields, exp):
        ck.state((spec, stage_))
        ck.check(world.log == log, "stages", "%s went through %r, not %r", what, world.log, log)
        ck.check(stage == stage_, "stage", "%s stopped at %r, not %r", what, stage, stage_)
        for k, v in dict(parsed, **fields).items():
            have = getattr(las, k)
            ck.check(have is v if k == "sheet" else have == v, "field", "%s: the lasso at %r has %s=%r, not %r", what, stage, k, have, v)
        if isinstance(exp, str):  # Wrapped, unless fatal.
            if fired is not None and not isinstance(fired, Exception):
                ck.check(st == "ok" and got == ("stop", fired), "error", "%s gave %r", what, got)
            else:
                ok = st == "ex" and isinstance(got, ValueError) and not isinstance(got, SyntaxError) and exp in str(got).lower()
                if fired is not None and exp != "filter":
                    ok = ok and "FAULT" in str(got) and fired in (got.__cause__, got.__context__)
                ck.check(ok, "error", "%s gave %r, not a value error about %s", what, got, exp)
        elif isinstance(exp, BaseException):  # As it is.
            ck.check(got is exp or st == "ok" and got == ("stop", exp), "error", "%s gave %r, not %r", what, got, exp)
        elif isinstance(exp, type):
            ck.check(st == "ex" and isinstance(got, exp), "error", "%s gave %r, not %r", what, got, exp)
        else:
            exp()

    if fired is not None and world.fault[0] == "fetch":
        return judge("parse", {}, "load")
    log.append("capture")
    empty = rect == EMPTY
    if fired is not None and world.fault[0] == "capture":
        if world.fault[1] != "empty":
            return judge("open", {"sheet": sheet}, "captur")
        empty = True
    elif rect == BAD:
        if "capture" not in world.log:
            log.pop()
        return judge("open", {"sheet": sheet}, "captur")
    if empty:
        if noempty:
            return judge("open", {"sheet": sheet}, EmptyCaptureException)
        values, st_, nd_ = [], None, None
    else:
        st_, nd_ = rect
        log.append("read")
        if fired is not None and world.fault[0] == "read":
            return judge("capture", {"sheet": sheet, "st": st_, "nd": nd_}, fired)
        ck.check(world.rect == (st_, nd_), "rect", "%s read %r", what, world.rect)
    fields = {"sheet": sheet, "st": st_, "nd": nd_}
    names, how = flt[1:]
    log += [n for n in names if n not in ("pipe", "nofilter")]
    if how == "fail":
        return judge(names[-1], fields, "filter")
    if how == "stop":
        ck.check(st == "ok" and isinstance(got, tuple) and got[0] == "stop", "error", "%s gave %r", what, got)
        return judge("stop", fields, lambda: None)
    if not names:
        fields["values"] = values

    def final():
        ok = st == "ok" and isinstance(got, Lasso) and got.values == filtered(values, flt)
        ok = ok and all(getattr(got, k) == v for k, v in dict(parsed, st=st_, nd=nd_).items()) and got.sheet is sheet
        ck.check(ok and got.base_coords == kwds.get("base_coords"), "lasso", "%s gave %r, not values %r", what, got, filtered(values, flt))

    judge(names[-1] if names else "read_rect", fields, final)


def stopped(func, *args, **kwds):
    try:
        return func(*args, **kwds)
    except KeyboardInterrupt as ex:
        return ("stop", ex)


FEW = [
    ("context", "#B1"),
    ("text", "#@@", "syntax"), ("text", MALFORMED[0], "malformed"), ("text", None, "nontext"),
    ("lasso", 0, 0, None, "none", None), ("lasso", 2, 1, None, "sheet", None), ("lasso", 3, 3, None, "ids", None), ("lasso", 6, 0, None, "none", None),
    ("lasso", 6, 1, None, "base", "ref"), ("lasso", 7, 1, None, "none", None), ("lasso", 9, 0, None, "base", None), ("lasso", 9, 0, None, "sheet", None),
    ("lasso", 2, 4, None, "none", None), ("lasso", 2, 5, None, "none", None), ("lasso", 2, 6, None, "values", None), ("lasso", 1, 8, None, "values", None),
    ("lasso", 2, 1, ("fetch", "os"), "none", None), ("lasso", 2, 1, ("capture", "key"), "sheet", None), ("lasso", 2, 1, ("capture", "empty"), "ids", None), ("lasso", 4, 2, ("read", "boom"), "ids", None),
    ("lasso", 4, 2, ("fetch", "stop"), "none", None), ("lasso", 5, 0, None, "values", None),
]


def cases(tier):
    for how, texts in (("malformed", MALFORMED), ("syntax", SYNTAX), ("nontext", NONTEXTS)):
        for t in texts:
            yield ("one", ("text", t, how))
    for r, f in itt.product(range(len(RECTS)), range(len(FILTERS))):
        for fault in FAULTS:
            yield ("all", r, f, fault)
    for seq in itt.product(range(len(FEW)), repeat=2):
        yield ("seq", seq)
    for i, j in itt.product(range(len(FEW)), repeat=2):
        for n in (3, 8, 9, 33, 65):
            yield ("seq", (i,) * n + (j,))
    for seq in itt.product(range(len(FEW)) if tier != "quick" else range(3, len(FEW), 3), repeat=3):
        yield ("seq", seq)


def run_case(ck, case):
    if case[0] == "one":
        world = World()
        one(ck, world, Ranger(world, available_filters=filters(world)), case[1])
    elif case[0] == "all":
        for ctx, noempty in itt.product(CONTEXTS, [None, "ref", "base"]):
            world = World()
            ranger = Ranger(world, base_opts={"no_empty": True} if noempty == "base" else None, available_filters=filters(world))
            one(ck, world, ranger, ("lasso",) + case[1:] + (ctx, noempty))
    else:
        world = World()
        ranger = Ranger(world, available_filters=filters(world))
        for i in case[1]:
            one(ck, world, ranger, FEW[i])
