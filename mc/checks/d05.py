"""D05: build steps run in order, stop at the first failing one, and report."""
import copy
import itertools as itt

import jsonschema
from jsonschema import ValidationError

from pandalone.pandata import Pandel

from .. import lib

PID = "D05"

# Submodel stacks: (submodels, what they break)
STACKS = {
    "ok": [{"a": "s"}, {"b": 1}],
    "none": [],
    "pre1": [{"a": "s"}, {"b": "bad"}],
    "pre2": [{"a": 1}, {"b": "bad", "a": 2}],
    "pre3": [{"a": 1, "b": "bad"}, {"a": "s", "b": 1}],
    "mrg": [{"a": "s", "c": None}, {"b": 1, "c": None}],  # two nulls cannot merge
    "val1": [{"a": "s"}, {"c": 1}],  # `b` missing
    "val2": [{"c": 1}, {}],  # `a` & `b` missing
    "premrg": [{"a": 1, "c": None}, {"b": 1, "c": None}],
}
# What the schema getter does in each validation.
GETTERS = ["ok", "VE", "EX", "VE0", "EXC"]
# Curate functions, and what an overridden curate-step yields.
CURATES = [(), ("ok",), ("ok", "ok"), ("VE",), ("EX", "ok"), ("ok", "KE", "ok"), ("ok", "VE", "EX"), ("set",), ("VE0", "ok"), ("ok", "EXC"), ("EXX",)]
YIELDS = [None, (), ("err",), ("err", "err"), ("err", "VE"), ("err", "EX"), ("EX",), ("VE0",), ("EXC",), ("err", "EXX")]
BOUNDS = {
    "quick": "all combinations of %i submodel stacks, %i outcomes of the schema-getter per validation, %i lists of curate-functions and %i "
    "overridden curate-steps; all pairs of consecutive builds on one model out of %i configurations, each driven 4 ways "
    "(build, exhausted or abandoned iteration, un-started iteration); up to 40 submodels, errors & curate-functions" % (len(STACKS), len(GETTERS), len(CURATES), len(YIELDS), 20),
    "thorough": "all triples of consecutive builds",
}


def configs():
    for s in STACKS:
        for g1, g3 in itt.product(GETTERS, repeat=2):
            for c in CURATES:
                yield (s, g1, g3, "funcs", c)
            for y in YIELDS[1:]:
                yield (s, g1, g3, "step", y)


def core():
    for s in STACKS:
        yield (s, "ok", "ok", "funcs", ("ok",))
    yield ("ok", "VE", "ok", "funcs", ("ok",))
    yield ("ok", "EX", "ok", "funcs", ())
    yield ("ok", "ok", "EX", "funcs", ())
    yield ("val1", "ok", "VE", "step", ("err",))
    yield ("ok", "ok", "ok", "funcs", ("ok", "VE", "ok"))
    yield ("ok", "ok", "ok", "funcs", ("EX", "ok"))
    yield ("ok", "ok", "ok", "funcs", ("set",))
    yield ("ok", "ok", "ok", "step", ("err", "err"))
    yield ("ok", "ok", "ok", "step", ("err", "EX"))
    yield ("mrg", "ok", "ok", "step", ("EX",))
    yield ("pre2", "ok", "EX", "funcs", ("EX",))


WAYS = ["iter", "build", "first", "unstarted"]


def cases(tier):
    for c in configs():
        for way in WAYS[:3]:
            yield ((c, way),)
    for n in list(range(1, 21)) + [40]:
        yield ("size", n)
    C = list(core())
    for c1, w1 in itt.product(C, WAYS):
        for c2, w2 in itt.product(C, WAYS[:2]):
            yield ((c1, w1), (c2, w2))
            if tier != "quick":
                for c3 in C:
                    yield ((c1, w1), (c2, w2), (c3, "iter"))


def schema(pre):
    return {
        "$schema": "http://json-schema.org/draft-04/schema#",
        "required": [] if pre else ["a", "b"],
        "properties": {"a": {"type": "string"}, "b": {"type": "number"}},
    }


class Boom(Exception):
    pass


class Model(Pandel):
    cfg = log = None

    def _get_json_schema(self, is_prevalidation):
        step = "pre" if is_prevalidation else "val"
        if not self.log or self.log[-1] != step:  # how many times it is asked is no concern
            self.log.append(step)
        do(self.cfg[1 if is_prevalidation else 2], "getter")
        return schema(is_prevalidation)


class StepModel(Model):
    def _curate(self):
        self.log.append("curate")
        for i, what in enumerate(self.cfg[4]):
            if what == "err":
                yield ValidationError("curated-%i" % i)
            else:
                do(what, "step")


def do(what, where):
    if what == "VE":
        raise ValidationError("VE " + where)
    if what == "VE0":  # Without any message.
        raise ValidationError("")
    if what == "EXC":
        raise Boom("EXC " + where) from OSError("the cause")
    if what == "EXX":
        try:
            raise ValidationError("handled")
        except ValidationError:
            raise Boom("EXX " + where)
    if what == "EX":
        raise Boom("EX " + where)
    if what == "KE":
        raise KeyError("KE " + where)


def make(cfg):
    log = []
    if cfg[3] == "step":
        pm = StepModel()
    else:
        pm = Model()
    pm.log = log
    return pm


def configure(pm, cfg):
    """Reconfigure a model for its next build."""
    pm.cfg = cfg
    del pm.log[:]
    del pm._submodel_tuples[:]
    for s in STACKS[cfg[0]]:
        pm.add_submodel(copy.deepcopy(s))
    funcs = []
    if cfg[3] == "funcs":
        for i, what in enumerate(cfg[4]):

            def func(pm, i=i, what=what):
                pm.log.append("curate%i" % i)
                if what == "set":
                    pm.model = "curated"
                do(what, "curate%i" % i)

            funcs.append(func)
    pm._curate_funcs = funcs


def messages(mdl, pre):
    return [e.message for e in jsonschema.Draft4Validator(schema(pre)).iter_errors(mdl)]


def ref_build(cfg):
    """(log, list of expected error lists, model or None)"""
    stack, g1, g3, ckind, cur = cfg
    subs = copy.deepcopy(STACKS[stack])
    log, errs = [], []

    def raised(what, where, step):
        if what == "VE0":
            return [("VE", "")]
        if what == "VE":
            return [("VE", "VE " + where)]
        return [("EX", what + " " + where)]

    def giveup(n, name):
        return (log, errs, ("Gave-up", n, name))

    # prevalidate
    if subs:
        log.append("pre")
        if g1 != "ok":
            errs += raised(g1, "getter", 1)
        else:
            for s in subs:
                errs += [("ERR", m) for m in messages(s, True)]
    if errs:
        return giveup(1, "prevalidate") + (None,)
    # merge
    if stack in ("mrg", "premrg"):
        errs.append(("VE", None))
        return giveup(2, "merge") + (None,)
    mdl = None
    for s in subs:
        mdl = dict(mdl or {}, **s)
    # validate
    log.append("val")
    if g3 != "ok":
        errs += raised(g3, "getter", 3)
    else:
        errs += [("ERR", m) for m in messages(mdl, False)]
    if errs:
        return giveup(3, "validate") + (mdl,)
    # curate
    if ckind == "step":
        log.append("curate")
        for i, what in enumerate(cur):
            if what == "err":
                errs.append(("ERR", "curated-%i" % i))
            else:
                errs += raised(what, "step", 4)
                break
    else:
        for i, what in enumerate(cur):
            log.append("curate%i" % i)
            if what == "set":
                mdl = "curated"
            elif what != "ok":
                errs += raised(what, "curate%i" % i, 4)
                break
    if errs:
        return giveup(4, "curate") + (mdl,)
    return log, errs, None, mdl


def check_err(ck, exp, ex, cfg):
    kind, msg = exp
    ok = isinstance(ex, ValidationError)
    if msg is not None:
        ok = ok and (ex.message == msg if kind != "EX" else msg in ex.message.replace("'", ""))
    if kind == "EX":
        cause = getattr(ex, "cause", None)
        ok = ok and isinstance(cause, (Boom, KeyError)) and msg in str(cause)
    ck.check(ok, "error", "config %r: expected the error %r, got %r", cfg, exp, ex)


def one_build(ck, pm, cfg, way):
    configure(pm, cfg)
    log, errs, gave, mdl = ref_build(cfg)
    ck.step()
    ck.state((log, errs, gave, repr(mdl), way))
    if way == "unstarted":
        pm.build_iter()
        ck.check(pm.log == [], "lazy", "config %r: un-started iteration already ran %r", cfg, pm.log)
        return
    if way == "iter":
        got = list(pm.build_iter())
        n = len(errs) + bool(gave)
        if not ck.check(len(got) == n, "count", "config %r: expected %i error(s) %r and notice %r, got %r", cfg, len(errs), errs, gave, got):
            return
        if errs and errs[0][0] == "ERR" and gave[2] in ("prevalidate", "validate"):
            body = got[: len(errs)]
            ck.check(
                sorted(e.message for e in body) == sorted(m for _, m in errs) and all(isinstance(e, ValidationError) for e in body),
                "errors", "config %r: expected errors %r, got %r", cfg, errs, body,
            )
        else:
            for e, g in zip(errs, got):
                check_err(ck, e, g, cfg)
        if gave:
            last = got[-1]
            ck.check(
                isinstance(last, ValidationError) and last.message.startswith("Gave-up") and ("%i.%s" % gave[1:]) in last.message,
                "give-up", "config %r: expected to give-up after step %r, got %r", cfg, gave, last,
            )
    elif way == "build":
        st, got = lib.outcome(pm.build)
        if not errs:
            ck.check(st == "ok" and got == mdl and got is pm.model, "build-result", "config %r: expected model %r, got %r", cfg, mdl, got)
        elif errs[0][0] == "ERR" and gave[2] in ("prevalidate", "validate"):
            ck.check(st == "ex" and isinstance(got, ValidationError) and got.message in [m for _, m in errs], "build-error",
                     "config %r: expected one of %r raised, got %r", cfg, errs, got)
        else:
            ck.check(st == "ex", "build-error", "config %r: expected %r raised, got %r", cfg, errs[0], got)
            check_err(ck, errs[0], got, cfg)
        # What the step-wise build reports first.
        pm2 = make(cfg)
        configure(pm2, cfg)
        first = next(pm2.build_iter(), None)
        ck.check((first is None) == (st == "ok") and (first is None or first.message == got.message), "first-error",
                 "config %r: build() gave %r but build_iter() first %r", cfg, got, first)
    else:
        it = pm.build_iter()
        got = next(it, None)
        ck.check((got is None) == (not errs), "first", "config %r: expected %r, got %r", cfg, errs[:1], got)
        it.close()
    if way == "iter" or not errs:
        ck.check(pm.log == log, "steps", "config %r: ran %r, expected %r", cfg, pm.log, log)
        if not gave or gave[2] == "prevalidate":
            ck.check(pm.model == mdl, "model", "config %r: model is %r, expected %r", cfg, pm.model, mdl)
        flag = getattr(pm, "_errored", bool(gave))
        ck.check(bool(flag) == bool(gave) and flag is not None, "flag", "config %r: _errored is %r", cfg, flag)
    else:
        ck.check(pm.log == log[: len(pm.log)], "steps-first", "config %r: ran %r, expected a prefix of %r", cfg, pm.log, log)


class Plain(Pandel):
    def _get_json_schema(self, is_prevalidation):
        return {}


def sizes(ck, n):
    """Many submodels, errors, and curate-functions given to the constructor."""
    for bad in sorted({0, 1, n // 2, n - 1, n}):
        log = []

        def func(i):
            def curate(pm):
                log.append(i)
                if i == bad:
                    raise ValidationError("VE %i" % i)

            return curate

        for seq in (list, tuple):
            del log[:]
            pm = Plain(seq(map(func, range(n))))
            for i in range(n):
                pm.add_submodel({"k%i" % i: i})
            errs = list(pm.build_iter())
            ck.step()
            ck.state(("size", n, bad))
            ck.check(log == list(range(min(n, bad + 1))) and len(errs) == (2 if bad < n else 0) and (bad >= n or errs[0].message == "VE %i" % bad), "size", "%i curate-functions, the %ith failing: ran %r, reported %r", n, bad, log, errs)
            ck.check(pm.model == {"k%i" % i: i for i in range(n)}, "size", "%i submodels gave %r", n, pm.model)

        class Schemaful(Pandel):
            def _get_json_schema(self, is_prevalidation):
                return {"properties": {"k%i" % i: {"type": "integer"} for i in range(n)}, "required": [] if is_prevalidation else ["k%i" % i for i in range(n)]}

        for style in range(3):
            del log[:]
            pm = Schemaful([func(-1)])
            for i in range(n):
                if style == 0:  # a failing submodel
                    pm.add_submodel({"k%i" % i: "x" if i >= bad else i})
                elif style == 1:  # a missing one
                    pm.add_submodel({"k%i" % i: i} if i < bad else {})
                else:
                    pm.add_submodel({"k%i" % j: "x" if j >= bad else j for j in range(n)} if i == n - 1 else {})
            errs = list(pm.build_iter())
            ck.step()
            want = n - bad and n - bad + 1
            ck.check(len(errs) == want and all(isinstance(e, ValidationError) for e in errs), "size", "%i submodels, %i failing (%i): reported %i errors: %r", n, n - bad, style, len(errs), errs)
            if errs:
                step = "2.merge" if style > 2 else "1.prevalidate" if style != 1 else "3.validate"
                ck.check(errs[-1].message.startswith("Gave-up") and step in errs[-1].message and not any(e.message.startswith("Gave-up") for e in errs[:-1]), "size", "%i submodels, %i failing (%i): gave %r", n, n - bad, style, errs)
            ck.check(log == ([] if errs else [-1]), "size", "%i submodels, %i failing (%i): curated %r", n, n - bad, style, log)


def run_case(ck, case):
    pm = None
    if case[0] == "size":
        return sizes(ck, case[1])
    for cfg, way in case:
        if pm is None or (cfg[3] == "step") != isinstance(pm, StepModel):
            if pm is not None:  # the other class of models, keep going with the state of the previous
                old, pm = pm, make(cfg)
                pm.model, pm._errored = old.model, getattr(old, "_errored", None)
            else:
                pm = make(cfg)
                ck.check(getattr(pm, "_errored", 0) is None and getattr(pm, "model", 0) is None, "fresh", "fresh model already built")
        one_build(ck, pm, cfg, way)
