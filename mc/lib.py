"""Shared machinery: bounded exhaustive exploration of the real pandalone code.

A check module (mc/checks/<id>.py, lower case) provides

- ``PID``, ``BOUNDS`` (text), optionally ``RULE``, and
- ``cases(tier)``  -- a deterministic generator of literal (repr-able) cases, and
- ``run_case(ck, case)`` -- executes one case on the real code, compares each
  step with the reference model, and reports through `ck`;
- or, for state-space searches, ``explore(ck)`` next to ``run_case``.

Every generated case is executed: nothing is sampled, and no cap is applied
unless the check says so in its bounds.
"""
import ast
import collections
import hashlib
import itertools as itt
import json
import logging
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = os.path.realpath(os.environ.get("VP_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VP_NPROC") or max(1, min(8, os.cpu_count() or 1)))
HANG_CPU_S = 40


class Hang(BaseException):
    """The implementation burned too much CPU time on a single case."""


def h64(obj):
    if not isinstance(obj, (str, bytes)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Collector(object):
    """Counts and violations of (a shard of) an exploration."""

    MAX_VIOLATIONS = int(os.environ.get("VP_MAXV") or 400)

    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.states = set()  # hashes of distinct canonical states / expected observations
        self.transitions = 0  # calls into the implementation
        self.traces = 0  # cases whose every result was compared to the model
        self.extra = collections.Counter()
        self.samples = []
        self.violations = []  # (key, message, case)
        self.vcount = 0
        self.case = None
        self.ncase = 0

    # -- reporting from run_case()
    def begin(self, case):
        self.case = case
        self.ncase += 1

    def state(self, canon):
        self.states.add(h64(canon))

    def step(self, n=1):
        self.transitions += n

    def fail(self, key, msg, case=None):
        self.vcount += 1
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append((key, msg, self.case if case is None else case))

    def check(self, ok, key, msg, *args):
        if not ok:
            self.fail(key, msg % args if args else msg)
        return ok

    def sample(self, text, limit=3):
        if len(self.samples) < limit:
            self.samples.append(text)

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.extra.update(o.extra)
        self.samples = (self.samples + o.samples)[:6]
        room = self.MAX_VIOLATIONS - len(self.violations)
        self.violations += o.violations[:room]
        self.vcount += o.vcount


def from_repo(tb):
    return any(
        os.path.realpath(f.filename).startswith(REPO + os.sep)
        for f in traceback.extract_tb(tb)
    )


def guarded(ck, run_case, case):
    """Run one case; an exception leaking out of the code under test is a violation."""
    ck.begin(case)
    try:
        run_case(ck, case)
        ck.traces += 1
    except Hang:
        ck.fail("hang", "no result after %ss of CPU time" % HANG_CPU_S)
        raise
    except Exception as ex:
        if from_repo(ex.__traceback__):
            last = [
                f
                for f in traceback.extract_tb(ex.__traceback__)
                if os.path.realpath(f.filename).startswith(REPO + os.sep)
            ][-1]
            ck.fail(
                "unexpected %s in %s()" % (type(ex).__name__, last.name),
                "unexpected exception: %r" % ex,
            )
        else:
            raise


def install_watchdog(ck):
    """Interrupt a case that runs away (CPU time, so that a loaded machine is no alarm)."""
    seen = {"ncase": -1, "ticks": 0}

    def tick(signum, frame):
        if ck.ncase != seen["ncase"]:
            seen["ncase"], seen["ticks"] = ck.ncase, 0
        else:
            seen["ticks"] += 1
            if ck.case is not None and seen["ticks"] >= HANG_CPU_S:
                seen["ticks"] = 0
                raise Hang()

    signal.signal(signal.SIGVTALRM, tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def limit_memory(gb=6):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def _worker(args):
    mod, pid, tier, seed, shard, n, fn = args
    quiet()
    limit_memory()
    ck = Collector(pid, tier, seed)
    install_watchdog(ck)
    if mp.parent_process() is not None:  # asteval prints errors on stderr.
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    try:
        if fn is not None:
            fn(ck, shard, n)
        else:
            for case in itt.islice(mod.cases(tier), shard, None, n):
                guarded(ck, mod.run_case, case)
                if ck.vcount >= ck.MAX_VIOLATIONS:
                    ck.extra["stopped_early_on_violations"] += 1
                    break
                if ck.traces in (1, 1000):
                    ck.sample(repr(case)[:600], limit=1 if shard else 3)
    except Hang:
        pass
    except BaseException as ex:
        ck.error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ck


_TASK = {}


def _forked(i):
    mod, pid, tier, seed, n, fn = _TASK["args"]
    ck = _worker((mod, pid, tier, seed, i, n, fn))
    return ck


def run_sharded(mod, ck, fn=None, nproc=None, shards=None):
    """Explore all cases of the module, spread over forked workers; merge the results."""
    n = nproc or NPROC
    shards = shards or int(os.environ.get("VP_SHARDS") or n)
    _TASK["args"] = (mod, ck.pid, ck.tier, ck.seed, shards, fn)
    if n == 1:
        results = []
        for i in range(shards):
            results.append(_forked(i))
            if results[-1].vcount >= ck.MAX_VIOLATIONS:
                break
    else:
        with mp.get_context("fork").Pool(n, maxtasksperchild=1) as pool:
            results = pool.map(_forked, range(shards), chunksize=1)
    errors = [r.error for r in results if getattr(r, "error", None)]
    for r in results:
        ck.merge(r)
    if errors and not ck.vcount:
        raise RuntimeError("harness error:\n" + errors[0])


# ---------------------------------------------------------------- known findings
def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {
        e["key"]: e
        for e in data["findings"]
        if e["property"] == pid and e["status"] == "known"
    }


# ---------------------------------------------------------------- main
def case_repr(case):
    return repr(case)


def main(mod, tier, replay=None):
    pid = mod.PID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quiet()
    ck = Collector(pid, tier, seed)
    if replay:
        with open(replay) as f:
            data = json.load(f)
        case = ast.literal_eval(data["case"])
        install_watchdog(ck)
        try:
            guarded(ck, mod.run_case, case)
        except Hang:
            pass
    else:
        try:
            if hasattr(mod, "explore"):
                install_watchdog(ck)
                try:
                    mod.explore(ck)
                except Hang:
                    pass
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            else:
                run_sharded(mod, ck)
        except Exception as ex:
            if from_repo(ex.__traceback__):
                ck.fail("unexpected " + type(ex).__name__, traceback.format_exc())
            elif not ck.vcount:
                raise

    known = load_known(pid)
    hit, new = {}, []
    for key, msg, case in ck.violations:
        if key in known:
            hit.setdefault(key, (msg, case))
        else:
            new.append((key, msg, case))

    wall = time.time() - t0
    if not replay:
        write_evidence(mod, ck, tier, seed, wall, len(new))
    for key, (msg, case) in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]["what"]))
    if new:
        # The shortest witness first.
        new.sort(key=lambda v: (len(repr(v[2])), repr(v[2])))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = []
        for key, msg, case in new:
            if key in seen:
                continue
            seen.append(key)
            if len(seen) > 5:
                break
            path = os.path.join(rdir, "%s-%i.json" % (pid, len(seen)))
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": pid,
                        "key": key,
                        "message": msg,
                        "case": case_repr(case),
                        "replay_with": "./run.sh %s --replay %s" % (pid, path),
                    },
                    f,
                    indent=1,
                )
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   [%s] %s" % (key, str(msg)[:1500]))
            print("   case: %s" % case_repr(case)[:1500])
        print("%s: %i violation(s) in all" % (pid, ck.vcount))
        return 1
    print(
        "%s ok: states=%i transitions=%i traces=%i wall=%.1fs"
        % (pid, len(ck.states), ck.transitions, ck.traces, wall)
    )
    return 0


def write_evidence(mod, ck, tier, seed, wall, nviol):
    cov = {
        "states": len(ck.states),
        "transitions": ck.transitions,
        "traces_validated_against_impl": ck.traces,
        "samples": ck.samples or ["(none)"],
        "exhaustive": not ck.extra.get("stopped_early_on_violations"),
        "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "counting": getattr(
            mod,
            "COUNTING",
            "states: distinct canonical model states/expected observations; "
            "transitions: calls into the real code; "
            "traces: complete cases executed on the real code with every result "
            "compared to the reference model",
        ),
    }
    if ck.extra:
        cov["counters"] = dict(sorted(ck.extra.items()))
    ev = {
        "property": ck.pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, ck.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def outcome(fn, *args, **kw):
    """('ok', value) or ('ex', exception) of a call into the implementation."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as ex:
        return ("ex", ex)
