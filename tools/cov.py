"""Lines of pandalone a check executes (python's sys.monitoring): tools/cov.py ID... -> JSON in $VP_COV."""
import importlib, json, os, sys

COV = os.environ["VP_COV"]
os.makedirs(COV, exist_ok=True)
HITS = set()
mon = sys.monitoring
mon.use_tool_id(3, "vpcov")
ROOT = os.path.realpath(os.environ["VP_REPO"]) + "/pandalone/"


def line(code, no):
    if code.co_filename.startswith(ROOT):
        HITS.add((code.co_filename[len(ROOT):], no))
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from mc import lib
import pandalone.components, pandalone.mappings, pandalone.pandata, pandalone.utils, pandalone.winutils, pandalone.xleash

lib.quiet()
IMPORTED = set(HITS)
orig = lib._worker


def dump(pid):
    json.dump(sorted(HITS), open("%s/%s-%s.json" % (COV, pid, os.getpid()), "w"))


def worker(args):
    try:
        return orig(args)
    finally:
        dump(args[1])


lib._worker = worker
for pid in sys.argv[1:]:
    mod = importlib.import_module("mc.checks." + pid.lower())
    lib.main(mod, "quick")
    dump(pid)
