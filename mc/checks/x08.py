"""X08: bidding and dispatching, over every small set of backends and sequence of requests."""
import itertools as itt
import os

from pandalone import xleash
from pandalone.xleash import ABCSheet, Ranger, SheetsFactory
from pandalone.xleash.io.backend import ABCBackend, SheetId, SimpleSheetsFactory

from .. import lib

PID = "X08"
EMPTY = 7  # The bid of those which then find no sheet.
BIDS = [None, -1, 0, 1, 5, EMPTY, 100]
ACTIVE = "file:///active.xls"  # What the current workbook is.
CWD = "/tmp"
WBS = {
    "http://h/p/w.xls": "http://h/p/w.xls",
    "/d/w.xlsx": "file:///d/w.xlsx",
    "w.xlsx": "file:///tmp/w.xlsx",
    "file:///d/e/w.xls": "file:///d/e/w.xls",
    "d/../w2.xlsx": "file:///tmp/w2.xlsx",
    None: None,
}
MANY = [8, 9, 10, 11, 16, 17, 33]
REQS = [("list", wb) for wb in WBS if wb] + [("fetch", wb, sh) for wb in WBS for sh in (None, "a", 1)] + [("sib", "b"), ("sib", 0), ("same",)]
BASED = [("based", wb, sh) for wb, sh in (("http://h/p/w.xls", None), ("w.xlsx", "b"), ("file:///d/e/w.xls", 0))]
HOW = ["simple", "caching"]
BOUNDS = {
    "quick": "every list of up to 4 backends bidding one of %s x one of them finding no sheet, x registered or given x 2 factories x every request; every sequence of 2 requests over lists of up to 3 backends in the simple factory; "
    "lists of %s backends with the winner at either end, next to it and amid; backends bidding per workbook" % (BIDS, MANY),
    "thorough": "lists of up to 5 backends; every sequence of 3 requests over lists of 2 backends, and 2 requests over lists of 3, in both factories",
}


def cases(tier):
    deep = tier != "quick"
    for n in range(0, 6 if deep else 5):
        for bids in itt.product(BIDS, repeat=n):
            yield ("one", bids)
    for n in MANY:
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            for rest in (None, 0, 5):
                yield ("one", tuple(100 if i == pos else rest for i in range(n)))
        yield ("one", tuple(range(n)))
        yield ("one", tuple(range(n))[::-1])
    for n in range(1, 4):
        for bids in itt.product([None, 0, 5], repeat=n):
            yield ("two", bids, 2, HOW if deep else ["simple"])
    if deep:
        for bids in itt.product([None, 0, 5], repeat=2):
            yield ("two", bids, 3, HOW)
    for bids in itt.product([None, 1, 2], repeat=4):
        yield ("per", bids)


class Sheet(ABCSheet):
    def __init__(self, be, book, sid):
        self.be, self.book, self.sid = be, book, sid

    def get_sheet_ids(self):
        return SheetId(self.book, [self.sid if isinstance(self.sid, str) else "s%s" % self.sid, self.sid if isinstance(self.sid, int) else 77])

    def open_sibling_sheet(self, sheet_id):
        self.be.log.append(("sibling", self.be.n, self.book, sheet_id))
        return Sheet(self.be, self.book, sheet_id)

    def list_sheetnames(self):
        return []

    def _read_states_matrix(self):
        raise AssertionError()

    def read_rect(self, st, nd):
        raise AssertionError()


class Backend(ABCBackend):
    def __init__(self, n, bid, log, only=None):
        self.n, self.score, self.log, self.only = n, bid, log, only

    def bid(self, wb_url):
        self.log.append(("bid", self.n, wb_url))
        return self.score if self.only is None or self.only in (wb_url or "") else None

    def open_sheet(self, wb_url, sheet_id):
        self.log.append(("open", self.n, wb_url, sheet_id))
        return Sheet(self, wb_url or ACTIVE, sheet_id) if self.score != EMPTY else None

    def list_sheetnames(self, wb_url):
        self.log.append(("list", self.n, wb_url))
        return [self.n, wb_url]


def winners(backends, url):
    scores = [(b.score if b.only is None or b.only in (url or "") else None) for b in backends]
    top = max((s for s in scores if s is not None), default=None)
    return [i for i, s in enumerate(scores) if s is not None and s == top]


def request(ck, sf, backends, log, req, base, cached):
    """Checks one request; returns the sheet fetched."""
    del log[:]
    ck.step()
    kind = req[0]
    if kind == "list":
        got = lib.outcome(sf.list_sheetnames, req[1])
    elif kind == "based":  # The current sheet is of no interest to references with a workbook.
        req = ("fetch",) + req[1:]
        kind = "fetch"
        got = lib.outcome(sf.fetch_sheet, req[1], req[2], base_sheet=base)
    elif kind == "fetch":
        got = lib.outcome(sf.fetch_sheet, req[1], req[2])
    elif kind == "sib":
        got = lib.outcome(sf.fetch_sheet, None, req[1], base_sheet=base)
    else:
        got = lib.outcome(sf.fetch_sheet, None, None, base_sheet=base)
    what = "backends %r, %r of %r" % ([(b.score, b.only) for b in backends], req, base and base.get_sheet_ids())
    if kind == "same":
        ck.check(got == ("ok", base), "same", "%s gave %r", what, got)
        return base
    if kind == "sib":
        key = (base.book, req[1])
        if cached is not None and key in cached:
            ck.check(got == ("ok", cached[key]) and not log, "sibling", "%s gave %r, log: %r", what, got, log)
            return cached[key]
        ok = got[0] == "ok" and isinstance(got[1], Sheet) and (got[1].be, got[1].book, got[1].sid) == (base.be, base.book, req[1])
        ck.check(ok and log == [("sibling", base.be.n, base.book, req[1])], "sibling", "%s gave %r, log: %r", what, got, log)
        return got[1] if ok else None
    url = WBS[req[1]]
    best = winners(backends, url)
    if kind == "fetch" and cached is not None and (req[1], req[2]) in cached:
        ck.check(got == ("ok", cached[req[1], req[2]]) and not log, "cached", "%s gave %r, log: %r", what, got, log)
        return cached[req[1], req[2]]
    if not best:
        ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "no-backend", "%s gave %r", what, got)
        return None
    asked = {e[1] for e in log if e[0] == "bid"}
    urls = {e[2] for e in log}
    acts = [e for e in log if e[0] != "bid"]
    ck.check(urls == {url}, "url", "%s asked with %r, not with %r", what, urls, url)
    ck.check(asked == set(range(len(backends))), "bids", "%s asked only %r", what, asked)
    if kind == "fetch" and backends[best[0]].score == EMPTY:
        ok = got[0] == "ex" and isinstance(got[1], ValueError) and [a[1] in best for a in acts] == [True]
        ck.check(ok, "no-sheet", "%s gave %r by %r, though the backend found no sheet", what, got, acts)
        return None
    if not ck.check(got[0] == "ok" and len(acts) == 1 and acts[0][1] in best, "winner", "%s served by %r -> %r, not by any of %r", what, acts, got, best):
        return None
    if kind == "list":
        ck.check(got[1] == [acts[0][1], url], "list", "%s gave %r", what, got)
        return None
    ok = isinstance(got[1], Sheet) and (got[1].be, got[1].book, got[1].sid) == (backends[acts[0][1]], url or ACTIVE, req[2])
    ck.check(ok and acts[0] == ("open", got[1].be.n, url, req[2]), "sheet", "%s gave %r of %r", what, got, acts)
    return got[1] if ok else None


def make(how, bids, log, only=None):
    backends = [Backend(i, b, log, only and only[i]) for i, b in enumerate(bids)]
    cls = SimpleSheetsFactory if how == "simple" else SheetsFactory
    return cls, backends


def remember(cached, sheet, req, base):
    """The ids a caching factory serves without asking again."""
    if req[0] == "fetch" and req[1] is None:
        return
    ids = sheet.get_sheet_ids()
    wbs = [ids.book, req[1] if req[0] == "fetch" else base.book]
    keys = [(wb, sh) for wb in wbs for sh in ids.ids + [req[-1]]]
    for k in keys:
        old = cached.get(k)
        if old is not None and old is not sheet:
            for o in [o for o in cached if cached[o] is old]:
                del cached[o]
        cached[k] = sheet


def run_case(ck, case):
    os.chdir(CWD)
    kind, bids = case[:2]
    ck.state(case)
    if kind == "two":
        for how in case[3]:
            for reqs in itt.product(REQS, repeat=case[2]):
                log = []
                cls, backends = make(how, bids, log)
                sf = cls(backends)
                base, cached = None, {} if how == "caching" else None
                for req in reqs:
                    if base is None and req[0] in ("sib", "same"):
                        continue
                    sheet = request(ck, sf, backends, log, req, base, cached)
                    if sheet is not None and req[0] != "same":
                        if cached is not None:
                            remember(cached, sheet, req, base)
                        base = sheet
        return
    for how, given in itt.product(HOW, (True, False)):
        log = []
        only = None if kind == "one" else ["http", "xls", "file", "w"]
        cls, backends = make(how, bids, log, only)
        if given and not bids:
            continue
        kept = list(xleash.io_backends)
        try:
            if not given:
                xleash.io_backends[:] = backends
            sf = cls(backends) if given else cls()
            for req in REQS[:-3]:
                base = request(ck, sf, backends, log, req, None, None if how == "simple" else {})
                if base is not None:
                    for r in REQS[-3:] + BASED:
                        request(ck, sf, backends, log, r, base, None if how == "simple" else {})
                        if how != "simple":
                            sf.close()
                if how != "simple":
                    sf.close()
        finally:
            xleash.io_backends[:] = kept
