"""X07: the sheet cache, over sequences of adding, fetching, sibling fetching and closing."""
import builtins
import itertools as itt

from pandalone.xleash import ABCSheet, SheetsFactory
from pandalone.xleash.io.backend import ABCBackend, SheetId, SimpleSheetsFactory

from .. import lib

PID = "X07"
W1, W2 = "http://h/w1", "http://h/w2"
MANY = [5, 8, 9, 10, 16, 17, 32, 33, 64, 65]
BIG = "http://h/big"

ALL = ["http://h/all%i" % i for i in range(max(MANY))]
BOOKS = {W1: ["a", "b"], W2: ["a"], BIG: ["s%i" % i for i in range(max(MANY))]}
BOOKS.update((wb, ["a", "b"]) for wb in ALL)
KINDS = {"1a": (W1, "a", 0), "1b": (W1, "b", 1), "2a": (W2, "a", 0)}
N = None
ADDS = [("1a", N, N), ("1a", "x", N), ("1a", N, "n"), ("1a", ["x", "y"], ["n", N]), ("1b", N, N), ("1b", N, 1), ("1b", "x", "b"), ("2a", N, N), ("2a", W1, "a")]
EXCS = ["KeyError", "ValueError", "SyntaxError", "OSError", "KeyboardInterrupt", "GeneratorExit"]
OPS = (
    [("add",) + a for a in ADDS]
    + [("readd", "x", N), ("readd", N, "n"), ("readd", W2, ["n", 0])]
    + [("fetch", W1, s) for s in (N, "a", "b", 0, 1, "n", "0", "zz")]
    + [("fetch", W2, s) for s in (N, "a", 0)]
    + [("fetch", "x", s) for s in (N, "a", "n")]
    + [("sib", -1, s) for s in ("a", "b", N, 0, "1", "zz")]
    + [("sib", 0, s) for s in ("b", "n")]
    + [("foreign", s) for s in ("a", N, 1)]
    + [("close",), ("exit",), ("nothing",)]
    + [("raise", e) for e in EXCS]
    + [("badclose", how, which) for how in ("close", "exit") for which in ("first", "all")]
)
PROBES = [(W1, s) for s in (N, "a", "b", 0, 1, "n", "0", "A", "N", "a ", "")] + [(W2, s) for s in (N, "a", 0, "n")] + [("x", s) for s in (N, "a", "n", "b")] + [("y", "n")]
LONE = [("a",), (0,), (None,), ("a", 0), ("b", "c", "d")]
BOUNDS = {
    "quick": "every sequence of up to 3 out of %i operations (adding sheets of 2 workbooks with and without extra ids, re-adding, fetching by name/index/text-index/extra/unknown id, siblings of cached and foreign sheets, closing, also with sheets that fail to close, leaving the context), then fetching %i ids; "
    "breadth-first search over canonical cache states to depth 5; %s sheets of one workbook, or workbooks, in the cache at once, re-fetched in 3 orders, then closed, also with one of them failing to close; pairs of sheets having 1 to 3 ids; the factory without a cache: siblings by %i ids, and theirs" % (len(OPS), len(PROBES), MANY, 8),
    "thorough": "every sequence of 4 operations; breadth-first search until no new state is found",
}


class Sheet(ABCSheet):
    def __init__(self, log, book, name, idx, how):
        self.log, self.book, self.name, self.idx, self.how = log, book, name, idx, how
        self.n = len(log["sheets"])
        log["sheets"].append(self)
        self.closes = self.all_closes = 0

    def _close(self):
        self.closes += 1

    def _close_all(self):
        self.all_closes += 1
        if self.n in self.log["failing"]:
            raise OSError("cannot close #%i" % self.n)

    def get_sheet_ids(self):
        return SheetId(self.book, [self.name, self.idx])

    def open_sibling_sheet(self, sheet_id):
        return find(self.log, self.book, sheet_id, "sibling")

    def list_sheetnames(self):
        return BOOKS[self.book]

    def _read_states_matrix(self):
        raise AssertionError()

    def read_rect(self, st, nd):
        raise AssertionError()


def find(log, book, sid, how):
    idx = index(book, sid)
    if idx is None:
        raise ValueError("No sheet %r!" % sid)
    return Sheet(log, book, BOOKS[book][idx], idx, how)


def index(book, sid):
    names = BOOKS[book]
    if sid is None:
        return 0
    if sid in names:
        return names.index(sid)
    try:
        sid = int(sid)
    except ValueError:
        return None
    return sid if sid < len(names) else None


class Backend(ABCBackend):
    def __init__(self, log):
        self.log = log

    def bid(self, wb_url):
        return 1 if wb_url in BOOKS else None

    def open_sheet(self, wb_url, sheet_id):
        return find(self.log, wb_url, sheet_id, "opened")

    def list_sheetnames(self, wb_url):
        return BOOKS[wb_url]


def aslist(x):
    return x if isinstance(x, list) else [x]


class Model:
    """Sheets are numbered in order of creation, as the real ones are logged."""

    def __init__(self):
        self.cache = {}
        self.sheets = []  # (book, name, idx, how)
        self.closed = set()

    def canon(self):
        names = {}
        keys = tuple((k, names.setdefault(v, len(names))) for k, v in sorted(self.cache.items(), key=repr))
        live = self.live()
        return keys, tuple(self.sheets[n][:3] for n in names), tuple(names[n] for n in live[:1] + live[-1:])

    def new(self, book, name, idx, how):
        self.sheets.append((book, name, idx, how))
        return len(self.sheets) - 1

    def live(self):
        return sorted(set(self.cache.values()))

    def add(self, n, wbs, shs):
        book, name, idx, _ = self.sheets[n]
        for wb in [book] + aslist(wbs):
            for sh in [name, idx] + aslist(shs):
                if wb:
                    old = self.cache.get((wb, sh))
                    if old is not None and old != n:
                        self.closed.add(old)
                        self.cache = {k: v for k, v in self.cache.items() if v != old}
                    self.cache[(wb, sh)] = n

    def fetch(self, wb, sh, base=None):
        """The sheet's number, or None when refused."""
        how, book = "opened", wb
        if base is not None:
            if sh is None:
                return base
            how, wb = "sibling", self.sheets[base][0]
            book = wb
        n = self.cache.get((wb, sh))
        if n is None:
            idx = index(book, sh) if book in BOOKS else None
            if idx is None:
                return None
            n = self.new(book, BOOKS[book][idx], idx, how)
            self.add(n, wb, sh)
        return n


def apply_model(m, op):
    """(result, closed all)"""
    kind = op[0]
    if kind == "add":
        m.add(m.new(*KINDS[op[1]] + ("added",)), op[2], op[3])
    elif kind == "readd":
        if m.live():
            m.add(m.live()[-1], op[1], op[2])
    elif kind == "fetch":
        return m.fetch(op[1], op[2])
    elif kind == "sib":
        if m.live():
            return m.fetch(None, op[2], m.live()[op[1]])
    elif kind == "foreign":
        return m.fetch(None, op[1], m.new(W1, "a", 0, "foreign"))
    elif kind in ("close", "exit", "raise", "badclose"):
        m.cache = {}
    return "-"


def apply_impl(sf, log, op, live):
    kind = op[0]
    if kind == "add":
        sf.add_sheet(Sheet(log, *KINDS[op[1]] + ("added",)), op[2], op[3])
    elif kind == "readd":
        if live:
            sf.add_sheet(log["sheets"][live[-1]], op[1], op[2])
    elif kind == "fetch":
        return sf.fetch_sheet(op[1], op[2])
    elif kind == "sib":
        if live:
            return sf.fetch_sheet(None, op[2], base_sheet=log["sheets"][live[op[1]]])
    elif kind == "foreign":
        return sf.fetch_sheet(None, op[1], base_sheet=Sheet(log, W1, "a", 0, "foreign"))
    elif kind == "close":
        sf.close()
    elif kind == "raise":
        exc = getattr(builtins, op[1])("leaving")
        try:
            with sf:
                raise exc
        except BaseException as ex:
            if ex is not exc:
                raise AssertionError("leaving the context due to %r raised %r" % (exc, ex))
        else:
            raise AssertionError("leaving the context hid %r" % exc)
    elif kind == "badclose":
        log["failing"] = {"first": live[:1], "last": live[-1:], "all": live}[op[2]]
        try:
            if op[1] == "close":
                sf.close()
            else:
                with sf:
                    pass
        except OSError:
            if not live:
                raise
        else:
            if live:
                raise AssertionError("sheets failed to close unnoticed")
        finally:
            log["failing"] = []
    elif kind == "exit":
        with sf as s:
            if s is not sf:
                raise AssertionError("entering the context gave %r" % s)
    return "-"


def run_ops(ck, ops, probe=True):
    log = {"sheets": [], "failing": []}
    sf = SheetsFactory([Backend(log)])
    m = Model()
    for op in ops + (tuple(("fetch",) + p for p in PROBES) + (("close",),) if probe else ()):
        live = m.live()
        want = apply_model(m, op)
        ck.step()
        got = lib.outcome(apply_impl, sf, log, op, live)
        sheets = log["sheets"]
        if want is None:
            ok = got[0] == "ex" and not isinstance(got[1], AssertionError)
        elif want == "-":
            ok = got == ("ok", "-")
        else:
            ok = got[0] == "ok" and getattr(got[1], "n", None) == want
        if not ck.check(ok, "result", "%r in %r gave %r, not sheet #%r", op, ops, got, want):
            return None
        made = [(s.book, s.name, s.idx, s.how) for s in sheets]
        if not ck.check(made == m.sheets, "opened", "after %r in %r, sheets made are %r, not %r", op, ops, made, m.sheets):
            return None
        if op[0] in ("close", "exit", "raise", "badclose"):
            left = [n for n in live if not (sheets[n].all_closes or sheets[n].closes)]
            if not ck.check(not left, "left-open", "closing %r left sheets %r open", ops, left):
                return None
            m.closed.update(live)
            for n in live:
                sheets[n].closes = 1
        bad = [s.n for s in sheets if (s.closes or s.all_closes and s.n not in m.closed) != (1 if s.n in m.closed else 0)]
        if not ck.check(not bad, "closed", "after %r in %r, sheets %r closed %r times, expected closed: %r", op, ops, bad, [sheets[n].closes for n in bad], sorted(m.closed)):
            return None
        if op[0] in ("fetch", "sib") and isinstance(want, int) and not ck.check(want not in m.closed, "dead", "%r gave a closed sheet", op):
            return None
    return m


def many(n):
    """Long histories, filling the cache with `n` sheets."""
    books = [("fetch", wb, s) for wb in ALL[:n] for s in (N, "b")][: n + 1]
    sheets = [("fetch", BIG, i) for i in range(n)]
    sibs = [("fetch", BIG, 0)] + [("sib", 0, "s%i" % i) for i in range(1, n)]
    mixed = [op for pair in zip(books, sheets) for op in pair]
    named = [("fetch", BIG, "s%i" % i) for i in range(n)]
    for fill in (books, sheets, sibs, mixed):
        for again in (fill, fill[::-1], named if fill in (sheets, sibs) else fill[::2]):
            for end in (("close",), ("badclose", "close", "first"), ("badclose", "exit", "last"), ("badclose", "close", "all"), ("raise", "ValueError")):
                yield tuple(fill + again + [end] + fill[:3])
    yield tuple(books + [("add", "1a", [str(i) for i in range(n)], list(range(3, 3 + n)))] + [("fetch", str(i), 3 + i) for i in range(n)])
    yield tuple([("add", "1a", "x", N), ("add", "1b", [str(i) for i in range(n)], "n")] * n + [("fetch", "x", N)])


def run_case(ck, case):
    if case[0] == "lone":
        return lone(ck, *case[1:])
    if case[0] == "plain":
        return plain(ck, *case[1:])
    m = run_ops(ck, case)
    if m:
        ck.state(case)


def bfs(ck, depth):
    seen = {Model().canon(): ()}
    frontier = [()]
    for d in range(depth or 99):
        if not frontier:
            ck.extra["bfs_closed_at_depth"] = d
            break
        nxt = []
        for hist in frontier:
            for op in OPS:
                h = hist + (op,)
                m = Model()
                for o in h:
                    apply_model(m, o)
                c = m.canon()
                ck.begin(h)
                if run_ops(ck, h, probe=c not in seen) is None and ck.vcount > 50:
                    return
                ck.traces += 1
                if c not in seen:
                    seen[c] = h
                    ck.state(c)
                    nxt.append(h)
        frontier = nxt
        ck.extra["bfs_depth_%i_states" % (d + 1)] = len(nxt)
    ck.extra["bfs_states"] = len(seen)


def cases(tier):
    for n in range(1, (3 if tier == "quick" else 4) + 1):
        for ops in itt.product(OPS, repeat=n):
            yield ops
    for n in MANY:
        for ops in many(n):
            yield ops
    for ids in itt.product(LONE, repeat=2):
        for how in ("close", "exit", "raise"):
            yield ("lone", ids, how)
    for base in KINDS:
        for sids in itt.product(SIDS, repeat=2):
            yield ("plain", base, sids)


SIDS = [N, "a", "b", 0, 1, "0", "1", "zz"]


def plain(ck, kind, sids):
    """The factory without a cache: siblings of a sheet, and of its siblings."""
    log = {"sheets": [], "failing": set()}
    sf = SimpleSheetsFactory(backends=[Backend(log)])
    wb, name, idx = KINDS[kind]
    base = Sheet(log, wb, name, idx, "added")
    for sid in sids:
        for url in (N, W1, W2):
            if url is not N and sid is not sids[0]:
                continue
            ck.step()
            exp = index(url or base.book, sid)
            got = lib.outcome(sf.fetch_sheet, url, sid, base_sheet=base)
            what = "fetching %r, %r next to sheet %i of %s" % (url, sid, base.idx, base.book)
            if url is N and sid is N:
                ck.check(got == ("ok", base), "plain-same", "%s gave %r", what, got)
            elif exp is None:
                ck.check(got[0] == "ex" and isinstance(got[1], ValueError), "plain-unknown", "%s gave %r", what, got)
            elif ck.check(got[0] == "ok" and isinstance(got[1], Sheet), "plain", "%s gave %r", what, got):
                s = got[1]
                ck.check((s.book, s.idx, s.how) == (url or base.book, exp, "opened" if url else "sibling"), "plain", "%s gave sheet %i of %s, %s", what, s.idx, s.book, s.how)
                if url is N:
                    base = s
    ck.state(("plain", kind, sids))


def lone(ck, ids, how):
    """Sheets known by very few ids, added without any more."""
    log = {"sheets": [], "failing": set()}
    sheets = []
    for i, (sh_ids, wb) in enumerate(zip(ids, (W1, W2))):
        s = Sheet(log, wb, "a", i, "added")
        s.get_sheet_ids = lambda r=SheetId(wb, list(sh_ids)): r
        sheets.append(s)
    sf = SheetsFactory(backends=[Backend(log)])
    try:
        with sf:
            for s in sheets:
                sf.add_sheet(s)
            for s in sheets:
                wb, sh_ids = s.get_sheet_ids()
                for sid in sh_ids:
                    ck.step()
                    got = lib.outcome(sf.fetch_sheet, wb, sid)
                    ck.check(got == ("ok", s), "lone", "fetching %r, %r out of sheets having %r gave %r", wb, sid, ids, got)
            if how == "close":
                sf.close()
            if how == "raise":
                raise KeyError("some")
    except KeyError:
        pass
    ck.state(("lone", ids, how))
    for s in sheets:
        ck.check(s.all_closes >= 1, "lone-closed", "a sheet having ids %r was not closed", s.get_sheet_ids())


def explore(ck):
    import sys

    lib.run_sharded(sys.modules[__name__], ck)
    if not ck.vcount:
        bfs(ck, 5 if ck.quick else None)
