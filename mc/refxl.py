"""Reference model of xl-refs: a hand-written parser, and a set-based model of capturing.

Independent of the regular expressions & numpy of pandalone: texts are cut at
delimiters and checked char by char; sheets are sets of full cells.
"""
import json

DIRS = {"L": (0, -1), "R": (0, 1), "U": (-1, 0), "D": (1, 0)}
MOVES = ["L", "U", "R", "D", "LD", "LU", "UL", "UR", "RU", "RD", "DL", "DR"]
WS = " \t\r\n\f\v"
DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LETTERS = UPPER + UPPER.lower()


class Syntax(Exception):
    pass


class Value(Exception):
    pass


class Unspecified(Exception):
    """The documentation leaves it open."""


def number(s):
    """Length of the leading positive number (no leading zeros)."""
    if not s or s[0] not in DIGITS[1:]:
        return 0
    i = 1
    while i < len(s) and s[i] in DIGITS:
        i += 1
    return i


def up(s):
    return "".join(UPPER[LETTERS.index(c) % 26] if c in LETTERS else c for c in s)


def edge(text, first):
    """(row, col, moves, modifier) of an edge's text, or None if not one."""
    mov = mod = None
    cell = text
    if text.endswith(")"):
        cell, sep, inside = text[:-1].partition("(")
        if not sep:
            return None
        if inside[-1:] in ("+", "-", "?") and inside:
            inside, mod = inside[:-1], inside[-1]
        mov = up(inside)
        if mov not in MOVES:
            return None
    rc = _a1(cell, first) or _rc(cell)
    return rc and rc + (mov, mod)


def _a1(cell, first):
    i = 0
    while i < len(cell) and cell[i] in LETTERS:
        i += 1
    if not i:
        if cell[:1] not in ("_", "^", ".") or not cell:
            return None
        i = 1
    col, row = cell[:i], cell[i:]
    if row not in ("_", "^", ".") and (not row or number(row) != len(row)):
        return None
    if first and "." in (col, row):
        raise Unspecified("base cell in A1 notation of the 1st edge")
    return (up(row), up(col))


def _rc(cell):
    if cell[:1] not in ("R", "r") or not cell:
        return None
    row, rest = _coord(cell[1:])
    if row is None or rest[:1] not in ("C", "c") or not rest:
        return None
    col, rest = _coord(rest[1:])
    if col is None or rest:
        return None
    return (row, col)


def _coord(s):
    if s[:1] in ("_", "^", ".") and s:
        return s[0], s[1:]
    neg = s.startswith("-")
    n = number(s[neg:])
    return (s[: neg + n], s[neg + n :]) if n else (None, s)


def expansions(text):
    """[(moves, times or None)] of an expansion's text; as round-groups."""
    toks = []
    i = 0
    while i < len(text):
        d = up(text[i])
        if d not in DIRS:
            raise Syntax(text)
        i += 1
        n = number(text[i:])
        if n:
            toks.append((d, int(text[i : i + n])))
            i += n
        elif text[i : i + 1] == "?":
            toks.append((d, 1))
            i += 1
        else:
            toks.append((d, None))
    if not toks:
        raise Syntax(text)
    out = []
    for d, n in toks:
        if n is None and out and out[-1][1] is None:
            out[-1] = (out[-1][0] + d, None)
        else:
            out.append((d, n))
    return out


def call_spec(v):
    """(func, args, kwds), or Value"""
    if isinstance(v, str):
        return (v, [], {})
    if isinstance(v, list):
        if not 1 <= len(v) <= 3 or not isinstance(v[0], str):
            raise Value(v)
        args = kwds = None
        for item in v[1:]:
            if item is None:
                continue
            if isinstance(item, list) and args is None:
                args = item
            elif isinstance(item, dict) and kwds is None:
                kwds = item
            else:
                raise Value(v)
        return (v[0], args or [], kwds or {})
    if isinstance(v, dict):
        if set(v) - {"func", "args", "kwds"} or not isinstance(v.get("func"), str):
            raise Value(v)
        args, kwds = v.get("args"), v.get("kwds")
        if not (args is None or isinstance(args, list)) or not (kwds is None or isinstance(kwds, dict)):
            raise Value(v)
        return (v["func"], args or [], kwds or {})
    raise Value(v)


def fragment(text):
    """The parts of the fragment of an xl-ref, as a dict."""
    i = 0
    while i < len(text) and text[i] in WS:
        i += 1
    text = text[i:]
    colon = text.find(":")
    bang = text.find("!")
    sh = None
    if bang >= 0 and (colon < 0 or bang < colon):
        sh = text[:bang] or None
        text = text[bang + 1 :]
    # Cut at colons, up to the filters.
    parts, js = [], None
    rest = text
    while True:
        head, sep, tail = rest.partition(":")
        parts.append(head)
        if not sep:
            break
        stripped = tail.lstrip(WS)
        if stripped[:1] in ("{", '"', "[") and stripped:
            js = stripped
            break
        rest = tail
    if len(parts) > 3:
        raise Syntax(text)
    open_q = None
    edges = []
    for n, p in enumerate(parts[:2]):
        if p:
            try:
                e = edge(p, n == 0)
            except Unspecified as ex:
                open_q = ex
                e = ("?",) * 4
            if e is None:
                raise Syntax(p)
            edges.append(e)
        else:
            edges.append(None)
    exp = None
    if len(parts) == 3:
        exp = parts[2]
        expansions(exp)
    if open_q:
        raise open_q
    st, nd = edges[0], edges[1] if len(edges) > 1 else None
    two = len(parts) > 1
    if two or not st:
        st = st or ("^", "^", None, None)
        nd = nd or ("_", "_", None, None)
    opts = call = None
    if js is not None:
        try:
            js = json.loads(js)
        except ValueError:
            raise Value("json")
        if isinstance(js, dict) and "opts" in js:
            opts = js.pop("opts")
            if opts is not None and not isinstance(opts, dict):
                raise Value("opts")
        if js == [] or js == "":
            raise Unspecified("no filter")
        if js:
            call = call_spec(js)
    return {"sh_name": sh, "st": st, "nd": nd, "exp": exp, "opts": opts, "call": call}


# ---------------------------------------------------------------- capturing
class Empty(Exception):
    pass


def coord(c, upm, dnm, base):
    if c == "^":
        return upm
    if c == "_":
        return dnm
    if c == ".":
        if base is None:
            raise Value("no base")
        return base
    try:
        n = int(c)
    except ValueError:
        n = 0
        for ch in c:
            if ch not in LETTERS:
                raise Value(c)
            n = n * 26 + (LETTERS.index(ch) % 26) + 1
        return n - 1
    if n == 0:
        raise Value(c)
    if n > 0:
        return n - 1
    n = dnm + n + 1
    if n < 0:
        raise Value(c)
    return n


def margins(full):
    if not full:
        return (0, 0), (0, 0)
    rows = [r for r, _ in full]
    cols = [c for _, c in full]
    return (min(rows), min(cols)), (max(rows), max(cols))


def opposite(full, land, moves, limit):
    """The first full cell scanning lines along the first move, shifting by the second."""
    d1 = DIRS[moves[0]]
    d2 = DIRS[moves[1]] if len(moves) > 1 else None
    start = land
    while 0 <= start[0] <= limit and 0 <= start[1] <= limit:
        cell = start
        while 0 <= cell[0] <= limit and 0 <= cell[1] <= limit:
            if cell in full:
                return cell
            cell = (cell[0] + d1[0], cell[1] + d1[1])
        if not d2:
            break
        start = (start[0] + d2[0], start[1] + d2[1])
    raise Empty()


def same(full, land, moves):
    """The last full cell contiguous to `land`, per direction."""
    r, c = land
    for m in moves:
        dr, dc = DIRS[m]
        cell = land
        while (cell[0] + dr, cell[1] + dc) in full:
            cell = (cell[0] + dr, cell[1] + dc)
        if dr:
            r = cell[0]
        else:
            c = cell[1]
    return (r, c)


def target(full, land, mov, mod, dependent, limit):
    if mov is None:
        return land
    if land not in full:
        return opposite(full, land, mov, limit)
    if mod == "+" or (mod is None and dependent):
        return same(full, land, mov)
    return land


def capture(full, st, nd, exp, base, limit):
    """((r1,c1),(r2,c2)|None); st, nd: (row, col, mov, mod); `limit` lies beyond all full cells & landings."""
    upm, dnm = margins(full)
    b = base or (None, None)
    a = tuple(coord(c, u, d, x) for c, u, d, x in zip(st[:2], upm, dnm, b))
    a = target(full, a, st[2], st[3], False, limit)
    z = None
    if nd:
        z = tuple(coord(c, u, d, x) for c, u, d, x in zip(nd[:2], upm, dnm, a))
        z = target(full, z, nd[2], nd[3], nd[:2] == (".", "."), limit)
    if exp:
        z = z or a
    if z is None:
        return a, None
    r1, r2 = sorted((a[0], z[0]))
    c1, c2 = sorted((a[1], z[1]))
    if exp:
        r1, c1, r2, c2 = expand(full, (r1, c1, r2, c2), exp)
    return (r1, c1), (r2, c2)


def expand(full, rect, exp):
    for moves, times in exp:
        n = 0
        while times is None or n < times:
            n += 1
            before = rect
            for m in moves:
                r1, c1, r2, c2 = rect
                new = {"L": (r1, c1 - 1, r2, c2), "R": (r1, c1, r2, c2 + 1), "U": (r1 - 1, c1, r2, c2), "D": (r1, c1, r2 + 1, c2)}[m]
                if any(
                    new[0] <= r <= new[2] and new[1] <= c <= new[3] and not (r1 <= r <= r2 and c1 <= c <= c2) for r, c in full
                ):
                    rect = new
            if rect == before:
                break
    return rect
