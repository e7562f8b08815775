"""X05: xl-refs parse as the hand-written parser says, over sentences, their mutants, and all short texts."""
import itertools as itt
import json

from pandalone.xleash import parse_xlref

from .. import lib, refxl

PID = "X05"
SHEETS = ["", "!", "0!", "Sheet 1!", "  s!", " !", "a#b!", "R1C1!", "\u00e9,;()[]!", "\u201e\u2018`\u2019!"]
CELLS = ["A1", "zz10", "_^", "^_", "^^", "__", "A_", "_3", "R1C1", "R-1C2", "r_c.", "R.C^", "R10C-12", "XFD1048576", "RC5", "R5", "c4", "r1048576c16384"]
DEPS = ["..", "._", "^.", "A.", ".7", ".^"]
MODS = ["", "+", "-", "?"]
EDGES1 = [c + m for c in CELLS for m in [""] + ["(%s%s)" % (v, d) for v in refxl.MOVES for d in MODS]]
EDGES2 = [c + m for c in CELLS + DEPS for m in [""] + ["(%s%s)" % (v, d) for v in refxl.MOVES for d in MODS]]
FEW1 = ["", "A1", "b2(lu)", "^_(Dr+)", "R1C-2", "r.C_(U?)", "R-3C3(RD-)"]
FEW2 = ["", "C3", "..(dR)", "_.(u-)", "R-1C-1(LD+)", "__"]
EXPS = ["L", "lurd", "R1", "U12D", "L?R?", "LU1URD?", "d10L20", "RULDR1"]
FILTERS = [
    '"f"', '["f"]', '["f", [1, "a:b"]]', '["f", {"k": "v!"}]', '["f", {"k": null}, [2]]', '["f", [], {}]', '["f", null, {"a": 1}]', '{"func": "f"}', '{"func": "f", "args": ["!:[1]"], "kwds": {"x": "#y!:"}}',
    '{"opts": {"lax": true}}', '{"opts": {}, "func": "f"}', '{"opts": null, "args": null, "func": "g"}', '["pipe", ["dict", ["recurse", ["x"]]]]', ' {"opts": {"a": {"b": [1]}}} ', '{}', '"\u00e9 \\"q\\" \\\\"', '["f", ["a!:\\"b"]]', '["f", ["\u201e\u00ab\u2018\u2019\uff02`\u00a0"]]', '"s!A1"', '["a!:b"]',
    '["f", [[1], {"a": []}], {"b": [null, true, 1.5, -2e3]}]', '{"kwds": {"lax": false}, "func": "h"}',
]
BADFILTERS = [
    '"f', '["f"', '{"func": "f"', "{'f'}", '["f"] x', '[1]', '["f", 1]', '["f", "a"]', '["f", [], []]', '["f", {}, {}]', '["f", [], {}, []]', '{"func": 1}', '{"args": []}', '{"func": "f", "x": 1}', '{"func": "f", "args": {}}', '{"func": "f", "kwds": []}', '{"opts": []}',
    '{"opts": "x", "func": "f"}', '["f", null, null, null]', '[null]', '[["f"]]', '{"func": ["f"]}', '{"opts": 1}', '[true]', '{"func": null}', '["f", 0]', '["f", false]', '["f", ""]', '{"func": "f", "args": 0}', '{"func": "f", "args": ""}', '{"func": "f", "kwds": 0}',
]
URLS = ["", "wb.xlsx", "file:///a/b c.xlsx", "http://h.org:80/p/wb.xls?a=b&c=d", "../x/y.XLSM", "/abs/wb.xlsx", "%41.xls", "$HOME/wb.xls"]
ENCASE = ["", "/", "\\", '"', "$", "%", "&"]
CHARS = ["A", "1", "0", "R", "C", "L", "^", "_", ".", "(", ")", "+", ":", "!", "-", "?", '"', " "]
EDITS = ["A", "z", "R", "c", "1", "0", "9", "^", "_", ".", "-", "+", "?", "(", ")", ":", "!", "[", "]", "{", '"', ",", " ", "L", "d", "#", "\u0131", "\u212a", "\u0663", "\\", "/"]
BASES = [
    "A1", "zz10(LU)", "^_(dr+)", "R1C-2", "r.C_(U?):..", "A1:B2", "a1(L-):C_(UL)", ":", "sh!", "s h!:", "A1:..(RD):LURD", "A1::L2?U", "::LU10", "_^(D):R-1C.(L+):L1R2U3D4",
    'A1:"f"', 'A1::["f",[1]]', '::L:{"func":"f"}', 'x!B2:_.:"a!:b"', 'A1:B2:U:{"opts":{"a":1}}', 'R10C12(DL):R-20C3(RU?):LLR3:"g"', 'A1:["f",{"a":[]},["b"]]', ':{"opts":{"lax":true},"func":"x"}',
]
SIZES = [2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 32, 33, 64, 65, 128, 257]
BOUNDS = {
    "quick": "every edge alone (%i first, %i second); every combination of %i sheets x %i first x %i second edges x %i expansions x %i filters; %i malformed filters; "
    "120 sentences with a part (number, column, expansion, sheet-name, url, filter) of %s characters or elements; "
    "filters written on many lines; %i URLs x %i encasings; every one-character edit (of %i characters) of %i sentences; every text up to length 5 of %i characters"
    % (len(EDGES1), len(EDGES2), len(SHEETS), len(FEW1), len(FEW2), 1 + len(EXPS), 1 + len(FILTERS), len(BADFILTERS), SIZES, len(URLS), len(ENCASE), len(EDITS), len(BASES), len(CHARS)),
    "thorough": "also every pair of edges, every two-characters edit of the sentences, and texts up to length 6",
}
ASSUMPTIONS = [
    "a base cell ('.') in A1-notation of the first edge, empty filters ([] or empty text), an empty fragment, and line-breaks other than between the tokens of a filter are left open",
    "malformed filters are to raise value errors, as documented, once the rest has matched the grammar",
]


def cases(tier):
    deep = tier != "quick"
    for n in range(0, len(EDGES1), 25):
        yield ("edges", 1, n)
    for n in range(0, len(EDGES2), 25):
        yield ("edges", 2, n)
    if deep:
        for n in range(len(EDGES1)):
            yield ("pairs", n)
    for f in range(len(FILTERS)):
        yield ("lines", f)
    for s in range(len(SHEETS)):
        for a in range(len(FEW1)):
            yield ("combine", s, a)
    for b in range(len(BADFILTERS)):
        yield ("bad", b)
    for u in range(len(URLS)):
        yield ("url", u)
    for n in SIZES:
        yield ("sized", n)
    for b in range(len(BASES)):
        n = len(BASES[b]) + 1
        for i in range(n):
            yield ("mutant", b, i, deep)
    for pre in itt.product(range(len(CHARS)), repeat=2):
        yield ("short", pre, 4 if deep else 3)




def sized(n):
    """Sentences with a part of `n` characters or elements."""
    num = ("12345678901" * n)[:n]
    for e in ("A" + num, "abcxyz"[: n % 6 + 1] * (n // 6 + 1) + "1", "R%sC%s" % (num, num[::-1].lstrip("0") or "1"), "R-%sC%s" % (num, num), "r1C-" + num, "A" * n + "^", "_" + num):
        for frag in (e, "%s(LU)" % e, ":" + e, "B2:%s(d+)" % e, "%s:..(RD)" % e, "%s::LU%s" % (e, num)):
            yield frag
    for x in ("LURD" * n, "L" * n, "".join("LURD"[i % 4] + str(i + 1) for i in range(n)), "R?" * n, "L" + num, "".join("lu"[i % 2] + ("", "?", "3")[i % 3] for i in range(n)), "R" * n + "0", "L1" * n + "X"):
        yield "A1::" + x
        yield ":C3(U):" + x + ':"f"'
    for s in ("s" * n, "s h" * n, "\u00e9" * n, "1" * n, "A1" * n):
        yield s + "!A1:B2"
        yield s + '!:"f"'
    js = ['"%s"' % ("f" * n), "[%s]" % ",".join(['"f"'] + [str(list(range(n)))]), '{"func": "f", "args": %s}' % ("[" * n + "]" * n), '["f", {%s}]' % ", ".join('"k%i": %i' % (i, i) for i in range(n)), '{"opts": {%s}, "func": "g"}' % ", ".join('"o%i": [%i]' % (i, i) for i in range(n))]
    js += ['["pipe", %s]' % ("[%s]" % ", ".join('["f%i", [":!%i"]]' % (i, i) for i in range(n))), '["f", %s]' % ("[" * n + "]" * (n - 1)), '["f"%s]' % (", null" * n), '["f", ["%s"]]' % (":" * n), '["f", ["%s"]]' % ('\\"' * n)]
    for j in js:
        for pre in ("", "A1", "A1:B2:L", "s!"):
            yield pre + ":" + j
            yield pre + ":" + " " * n + j


def got_parts(res):
    def edge(e):
        return e and (e.land.row, e.land.col, e.mov, e.mod)

    return {
        "sh_name": res["sh_name"], "st": edge(res["st_edge"]), "nd": edge(res["nd_edge"]), "exp": res["exp_moves"], "opts": res["opts"],
        "call": res["call_spec"] and (res["call_spec"].func, list(res["call_spec"].args), dict(res["call_spec"].kwds)),
    }


def one(ck, frag, url="", enc="", parsed=None):
    # An URL-fragment loses line-breaks and tabs, and needs something to parse.
    text = enc + url + "#" + frag + enc
    ck.step()
    st, got = lib.outcome(parse_xlref, text)
    if parsed is None:
        try:
            parsed = refxl.fragment(frag)
        except refxl.Unspecified:
            return
        except refxl.Syntax:
            parsed = SyntaxError
        except refxl.Value:
            parsed = ValueError
    if isinstance(parsed, type):
        ck.check(
            st == "ex" and isinstance(got, parsed), "accepts" if st == "ok" else "wrong-error", "parsing %r gave %r, not a %s", text, got, parsed.__name__
        )
        return
    ck.state(frag)
    if st != "ok":
        ck.fail("refuses", "parsing %r raised %r, not %r" % (text, got, parsed))
        return
    parts = got_parts(got)
    ck.check(parts == parsed, "parts", "parsing %r gave %r, not %r", text, parts, parsed)
    ck.check(got["url_file"] == (url or None), "url", "parsing %r gave url %r", text, got["url_file"])
    ck.check(got["xl_ref"] == text, "xl_ref", "parsing %r gave as the ref itself %r", text, got["xl_ref"])


def case_variants(e):
    return {e, e.lower(), e.upper(), e.swapcase()}


def run_case(ck, case):
    kind = case[0]
    if kind == "edges":
        texts = (EDGES1 if case[1] == 1 else EDGES2)[case[2] : case[2] + 25]
        for e in texts:
            for v in sorted(case_variants(e)):
                for frag in [v, v + ":", v + "::L1"] if case[1] == 1 else [":" + v, "A1:" + v, "b2(l+):" + v + ":U", "!:" + v + ':"f"']:
                    one(ck, frag)
    elif kind == "sized":
        for frag in sized(case[1]):
            one(ck, frag)
            one(ck, frag, "dir/" * case[1] + "wb.xlsx")
    elif kind == "pairs":
        for e in EDGES2:
            one(ck, EDGES1[case[1]] + ":" + e)
    elif kind == "combine":
        for b, x, f in itt.product([None] + FEW2, [None] + EXPS, [None] + FILTERS):
            if b is None and x is not None:
                continue
            frag = SHEETS[case[1]] + FEW1[case[2]] + "".join(":" + p for p in (b, x, f) if p is not None)
            if frag:
                one(ck, frag)
    elif kind == "bad":
        for s, a, b, x in itt.product(["", "sh!"], FEW1, [None] + FEW2[:3], [None] + EXPS[:2]):
            if b is None and x is not None:
                continue
            one(ck, s + a + "".join(":" + p for p in (b, x, BADFILTERS[case[1]]) if p is not None))
    elif kind == "lines":
        try:
            js = json.loads(FILTERS[case[1]])
        except ValueError:
            return  # not all of them are filters
        flat = json.dumps(js)
        for nl, sp, (a, b) in itt.product(["\n", "\r\n"], ["", " ", "\n"], [(",", ":"), (", ", ": ")]):
            text = json.dumps(js, indent=1, separators=(a, b)).replace("\n", nl)
            for pre in ("A1:", ":", "sh!A1:B2:LU:", "A1:_^(U):"):
                try:
                    exp = refxl.fragment(pre + flat)
                except refxl.Syntax:
                    continue
                except refxl.Value:
                    exp = ValueError
                for enc in ENCASE:
                    for url in ("", "wb.xlsx"):
                        one(ck, pre + sp + text + sp, url, enc, exp)
    elif kind == "url":
        for enc in ENCASE:
            for frag in BASES + ["A1(", "A", "A1:1L", 'A1:"f', "A1::L0", ":[1]"]:
                one(ck, frag, URLS[case[1]], enc)
            for text in ("A1:B1", "A1", "", "sh!A1", '["f"]'):  # no fragment at all
                text = enc + URLS[case[1]].partition("#")[0] + text + enc
                ck.step()
                st, got = lib.outcome(parse_xlref, text)
                ck.check(st == "ex" and isinstance(got, SyntaxError), "no-fragment", "parsing %r gave %r", text, got)
        if not case[1]:
            for frag in ("sh!A1:B2:\u201cf\u201d", ":{\u201cfunc\u201d: \u201cg\u201d}"):
                ck.step()
                st, got = lib.outcome(parse_xlref, "#" + frag)
                exp = refxl.fragment(frag.replace("\u201c", '"').replace("\u201d", '"'))
                ck.check(st == "ok" and got_parts(got) == exp, "excel-quotes", "parsing %r gave %r", frag, got)
    elif kind == "mutant":
        base, i, deep = BASES[case[1]], case[2], case[3]
        firsts = {base[:i] + base[i + 1 :]} | {base[:i] + c + base[i + d :] for c in EDITS for d in (0, 1)}
        for m in sorted(firsts):
            if m:
                one(ck, m)
            if deep:
                for j in range(i, len(m) + 1):
                    for n in [m[:j] + m[j + 1 :]] + [m[:j] + c + m[j + d :] for c in EDITS for d in (0, 1)]:
                        if n:
                            one(ck, n)
    else:
        pre = "".join(CHARS[i] for i in case[1])
        if case[1][0] == case[1][1] == 0:
            for c in CHARS:
                one(ck, c)
        for n in range(case[2] + 1):
            for more in itt.product(CHARS, repeat=n):
                one(ck, pre + "".join(more))
