"""Mutants of pandalone's source: which pass the repository's tests, and which check catches them.

usage: mutate.py list                      -- all mutants, one per line
       mutate.py tests OUT.jsonl [FILTER]  -- run the stable tests on each (8 scratch copies)
       mutate.py checks OUT.jsonl RES.jsonl COVDIR -- run the covering checks on those which passed

A development aid (planting bugs in bulk); no registered check uses it.
"""
import warnings; warnings.simplefilter("ignore")
import ast, json, os, subprocess, sys, glob, shutil, concurrent.futures as cf, queue, hashlib

REPO = "/repo"
FILES = ["components.py", "mappings.py", "pandata.py", "utils.py", "xlsutils.py", "winutils.py",
         "xleash/__init__.py", "xleash/_capture.py", "xleash/_filter.py", "xleash/_lasso.py", "xleash/_pandas_filters.py",
         "xleash/_parse.py", "xleash/io/_xlrd.py", "xleash/io/backend.py"]
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: None, ast.BitAnd: "|", ast.BitOr: "&", ast.FloorDiv: "*", ast.Div: "*"}


def mutants(rel):
    fn = "%s/pandalone/%s" % (REPO, rel)
    src = open(fn, encoding="utf8").read()
    data = src.encode("utf8")
    starts = [0]
    for l in data.split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    tree = ast.parse(src)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode("utf8")

    out = []

    def put(n, new, kind):
        a, b = span(n)
        old = data[a:b].decode("utf8")
        if old == new:
            return
        res = (data[:a] + new.encode("utf8") + data[b:]).decode("utf8")
        try:
            ast.parse(res)
        except SyntaxError:
            return
        out.append((n.lineno, kind, old, new, res))

    def visit(n, fnname):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fnname = n.name
            for i, d in enumerate(getattr(getattr(n, "args", None), "defaults", [])):
                visit(d, fnname)
            for s in n.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                visit(s, fnname)
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            if isinstance(n, ast.Raise):
                put(n, "pass", "del-raise")
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and text(n.func).startswith(("log.", "warnings.")):
            return
        if fnname == "__repr__":
            return
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "(not (%s))" % text(n.test) if 0 else "True", "cond-true")
            put(n.test, "False", "cond-false")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "cmp")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + o2.join("(%s)" % text(v) for v in rest) + ")", "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, "(%s)" % text(n.operand), "drop-unary")
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, "%s %s %s" % (text(n.left), BIN[type(n.op)], text(n.right)), "binop")
            put(n, "(%s)" % text(n.left), "drop-right")
            put(n, "(%s)" % text(n.right), "drop-left")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "bool-const")
            elif isinstance(v, int):
                put(n, str(v + 1), "int+1")
                if v > 0:
                    put(n, str(v - 1), "int-1")
            elif isinstance(v, str) and v:
                put(n, '""', "str-empty")
                if len(v) < 6:
                    put(n, repr(v + "x"), "str-x")
            return
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, "(%s)" % text(n.value), "drop-slice")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = span(n)
                    o = text(n)
                    ks = text(k)
                    for pat in (", " + ks, ks + ", ", ks):
                        if pat in o:
                            put(n, o.replace(pat, "", 1), "drop-kw")
                            break
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
                put(n, "(%s)" % text(n.args[0]), "drop-call")
            if isinstance(n.func, ast.Attribute) and not n.keywords:
                put(n, "(%s)" % text(n.func.value), "drop-method")
            if len(n.args) == 2 and not n.keywords:
                o = text(n)
                put(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "swap-args")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            put(n, "pass", "del-stmt")
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "ret-none")
        if isinstance(n, ast.Continue):
            put(n, "break", "continue->break")
        if isinstance(n, ast.Break):
            put(n, "pass", "del-break")
        for c in ast.iter_child_nodes(n):
            visit(c, fnname)

    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            visit(s, "")
    seen = set()
    for lineno, kind, old, new, res in out:
        if res in seen:
            continue
        seen.add(res)
        yield {"id": hashlib.md5((rel + res).encode()).hexdigest()[:10], "file": rel, "line": lineno, "kind": kind, "old": old[:200], "new": new[:200], "src": res}


def allm():
    for f in FILES:
        yield from mutants(f)


ENV = None


def env(copy):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=copy + ":/tmp/w")
    return e


def copies(n):
    q = queue.Queue()
    for i in range(n):
        c = "/tmp/mutcopy.%s.%i" % (os.getpid(), i)
        shutil.rmtree(c, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, c])
        q.put(c)
    return q


def with_copy(q, m, fn):
    c = q.get()
    p = "%s/pandalone/%s" % (c, m["file"])
    orig = open("%s/pandalone/%s" % (REPO, m["file"]), encoding="utf8").read()
    try:
        open(p, "w", encoding="utf8").write(m["src"])
        return fn(c, m)
    finally:
        open(p, "w", encoding="utf8").write(orig)
        q.put(c)


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run_tests(c, m):
    x = c + ".xml"
    if os.path.exists(x):
        os.unlink(x)
    first = {"m": "tests/test_mappings.py", "c": "tests/test_components.py", "p": "tests/test_pandata.py", "u": "tests/test_utils.py"}.get(m["file"][0])
    if m["file"].startswith("xleash"):
        first = "tests/test_xleash.py"
    if first:
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vpearly", "--timeout=60", first, "pandalone/" + m["file"]], cwd=c, env=env(c), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if r.returncode == 2:
                return False
        except subprocess.TimeoutExpired:
            return False
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vpearly", "--timeout=60", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=c, env=env(c), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
    except subprocess.TimeoutExpired:
        return False
    j = c + ".json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", j, "junit:" + x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        return not (STABLE - set(json.load(open(j))["passed"]))
    except Exception:
        return False


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        n = 0
        for m in allm():
            n += 1
            print(m["id"], m["file"], m["line"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]))
        print(n)
    elif cmd == "tests":
        out = sys.argv[2]
        done = set()
        if os.path.exists(out):
            done = {json.loads(l)["id"] for l in open(out)}
        ms = [m for m in allm() if m["id"] not in done and (len(sys.argv) < 4 or sys.argv[3] in m["file"])]
        q = copies(8)
        with open(out, "a") as f, cf.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(with_copy, q, m, run_tests): m for m in ms}
            for fu in cf.as_completed(futs):
                m = dict(futs[fu])
                m["pass"] = fu.result()
                m.pop("src")
                f.write(json.dumps(m) + "\n")
                f.flush()
    elif cmd == "checks":
        tests, res, cov = sys.argv[2:5]
        npar = int(os.environ.get("MUT_PAR", "8"))
        limit = int(os.environ.get("MUT_LIMIT", "60"))
        only = os.environ.get("MUT_ONLY", "").split() or None
        covers, size = {}, {}
        for fn in glob.glob(cov + "/*.json"):
            pid = os.path.basename(fn).split("-")[0]
            for rel, no in json.load(open(fn)):
                covers.setdefault((rel, no), set()).add(pid)
        survived = {m["id"] for m in map(json.loads, open(tests)) if m["pass"]}
        done = set()
        if os.path.exists(res):
            done = {json.loads(l)["id"] for l in open(res)}
        ms = [m for m in allm() if m["id"] in survived and m["id"] not in done and os.environ.get("MUT_FILE", "") in m["file"]]
        if only:
            ms = [m for m in ms if m["id"] in only]
        PREF = {"mappings.py": "M", "pandata.py": "D", "utils.py": "U", "components.py": "C", "xlsutils.py": "U"}
        walls = {}
        for fn in glob.glob("/verif/evidence/*.json"):
            walls[os.path.basename(fn)[:-5]] = json.load(open(fn))["wall_s"]

        def run_checks(c, m):
            pids = set()
            for d in range(9):
                pids = pids or covers.get((m["file"], m["line"] - d), set())
            fav = {"mappings.py": "M02 M05 M04 M03 M01", "xleash/_capture.py": "X01 X02 X03 X04 X06 X05", "xleash/_parse.py": "X05 X03 X06 X11", "xleash/_filter.py": "X11 X12 X10 X06",
                   "xleash/_lasso.py": "X06 X11 X05 X04 X07", "xleash/_pandas_filters.py": "U06", "utils.py": "U01 U02 U03 U04 U07 U08", "xlsutils.py": "U05 X13", "winutils.py": "U10 U07", "xleash/__init__.py": "X13 X06 X07", "xleash/io/_xlrd.py": "X09 X07 X08", "xleash/io/backend.py": "X08 X07 X04 X09 X06"}.get(m["file"])
            if fav and pids & set(fav.split()):
                pids &= set(fav.split())
            pref = PREF.get(m["file"], "X")
            tried = []
            for pid in sorted(pids, key=lambda p: (not p.startswith(pref), walls.get(p, 99))):
                e = env(c)
                e.update(VP_REPO=c, VP_NPROC="1", VP_MAXV="1", VP_SHARDS="61")
                try:
                    r = subprocess.run(["timeout", "-k", "5", str(limit), "/verif/run.sh", pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    rc, o = r.returncode, r.stdout.decode("utf8", "replace")
                except Exception as ex:
                    rc, o = -1, str(ex)
                tried.append((pid, rc))
                if rc == 1 and "VIOLATION property=" in o:
                    return pid, tried
                if rc not in (0, 124, 137):
                    tried.append(o[-400:])
            return None, tried

        q = copies(npar)
        with open(res, "a") as f, cf.ThreadPoolExecutor(npar) as ex:
            futs = {ex.submit(with_copy, q, m, run_checks): m for m in ms}
            for fu in cf.as_completed(futs):
                m = dict(futs[fu])
                m.pop("src")
                m["caught"], m["tried"] = fu.result()
                f.write(json.dumps(m) + "\n")
                f.flush()


main()
