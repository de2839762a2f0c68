"""Small mechanical changes to the package, each tried against the checks.

    mutate.py list                      number of changes per file
    mutate.py run [--files a,b] [--jobs N] [--every K --offset J] OUT.jsonl
                                        resumes: changes already in OUT.jsonl are not tried again
    mutate.py show OUT.jsonl            those that no check caught
"""
import ast
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "python/lsst/skymap/"
FILES = ["baseSkyMap.py", "cachingSkyMap.py", "cellInfo.py", "discreteSkyMap.py", "dodecaSkyMap.py", "equatSkyMap.py",
         "healpixSkyMap.py", "packers.py", "patchInfo.py", "ringsSkyMap.py", "tractBuilder.py", "tractInfo.py",
         "detail/dodecahedron.py", "detail/utils.py", "detail/wcsFactory.py"]
TMP = "/tmp/mutw.%d" % os.getpid()
ORDER = {
    "baseSkyMap.py": "C24 C16 C20 C21 C05 C01 C03 C19 C13 C14 C15 C27 C18 C11 C28 C29",
    "cachingSkyMap.py": "C19 C27 C28 C15 C13 C14 C24 C16",
    "cellInfo.py": "C26 C10 C09 C12 C15",
    "discreteSkyMap.py": "C18 C16 C24 C15 C01 C11 C27 C02",
    "dodecaSkyMap.py": "C18 C01 C15 C16 C24 C11 C02 C13",
    "equatSkyMap.py": "C18 C01 C15 C16 C24 C11 C02 C13",
    "healpixSkyMap.py": "C18 C01 C16 C15 C24 C02 C11 C03",
    "packers.py": "C22 C23 C14 C13",
    "patchInfo.py": "C26 C10 C09 C12 C08 C15 C07 C13",
    "ringsSkyMap.py": "C17 C01 C03 C04 C05 C27 C16 C15 C12 C02 C24 C13 C14",
    "tractBuilder.py": "C28 C07 C08 C11 C16 C24 C09 C26 C10 C13 C15",
    "tractInfo.py": "C06 C05 C11 C12 C26 C08 C07 C25 C19 C02 C28 C18 C13 C04 C14 C15",
    "detail/dodecahedron.py": "C30 C18 C01 C02 C15 C13",
    "detail/utils.py": "C30 C12 C18 C20 C26 C08",
    "detail/wcsFactory.py": "C30 C11 C24 C12 C15 C16",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
CMPT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"),
       ast.Mod: ("%", "//"), ast.BitAnd: ("&", "|")}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "fabs": "float", "argmax": "argmin", "sin": "cos",
         "cos": "sin", "getMin": "getMax", "getMax": "getMin", "getMinX": "getMinY", "getMinY": "getMinX", "getMaxX": "getMinX",
         "getMaxY": "getMaxX", "getInnerBBox": "getOuterBBox", "getOuterBBox": "getInnerBBox", "getLongitude": "getLatitude",
         "getLatitude": "getLongitude", "x": "y", "y": "x", "nx": "ny", "ny": "nx", "xNum": "yNum", "yNum": "xNum",
         "degrees": "radians", "radians": "degrees", "atleast_1d": "atleast_2d", "degreesrad": "", "ra": "dec", "dec": "ra",
         "raMin": "raMax", "raMax": "raMin", "decMin": "decMax", "decMax": "decMin", "lock": "", "break": "", "int32": "int16",
         "getBegin": "getEnd", "_numPatches": "_patchInnerDimensions", "innerBBox": "outerBBox", "sorted": "list"}


def mutants(text):
    """[(start, end, replacement, description)] in character offsets."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))
    out = []

    def pos(n, end=False):
        ln, col = (n.end_lineno, n.end_col_offset) if end else (n.lineno, n.col_offset)
        return starts[ln - 1] + len(lines[ln - 1].encode()[:col].decode())

    def seg(n):
        return text[pos(n):pos(n, True)]

    def add(a, b, new, what):
        if text[a:b] != new:
            out.append((a, b, new, what))

    def between(left, right, tok, new, what):
        a, b = pos(left, True), pos(right)
        m = re.search(re.escape(tok), text[a:b])
        if m:
            add(a + m.start(), a + m.end(), new, what)

    def visit(n, skip):
        if isinstance(n, (ast.Raise, ast.Assert)):
            if isinstance(n, ast.Raise):
                add(pos(n), pos(n, True), "pass", "no raise")
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return                              # docstring
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "Field" or (
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("Field", "ListField", "DictField", "deprecated")):
            for k in n.keywords:
                if k.arg in ("default", "check", "length", "optional"):
                    visit(k.value, skip)
            return
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__", "logSkyMapInfo"):
            pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                pass
            for c in n.args.defaults + [d for d in n.args.kw_defaults if d] + n.body:
                visit(c, skip)
            return
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                visit(c, skip)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(pos(n), pos(n, True), "pass", "statement left out")
        if isinstance(n, ast.AugAssign):
            add(pos(n), pos(n, True), "pass", "statement left out")
        if isinstance(n, (ast.Continue, ast.Break)):
            add(pos(n), pos(n, True), "pass", "statement left out")
        if isinstance(n, ast.If):
            t = seg(n.test)
            add(pos(n.test), pos(n.test, True), "(%s) and False" % t, "never")
            add(pos(n.test), pos(n.test, True), "(%s) or True" % t, "always")
        if isinstance(n, ast.IfExp):
            add(pos(n), pos(n, True), seg(n.body), "first choice")
            add(pos(n), pos(n, True), seg(n.orelse), "second choice")
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                between(left, right, CMPT[type(op)], CMP[type(op)], "comparison")
                left = right
        if isinstance(n, ast.BoolOp):
            a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for left, right in zip(n.values, n.values[1:]):
                between(left, right, a, b, "and/or")
            for v in n.values:
                add(pos(v), pos(v, True), "True" if a == "and" else "False", "condition left out")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(pos(n), pos(n, True), "(%s)" % seg(n.operand), "sign or not left out")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", ""), str)):
            tok, new = BIN[type(n.op)]
            between(n.left, n.right, tok, new, "operator")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(pos(n), pos(n, True), str(not n.value), "constant")
            elif isinstance(n.value, int):
                add(pos(n), pos(n, True), str(n.value + 1), "constant")
                if n.value > 1:
                    add(pos(n), pos(n, True), str(n.value - 1), "constant")
            elif isinstance(n.value, float):
                add(pos(n), pos(n, True), repr(n.value*1.01 + (n.value == 0)*0.01), "constant")
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and re.fullmatch(r"<[a-z0-9?]+", n.value):
                add(pos(n), pos(n, True), repr(n.value.replace("d", "f", 1)), "format")
                add(pos(n), pos(n, True), repr(n.value.replace("<", ">")), "format")
        if isinstance(n, (ast.Name, ast.Attribute)):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if NAMES.get(nm) and isinstance(n.ctx, ast.Load):
                b = pos(n, True)
                add(b - len(nm), b, NAMES[nm], "name")
        if isinstance(n, ast.keyword) and n.arg == "key":
            return
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            add(pos(n.args[0]), pos(n.args[1], True), seg(n.args[1]) + ", " + seg(n.args[0]), "arguments swapped")
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for e in n.type.elts:
                add(pos(n.type), pos(n.type, True), seg(e), "one exception only")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            pass
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords:
            f = seg(n.func)
            if f.split(".")[-1] in ("Box2I", "Extent2I", "copy", "list", "tuple", "int", "abs", "fabs", "freeze", "index", "wrap", "set",
                                    "Point2I"):
                add(pos(n), pos(n, True), "(%s)" % seg(n.args[0]), "call left out")
        if isinstance(n, ast.Call) and not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "wrap", "copy", "digest", "asDegrees", "asRadians"):
            add(pos(n), pos(n, True), seg(n.func.value), "call left out")
        for c in ast.iter_child_nodes(n):
            visit(c, skip)
    visit(tree, False)
    seen, res = set(), []
    for m in out:
        if (m[0], m[1], m[2]) not in seen:
            seen.add((m[0], m[1], m[2]))
            t = text[:m[0]] + m[2] + text[m[1]:]
            try:
                compile(t, "x", "exec")
            except (SyntaxError, ValueError):
                continue
            res.append(m)
    return res


def sh(cmd, env=None, cwd=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return -9, "timeout"
    return p.returncode, p.stdout


def stable(W):
    R = W + "/repo"
    env = {"PYTHONPATH": "%s/python:%s/tests:%s" % (R, R, W), "PYTHONDONTWRITEBYTECODE": "1"}
    plug = open("/opt/vp/support/skymap_no_init.py").read().replace("/repo/", R + "/")
    open(W + "/skymap_no_init.py", "w").write(plug)
    return sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "skymap_no_init", "tests/test_packers.py"],
              env, R, 200)[0]


def attempt(W, f, m, text, jobs):
    R = W + "/repo"
    p = os.path.join(R, PK, f)
    a, b, new, what = m
    line = text.count("\n", 0, a) + 1
    r = {"file": f, "line": line, "what": what, "old": text[a:b], "new": new, "src": text.splitlines()[line - 1].strip()}
    open(p, "w").write(text[:a] + new + text[b:])
    try:
        if f == "packers.py" and stable(W):
            r["result"] = "tests"
            return r
        tried = []
        for c in ORDER[f].split():
            rc, out = sh(["bash", W + "/verif/check.sh", c, "quick"],
                         {"VERIF_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_FIRST": "1", "VERIF_ROUNDS": os.environ.get("VERIF_ROUNDS", "1"),
                          "VERIF_JOBS": str(jobs)}, W)
            tried.append("%s:%d" % (c, rc))
            if rc == 1:
                r["result"], r["by"] = "caught", c
                r["keys"] = sorted(set(re.findall(r"^  \[?([\w-]+)\]? x\d+:", out, re.M)))[:4]
                break
            if rc == 3 and "cannot import" in out:
                r["result"] = "import"
                break
        else:
            r["result"] = "survived"
        r["tried"] = " ".join(tried)
        return r
    finally:
        open(p, "w").write(text)


def main(argv):
    cmd = argv[0]
    opt = {"--files": "", "--jobs": "1", "--every": "1", "--offset": "0", "--workers": "8"}
    rest, it = [], iter(argv[1:])
    for x in it:
        if x in opt:
            opt[x] = next(it)
        else:
            rest.append(x)
    files = opt["--files"].split(",") if opt["--files"] else FILES
    todo = []
    for f in files:
        text = open(os.path.join("/repo", PK, f)).read()
        ms = mutants(text)
        if cmd == "list":
            print(f, len(ms))
        todo += [(f, m, text) for m in ms]
    if cmd == "list":
        print(len(todo))
        return
    if cmd == "show":
        for ln in open(rest[0]):
            r = json.loads(ln)
            if r["result"] not in ("caught", "tests", "import"):
                print("%s:%d %s: %r -> %r   [%s]  %s" % (r["file"], r["line"], r["what"], r["old"], r["new"], r["src"], r.get("tried")))
        return
    done = set()
    if os.path.exists(rest[0]):
        done = {json.loads(ln)["id"] for ln in open(rest[0])}

    def ident(f, m, text):
        return hashlib.sha1(repr((f, m, hashlib.sha1(text.encode()).hexdigest())).encode()).hexdigest()[:16]
    todo = [t for i, t in enumerate(todo) if i % int(opt["--every"]) == int(opt["--offset"])]
    todo = [t for t in todo if ident(*t) not in done]
    q = queue.Queue()
    for i in range(int(opt["--workers"])):
        W = os.path.join(TMP, str(i))
        os.makedirs(W)
        subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
        shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns("seeded", "build", ".git", "evidence", "replay", "__pycache__"))
        q.put(W)

    def one(t):
        W = q.get()
        try:
            r = attempt(W, *t, jobs=int(opt["--jobs"]))
        except Exception as e:
            r = {"file": t[0], "line": 0, "what": "", "old": "", "new": "", "src": "", "result": "EXC %r" % e}
        finally:
            q.put(W)
        r["id"] = ident(*t)
        return r
    with cf.ThreadPoolExecutor(int(opt["--workers"])) as ex, open(rest[0], "a") as f:
        for r in cf.as_completed([ex.submit(one, t) for t in todo]):
            r = r.result()
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree(TMP, ignore_errors=True)


main(sys.argv[1:])
