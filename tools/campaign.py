#!/opt/venv/bin/python
"""Mutation campaign (development aid, not part of any check).

campaign.py FILE OUT.jsonl [--max N] [--skip-tests]: small syntactic changes of /repo/PyEMD/FILE, one at a time in scratch
copies; those the test suite does not notice are given to the checks of the function they are in; results to OUT.jsonl."""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
V = os.environ.get("CAMP_VERIF", "/verif")
PY = "/opt/venv/bin/python"
MAP = {"EMD.py": {"*": ["C01", "C03", "C02", "C08", "C13"], "prepare_points": ["C06"], "prepare_points_simple": ["C06"], "prepare_points_parabol": ["C06", "C01"],
                  "spline_points": ["C07"], "_not_duplicate": ["C05"], "_find_extrema_parabol": ["C05", "C13"], "_find_extrema_simple": ["C04"], "find_extrema": ["C04", "C05"],
                  "end_condition": ["C03"], "check_imf": ["C02"], "extract_max_min_spline": ["C07", "C06", "C02"], "get_imfs_and_residue": ["C08"], "get_imfs_and_trend": ["C08"],
                  "_normalize_time": ["C13", "C05", "C02"]},
       "splines.py": {"*": ["C07", "C13"]}, "utils.py": {"*": ["C13"]}, "EEMD.py": {"*": ["C09", "C10", "C08", "C13"]}, "CEEMDAN.py": {"*": ["C12", "C11", "C08", "C13"]},
       "checks.py": {"*": ["C14"]}, "visualisation.py": {"*": ["C15"]}, "compact.py": {"*": ["C16", "C15"]}, "EMD_matlab.py": {"*": ["C17"]},
       "experimental/jitemd.py": {"*": ["C18"]}, "EMD2d.py": {"*": ["C19"]}, "BEMD.py": {"*": ["C20", "C19"]}}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
CSYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda l, c: off[l - 1] + c  # ascii sources
    out = []

    def add(a, b, new, fn, what):
        if src[a:b] != new:
            out.append((a, b, new, fn, what))

    def between(left, right, sym, new, fn):
        a, b = pos(left.end_lineno, left.end_col_offset), pos(right.lineno, right.col_offset)
        k = src.find(sym, a, b)
        if k >= 0:
            add(k, k + len(sym), new, fn, "%s -> %s" % (sym, new))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            for d in n.args.defaults:
                visit(d, fn)
            for s in n.body:
                visit(s, fn)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func):
            return
        if isinstance(n, (ast.AnnAssign,)):
            if n.value:
                visit(n.value, fn)
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and fn:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            add(a, b, "pass", fn, "delete " + src[a:b].split("\n")[0][:60])
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], CSYM[type(n.ops[0])], CMP[type(n.ops[0])], fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, BIN[type(n.op)][0], BIN[type(n.op)][1], fn)
        if isinstance(n, ast.BoolOp):
            s, t = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], s, t, fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            a = pos(n.lineno, n.col_offset)
            add(a, pos(n.operand.lineno, n.operand.col_offset), "", fn, "drop " + src[a:a + 3])
        if isinstance(n, (ast.If, ast.While)):
            a, b = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            if isinstance(n, ast.If):
                add(a, b, "True", fn, "if True")
                add(a, b, "False", fn, "if False")
        if isinstance(n, ast.Constant) and fn:
            a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
            if isinstance(n.value, bool):
                add(a, b, str(not n.value), fn, "flip")
            elif isinstance(n.value, int):
                add(a, b, str(n.value + 1), fn, "%d+1" % n.value)
                if n.value > 0:
                    add(a, b, str(n.value - 1), fn, "%d-1" % n.value)
            elif isinstance(n.value, float):
                add(a, b, repr(n.value * 2 if n.value else 1.0), fn, "x2")
                add(a, b, repr(n.value / 2), fn, "/2")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("debug", "info", "warning", "error"):
                continue
            visit(c, fn)
    for c in tree.body:
        if isinstance(c, (ast.ClassDef,)):
            for d in c.body:
                visit(d, None)
        else:
            visit(c, None)
    return out


def work(job):
    f, i, (a, b, new, fn, what), src, skip = job
    d = tempfile.mkdtemp(prefix="camp-")
    line = src[:a].count("\n") + 1
    r = {"file": f, "i": i, "line": line, "fn": fn, "what": what, "text": src.split("\n")[line - 1].strip()[:100], "new": new}
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        m = src[:a] + new + src[b:]
        p = os.path.join(d, "PyEMD", f)
        crlf = b"\r\n" in open(p, "rb").read()
        open(p, "w", newline="").write(m.replace("\n", "\r\n") if crlf else m)
        if not skip:
            try:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "PyEMD/tests"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1"), timeout=200)
            except subprocess.TimeoutExpired:
                r["verdict"] = "tests"
                return r
            if t.returncode:
                r["verdict"] = "tests"
                return r
        r["verdict"], r["by"] = "SURVIVED", []
        for c in MAP[f].get(fn, MAP[f]["*"]):
            try:
                t = subprocess.run([V + "/bin/check", c], env=dict(os.environ, VP_REPO=d, VP_CASE_TIMEOUT="20"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                r["by"].append(c + ":timeout")
                continue
            if t.returncode == 1 and "VIOLATION property=" + c in t.stdout:
                r["verdict"] = "killed"
                r["by"] = [c]
                r["clauses"] = sorted({x for l in t.stdout.splitlines() if "clauses:" in l for x in l.split(":")[1].strip().split(", ")})[:4]
                break
            r["by"].append("%s:%d" % (c, t.returncode))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    f, out = sys.argv[1:3]
    mx = int(sys.argv[sys.argv.index("--max") + 1]) if "--max" in sys.argv else 10 ** 9
    par = int(os.environ.get("CAMP_PAR", "6"))
    src = open("/repo/PyEMD/" + f, newline="").read().replace("\r\n", "\n")
    ms = list(enumerate(mutants(src)))
    ms = [m for m in ms if m[1][3] not in ("__str__", "__repr__")]
    random.Random(1).shuffle(ms)
    ms = ms[:mx]
    print(f, len(ms), "mutants", flush=True)
    with cf.ThreadPoolExecutor(par) as ex, open(out, "w") as o:
        for r in ex.map(work, [(f, i, m, src, "--skip-tests" in sys.argv) for i, m in ms]):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["verdict"] == "SURVIVED":
                print(json.dumps(r), flush=True)
    n = {}
    for l in open(out):
        v = json.loads(l)["verdict"]
        n[v] = n.get(v, 0) + 1
    print(f, n)
