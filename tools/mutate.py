"""Mutation survey (never run by a check): which one-place changes of the code that pass the stable tests do the checks see?

  mutate.py list                      number of mutants per file
  mutate.py run OUT.jsonl [--sample N] [--jobs N] [--files a,b] [--seed N]
"""
import ast
import warnings
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FIRST = {
    "solver/velocity.py": "C01 C10 C23", "solver/coefs.py": "C01 C09 C10 C11 C08 C16 C17 C23", "solver/forces.py": "C11 C13 C23", "solver/panels.py": "C08 C09 C17",
    "solver/mesher.py": "C06 C07 C21", "solver/interpolator.py": "C04", "thin_airfoil/vlm_airfoil.py": "C05 C06 C22", "yacht_geometry/sail_geometry.py": "C06 C07 C08",
    "yacht_geometry/sail_factory.py": "C06 C23", "yacht_geometry/hull_geometry.py": "C21 C22", "inlet/winds.py": "C02 C15 C18", "inlet/inlet_conditions.py": "C02 C15",
    "results/inviscid_flow.py": "C13 C15 C20", "results/save_utils.py": "C15 C20", "rotations/csys_transformations.py": "C03 C13", "rotations/geometry_calc.py": "C03",
    "runner/aircraft.py": "C17", "runner/cli.py": "C19", "__main__.py": "C19", "runner/container.py": "C18", "runner/sail.py": "C18 C06",
    "solver/additional_functions.py": "C15 C13 C16 C22", "solver/panels_plotter.py": "C22", "solver/vlm.py": "C10 C11 C23"}
ALL = ["C03", "C05", "C06", "C07", "C04", "C21", "C08", "C09", "C18", "C23", "C13", "C11", "C10", "C16", "C15", "C17", "C02", "C12", "C14", "C20", "C22", "C19", "C01"]
SWAP = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "sum": "mean", "mean": "sum", "arctan2": "hypot", "deg2rad": "rad2deg", "rad2deg": "deg2rad",
        "concatenate": None, "cross": None, "abs": "negative", "flip": "asarray", "copy": "asarray", "average": "max", "ones": "zeros", "zeros": "ones", "all": "any", "any": "all"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: None, ast.FloorDiv: "/", ast.Mod: "*"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.split("\n")
        self.offset = [0]
        for ln in self.lines:
            self.offset.append(self.offset[-1] + len(ln) + 1)
        self.out = []
        self.depth = []

    def at(self, line, col):
        ln = self.lines[line - 1]
        return self.offset[line - 1] + len(ln.encode()[:col].decode())

    def span(self, n):
        return self.at(n.lineno, n.col_offset), self.at(n.end_lineno, n.end_col_offset)

    def src(self, n):
        a, b = self.span(n)
        return self.text[a:b]

    def put(self, n, new, kind):
        a, b = self.span(n)
        if self.text[a:b] != new:
            self.out.append(dict(a=a, b=b, new=new, kind=kind, line=n.lineno, old=self.text[a:b]))

    def visit_FunctionDef(self, n):
        for d in n.body:
            self.visit(d)
        for d in n.args.defaults:
            self.visit(d)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            name = ast.unparse(n.value.func)
            if name in ("print", "fig.colorbar") or "set_" in name and "ax" in name:
                return
            self.put(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, "pass", "drop raise")

    def visit_Assert(self, n):
        self.put(n, "pass", "drop assert")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop update")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, "(not (%s))" % self.src(n.test), "negate if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n.test, "(not (%s))" % self.src(n.test), "negate if")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return
        new = BIN.get(type(n.op))
        if new:
            self.put(n, "(%s) %s (%s)" % (self.src(n.left), new, self.src(n.right)), "operator")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.put(n, "(%s)" % self.src(n.operand), "drop sign")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        word = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, word.join("(%s)" % self.src(v) for v in n.values), "and/or")
        if len(n.values) == 2:
            self.put(n, self.src(n.values[0]), "drop condition")
            self.put(n, self.src(n.values[1]), "drop condition")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]), []):
                self.put(n, "%s %s %s" % (self.src(n.left), new, self.src(n.comparators[0])), "compare")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, repr(not v), "bool")
        elif isinstance(v, int):
            for new in {v + 1, v - 1} if v else {1}:
                self.put(n, repr(new) if new >= 0 else "(%d)" % new, "number")
        elif isinstance(v, float):
            self.put(n, repr(v * 1.1 if v else 0.1), "number")
            if v and abs(v) < 1e-3:
                self.put(n, repr(v * 1000), "number")
        elif isinstance(v, str) and v and " " not in v:
            self.put(n, repr(v + "_"), "string")

    def visit_JoinedStr(self, n):
        return

    def visit_Call(self, n):
        name = ast.unparse(n.func)
        last = name.rsplit(".", 1)[-1]
        if isinstance(n.func, ast.Attribute) and SWAP.get(last):
            a, b = self.span(n.func)
            self.out.append(dict(a=a, b=b, new=name[:-len(last)] + SWAP[last], kind="function", line=n.lineno, old=name))
        for x, y in zip(n.args, n.args[1:]):
            if not isinstance(x, (ast.Constant, ast.Starred)) and not isinstance(y, (ast.Constant, ast.Starred)):
                a, _ = self.span(x)
                _, b = self.span(y)
                self.out.append(dict(a=a, b=b, new="%s, %s" % (self.src(y), self.src(x)), kind="swap arguments", line=x.lineno, old=self.text[a:b]))
        if last == "copy" and isinstance(n.func, ast.Attribute) and not n.args:
            self.put(n, self.src(n.func.value), "no copy")
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None:
            self.put(n, ":" + (self.src(n.upper) if n.upper else "") + (":" + self.src(n.step) if n.step else ""), "slice")
        if n.upper is not None:
            self.put(n, (self.src(n.lower) if n.lower else "") + ":" + (":" + self.src(n.step) if n.step else ""), "slice")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
            pass
        elif isinstance(n.targets[0], ast.Name) and any(isinstance(t, ast.Name) and t.id == n.targets[0].id for t in ast.walk(n.value)):
            self.put(n, "pass", "drop assignment")
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Subscript(self, n):
        self.visit(n.value)
        self.visit(n.slice)

    def visit_Dict(self, n):
        for v in n.values:
            self.visit(v)
        vals = n.values
        for x, y in zip(vals, vals[1:]):
            if self.src(x) != self.src(y) and not isinstance(x, ast.Constant) and x.lineno != y.lineno:
                a, b = self.span(x)
                self.out.append(dict(a=a, b=b, new=self.src(y), kind="other entry", line=x.lineno, old=self.text[a:b]))

    def visit_Yield(self, n):
        self.generic_visit(n)


def mutants(path):
    text = open(path).read()
    f = Finder(text)
    tree = ast.parse(text)
    f.visit(tree)
    seen, out = set(), []
    for m in f.out:
        new = text[:m["a"]] + m["new"] + text[m["b"]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        out.append(m)
    return text, out


def collect(files=None):
    out = []
    for f in sorted(FIRST):
        if files and f not in files:
            continue
        _, ms = mutants(os.path.join(REPO, "pySailingVLM", f))
        for m in ms:
            m["file"] = f
            m["id"] = "%s:%d:%s" % (f, m["line"], hashlib.sha1(("%d %d %s" % (m["a"], m["b"], m["new"])).encode()).hexdigest()[:6])
            out.append(m)
    return out


def names(obj):
    return set(obj["passed"]) if isinstance(obj["passed"], list) else set(obj["passed"])


local = threading.local()


def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def judge(m):
    if not hasattr(local, "dir"):
        local.dir = tempfile.mkdtemp(prefix="mut-")
        shutil.copytree(REPO, os.path.join(local.dir, "repo"), symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    r = os.path.join(local.dir, "repo")
    path = os.path.join(r, "pySailingVLM", m["file"])
    text = open(os.path.join(REPO, "pySailingVLM", m["file"])).read()
    res = dict(m)
    try:
        with open(path, "w") as f:
            f.write(text[:m["a"]] + m["new"] + text[m["b"]:])
        cache = os.path.join(local.dir, "cache")
        if "njit" in text or getattr(local, "stale", True):
            shutil.rmtree(cache, ignore_errors=True)
        local.stale = "njit" in text
        order = FIRST[m["file"]].split()
        order += [c for c in ALL if c not in order]
        for c in order:
            e = dict(os.environ, PBT_REPO=r, PBT_SCALE=SCALE, PBT_CACHE=cache, PBT_SHRINK="0", VERIF_SEED="1", PBT_OUT=local.dir)
            rc, out = sh(["bash", os.path.join(HERE, "check.sh"), c, "quick", "--workers", "1"], 900, env=e, cwd=HERE)
            if rc == 1 and "VIOLATION" in out:
                res.update(status="killed", by=c, how=[ln for ln in out.splitlines() if not ln.startswith(("KNOWN", "VIOL"))][-1][:200])
                return res
            if rc != 0:
                res.setdefault("odd", []).append([c, rc, out[-300:]])
        e = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1")
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "pySailingVLM/tests"] + DESELECT, 400, cwd=r, env=e)
        if rc != 0:
            res["status"] = "tests"
            return res
        res["status"] = "survived"
        return res
    finally:
        with open(path, "w") as f:
            f.write(text)


DESELECT = []
SCALE = "0.3"


def main():
    args = sys.argv[1:]
    opts = {}
    rest = []
    while args:
        a = args.pop(0)
        if a.startswith("--"):
            opts[a[2:]] = args.pop(0)
        else:
            rest.append(a)
    ms = collect(opts.get("files", "").split(",") if opts.get("files") else None)
    if rest[0] == "list":
        count = {}
        for m in ms:
            count[m["file"]] = count.get(m["file"], 0) + 1
        for f, n in sorted(count.items()):
            print("%5d %s" % (n, f))
        print(len(ms))
        return
    seed = opts.get("seed", "1")
    ms.sort(key=lambda m: hashlib.sha1((seed + m["id"]).encode()).hexdigest())
    done = set()
    if os.path.exists(rest[1]):
        done = {json.loads(ln)["id"] for ln in open(rest[1])}
    if opts.get("only"):
        keep = set(open(opts["only"]).read().split())
        ms = [m for m in ms if m["id"] in keep]
    ms = [m for m in ms[:int(opts.get("sample", len(ms)))] if m["id"] not in done]
    global SCALE
    SCALE = opts.get("scale", SCALE)
    with open(rest[1], "a") as f, concurrent.futures.ThreadPoolExecutor(int(opts.get("jobs", 8))) as pool:
        for r in concurrent.futures.as_completed([pool.submit(judge, m) for m in ms]):
            r = r.result()
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
