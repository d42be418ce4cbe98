"""Rare-trigger survey (never run by a check): the one-place changes of mutate.py, each made to happen only under a condition on the data at hand.

  rare.py OUT.jsonl [--sample N] [--jobs N] [--files a,b] [--seed N]
"""
import ast
import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from mutate import FIRST, HERE, REPO, collect, local, sh

HELPER = '''
import os

import numpy as np
N = {}
TRUE = {}

def parts(scope):
    ints, floats, arrays, names = [], [], [], []
    todo = [v for k, v in scope.items() if k != "self"]
    if "self" in scope:
        try:
            todo += list(vars(scope["self"]).values())
        except TypeError:
            pass
    for v in todo:
        if isinstance(v, (bool, np.bool_)):
            continue
        if isinstance(v, (int, np.integer)):
            ints.append(int(v))
        elif isinstance(v, (float, np.floating)):
            floats.append(float(v))
        elif isinstance(v, str):
            names.append(v)
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.size:
            arrays.append(v)
    return ints, floats, arrays, names

RULES = {
    "one": lambda i, f, a, s: 1 in i,
    "many": lambda i, f, a, s: any(x > 6 for x in i),
    "equal": lambda i, f, a, s: len(i) > 1 and i[0] == i[1],
    "neg": lambda i, f, a, s: any(x < 0 for x in f),
    "zero": lambda i, f, a, s: 0.0 in f,
    "steep": lambda i, f, a, s: any(abs(x) > 60 for x in f),
    "small": lambda i, f, a, s: any(0 < abs(x) < 0.02 for x in f),
    "long": lambda i, f, a, s: any(x.size > 250 for x in a),
    "short": lambda i, f, a, s: any(x.size <= 2 for x in a),
    "negarr": lambda i, f, a, s: any((x < 0).any() for x in a),
    "zeroarr": lambda i, f, a, s: any((x == 0).any() for x in a),
    "twins": lambda i, f, a, s: any(x.ndim == 1 and x.size > 1 and (np.diff(x) == 0).any() for x in a),
    "falling": lambda i, f, a, s: any(x.ndim == 1 and x.size > 2 and x[0] < x[1] and x[-1] < x[-2] for x in a),
    "odd": lambda i, f, a, s: any(len(np.atleast_1d(x)) % 2 for x in a),
    "hash": lambda i, f, a, s: hash((tuple(i), tuple(f), tuple(x.tobytes() for x in a))) % 23 == 0,
}

def g(key, *rules_scope):
    *rules, scope = rules_scope
    N[key] = N.get(key, 0) + 1
    p = parts(scope)
    for r in rules:
        if r == "later":
            ok = N[key] > 40
        else:
            ok = bool(RULES[r](*p))
        if not ok:
            return False
    if key not in TRUE and os.environ.get("RARE_OUT"):
        TRUE[key] = open(os.environ["RARE_OUT"], "w").close()
    return True
'''
RULES = ["one", "many", "equal", "neg", "zero", "steep", "small", "long", "short", "negarr", "zeroarr", "twins", "falling", "odd", "hash", "later"]
TESTS = ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "pySailingVLM/tests"]


def owner(tree, line):
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno <= line <= n.end_lineno and (best is None or n.lineno > best.lineno):
            best = n
    return best


def guard(f, rng, key):
    if any("jit" in ast.unparse(d) for d in f.decorator_list):
        opts = []
        for a in f.args.args:
            t = ast.unparse(a.annotation) if a.annotation else ""
            if t == "int":
                opts += ["%s == 1", "%s > 6", "%s %% 2 == 1"]
                opts[-3:] = [o % a.arg for o in opts[-3:]]
            elif t == "float" :
                opts += []
            elif "ndarray" in t:
                x = a.arg
                opts += ["len(%s) == 1" % x, "len(%s) > 70" % x, "len(%s) %% 2 == 1" % x, "%s.min() < -20.0" % x, "%s.max() < 0.5" % x, "abs(%s.sum()) < 1e-9" % x]
        return rng.choice(opts) if opts else None
    rules = rng.sample(RULES, rng.choice([1, 1, 1, 2]))
    return "_rare.g(%r, %s, locals())" % (key, ", ".join(map(repr, rules)))


def wrap(m, text, tree, seed):
    f = owner(tree, m["line"])
    if f is None:
        return None
    rng = random.Random(seed + m["id"])
    g = guard(f, rng, m["id"])
    if g is None:
        return None
    m = dict(m, guard=g)
    if m["new"] == "pass":
        if "\n" in m["old"]:
            return None
        m["new"] = "if not %s: %s" % (g, m["old"])
    elif m["kind"] in ("swap arguments", "slice", "other entry", "string", "function"):
        if m["kind"] != "function" and m["kind"] != "string" and m["kind"] != "other entry":
            return None
        m["new"] = "(%s if %s else %s)" % (m["new"], g, m["old"])
    else:
        m["new"] = "((%s) if %s else (%s))" % (m["new"], g, m["old"])
    new = text[:m["a"]] + m["new"] + text[m["b"]:]
    new = head(new)
    try:
        compile(new, "x", "exec")
    except (SyntaxError, ValueError):
        return None
    return m


def head(text):
    return text + "\nfrom pySailingVLM import _rare\n"


def judge(m):
    if not hasattr(local, "dir"):
        local.dir = tempfile.mkdtemp(prefix="mut-")
        shutil.copytree(REPO, os.path.join(local.dir, "repo"), symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(os.path.join(local.dir, "repo", "pySailingVLM", "_rare.py"), "w").write(HELPER)
    r = os.path.join(local.dir, "repo")
    path = os.path.join(r, "pySailingVLM", m["file"])
    text = open(os.path.join(REPO, "pySailingVLM", m["file"])).read()
    res = dict(m)
    try:
        with open(path, "w") as f:
            f.write(head(text[:m["a"]] + m["new"] + text[m["b"]:]))
        e = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r, MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1")
        rc, _ = sh(TESTS, 400, cwd=r, env=e)
        if rc != 0:
            res["status"] = "tests"
            return res
        cache = os.path.join(local.dir, "cache")
        if "njit" in text or getattr(local, "stale", True):
            shutil.rmtree(cache, ignore_errors=True)
        local.stale = "njit" in text
        mark = os.path.join(local.dir, "mark")
        if os.path.exists(mark):
            os.remove(mark)
        order = FIRST[m["file"]].split()
        order += [c for c in ("C23", "C20") if c not in order]
        for scale in ("0.1", "1"):
            for c in order:
                e = dict(os.environ, PBT_REPO=r, PBT_CACHE=cache, PBT_SHRINK="0", PBT_SCALE=scale, VERIF_SEED="1", PBT_OUT=local.dir, RARE_OUT=mark)
                rc, out = sh(["bash", os.path.join(HERE, "check.sh"), c, "quick", "--workers", "1"], 900, env=e, cwd=HERE)
                if rc == 1 and "VIOLATION" in out:
                    res.update(status="killed", by=c, scale=scale, how=[ln for ln in out.splitlines() if not ln.startswith(("KNOWN", "VIOL"))][-1][:200])
                    return res
                if rc != 0:
                    res.setdefault("odd", []).append([c, rc, out[-300:]])
            if "_rare" in m["guard"] and not os.path.exists(mark):
                break
        res["status"] = "survived" if os.path.exists(mark) or "_rare" not in m["guard"] else "not reached"
        return res
    finally:
        with open(path, "w") as f:
            f.write(text)


def main():
    args = sys.argv[1:]
    opts, rest = {}, []
    while args:
        a = args.pop(0)
        if a.startswith("--"):
            opts[a[2:]] = args.pop(0)
        else:
            rest.append(a)
    seed = opts.get("seed", "1")
    ms, texts = [], {}
    for m in collect(opts["files"].split(",") if "files" in opts else None):
        if m["file"] not in texts:
            t = open(os.path.join(REPO, "pySailingVLM", m["file"])).read()
            texts[m["file"]] = (t, ast.parse(t))
        m = wrap(m, *texts[m["file"]], seed)
        if m:
            ms.append(m)
    ms.sort(key=lambda m: hashlib.sha1((seed + m["id"]).encode()).hexdigest())
    print(len(ms))
    done = {json.loads(ln)["id"] for ln in open(rest[0])} if os.path.exists(rest[0]) else set()
    ms = [m for m in ms[:int(opts.get("sample", len(ms)))] if m["id"] not in done]
    with open(rest[0], "a") as f, concurrent.futures.ThreadPoolExecutor(int(opts.get("jobs", 8))) as pool:
        for r in concurrent.futures.as_completed([pool.submit(judge, m) for m in ms]):
            f.write(json.dumps(r.result()) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
