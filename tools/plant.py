"""Builds and judges planted bugs (never run by a check).

  plant.py build SPEC.py [ID...]   make seeded/<ID> from the edits and the demonstration in a spec file
  plant.py judge [--checks C01,..] ID...   demonstrations, tests and the property's check on both trees
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
REPO = "/repo"

DEMO_SH = """#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is broken.  Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export NUMBA_CACHE_DIR="$scratch/numba" MPLCONFIGDIR="$scratch/mpl" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" HOME="$scratch"%(jit)s
mkdir -p "$MPLCONFIGDIR" "$scratch/work"
repo=$PWD
cd "$scratch/work" || exit 3
REPO="$repo" /opt/venv/bin/python -W ignore "$here/demo.py"
"""

PRE = '''"""%(doc)s"""
import os
import sys

import numpy as np
%(yacht)s

def fail(text):
    print("BROKEN: " + text)
    sys.exit(1)


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol * max(1.0, np.abs(b).max())):
        fail("%%s: %%s, expected %%s" %% (what, a, b))

'''

YACHT = '''from pySailingVLM.inlet.winds import ExpWindProfile, FlatWindProfile, LogWindProfile
from pySailingVLM.results.inviscid_flow import InviscidFlowResults
from pySailingVLM.rotations.csys_transformations import CSYS_transformations
from pySailingVLM.runner.container import Conditions, Csys, JibSail, Keel, MainSail, Rig, Solver
from pySailingVLM.runner.sail import Sail, Wind
from pySailingVLM.solver.vlm import Vlm
from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry


class Yacht:
    """The example yacht with some settings replaced."""

    def __init__(self, twist="real_twist", main=None, jib=None, ref=(0., 0., 0.), clr=(0., 0., -1.),
                 ns=4, nc=2, interpolation="spline", solve=True, **other):
        rig = {k: v for k, v in other.items() if k in Rig.__dataclass_fields__}
        cond = {k: v for k, v in other.items() if k in Conditions.__dataclass_fields__}
        assert len(rig) + len(cond) == len(other), other
        self.conditions = Conditions(**cond)
        self.solver = Solver(n_spanwise=ns, n_chordwise=nc, interpolation_type=interpolation)
        self.solver.LLT_twist = twist
        self.rig = Rig(**rig)
        self.main = MainSail(**(main or {}))
        self.jib = JibSail(**(jib or {}))
        self.csys = CSYS_transformations(self.conditions.heel_deg, self.conditions.leeway_deg, np.array(ref, float))
        self.sail_set = Sail(self.solver, self.rig, self.main, self.jib, self.csys).sail_set
        self.wind = Wind(self.conditions).profile
        self.hull = HullGeometry(self.rig.sheer_above_waterline, self.rig.foretriangle_base, self.csys,
                                 np.array(clr, float))
        if solve:
            s = self.sail_set
            self.vlm = Vlm(s.panels, nc, ns, self.conditions.rho, self.wind, s.trailing_edge_info,
                           s.leading_edge_info)
            self.results = InviscidFlowResults(s, self.csys, self.vlm)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy_repo(where):
    sh(["cp", "-a", REPO, where])


def build(spec_path, ids):
    ns = {}
    exec(compile(open(spec_path).read(), spec_path, "exec"), ns)
    done = []
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        out = os.path.join(SEEDED, b["id"])
        work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            sh(["git", "clone", "-q", REPO, os.path.join(work, "r")])
            r = os.path.join(work, "r")
            for path, old, new in b["edits"]:
                p = os.path.join(r, "pySailingVLM", path)
                with open(p, newline="") as f:
                    text = f.read()
                if text.count(old) != 1:
                    raise SystemExit("%s: %d matches of %r in %s" % (b["id"], text.count(old), old, path))
                with open(p, "w", newline="") as f:
                    f.write(text.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE).stdout
        finally:
            shutil.rmtree(work, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "wb") as f:
            f.write(diff)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write(DEMO_SH % dict(jit="" if b.get("jit") else " NUMBA_DISABLE_JIT=1"))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write(PRE % dict(doc=b["doc"], yacht=YACHT if b.get("yacht", True) else "") + b["demo"].lstrip("\n"))
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
            f.write("\n")
        done.append(b["id"])
    print("built", " ".join(done))


def judge_one(i, checks):
    lines = []
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    ok = True
    try:
        r = os.path.join(work, "repo")
        copy_repo(r)
        demo = os.path.join(work, "demo")
        os.makedirs(demo)
        for f in os.listdir(d):
            if f != "meta.json" and not f.endswith(".diff"):
                shutil.copy(os.path.join(d, f), demo)
        a = sh(["bash", os.path.join(demo, "demo.sh")], cwd=r, timeout=300)
        if a.returncode:
            ok = False
            lines.append("demo fails on the unchanged tree: %s" % a.stdout[-1500:])
        p = sh(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
        if p.returncode:
            ok = False
            lines.append("patch: " + p.stdout)
        b = sh(["bash", os.path.join(demo, "demo.sh")], cwd=r, timeout=300)
        if b.returncode == 0:
            ok = False
            lines.append("demo passes with the change")
        elif "BROKEN" not in b.stdout:
            lines.append("demo ends with: " + b.stdout[-600:])
        t = sh(["bash", "-c", "sed 's#/repo#%s#g; s#cd .*#cd %s#' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json"
                % (r, r, work, work, work)],
               env=dict(os.environ, PYTHONPATH=r))
        # the test script unsets PYTHONPATH: the copy is found through the working directory
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open(os.path.join(work, "o.json")))
        bad = failures(base, out)
        if bad:
            ok = False
            lines.append("tests fail: %s" % bad)
        for c in checks or [meta["property"]]:
            e = dict(os.environ, PBT_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            x = sh(["bash", os.path.join(HERE, "check.sh"), c, "quick"] + (["--workers", WORKERS] if WORKERS else []),
                   env=e, cwd=HERE)
            v = [ln for ln in x.stdout.splitlines() if ln.startswith("VIOLATION")]
            lines.append("check %s: %s%s" % (c, "CAUGHT" if x.returncode == 1 and v else
                                             "missed" if x.returncode == 0 else "rc=%d" % x.returncode,
                                             "" if not v else "  " + " | ".join(x.stdout.splitlines()[-6:])[:700]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return i, ok, lines


def names(obj):
    if isinstance(obj, dict):
        for k in ("passed", "stable", "stable_passed", "pass"):
            if k in obj:
                return set(obj[k]) if isinstance(obj[k], list) else {n for n, v in obj[k].items()}
    raise SystemExit("unknown result format: %s" % str(obj)[:300])


def failures(base, out):
    return sorted(names(base) - names(out))


WORKERS = None


def main():
    global WORKERS
    args = sys.argv[1:]
    if args[0] == "build":
        return build(args[1], args[2:])
    args = args[1:]
    checks, jobs = None, 3
    while args and args[0].startswith("--"):
        key, val = args[0], args[1]
        args = args[2:]
        if key == "--checks":
            checks = val.split(",")
        elif key == "--jobs":
            jobs = int(val)
        elif key == "--workers":
            WORKERS = val
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for i, ok, lines in pool.map(lambda i: judge_one(i, checks), args):
            print("%s: %s" % (i, "counts" if ok else "DOES NOT COUNT"))
            for ln in lines:
                print("    " + re.sub(r"\s+", " ", ln))
            sys.stdout.flush()


if __name__ == "__main__":
    main()
