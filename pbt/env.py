"""Process set-up shared by every check: environment variables, import paths, Hypothesis.

Import this module (and call `prepare`) before numpy, numba or the code under test."""
import atexit
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python%d.%d/site-packages" % sys.version_info[:2]
DEPS = os.path.join(VERIF, ".deps")
NEEDED = ("hypothesis", "sortedcontainers")

_scratch = None


def scratch():
    """A directory of this process tree, removed when the main process ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pbt-")
        owner = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def extract_wheels(target):
    """Unpack the wheels Hypothesis needs into `target`; True when all of them were found."""
    tag = "cp%d%d" % sys.version_info[:2]
    try:
        names = sorted(os.listdir(WHEELS))
    except OSError:
        return False
    found = []
    for need in NEEDED:
        match = [n for n in names if n.startswith(need + "-") and n.endswith(".whl")
                 and ("-py3-" in n or "py2.py3" in n or "-%s-" % tag in n)]
        if not match:
            return False
        found.append(match[-1])
    os.makedirs(target, exist_ok=True)
    for name in found:
        with zipfile.ZipFile(os.path.join(WHEELS, name)) as z:
            z.extractall(target)
    return True


def _has_hypothesis():
    import importlib.util
    return all(importlib.util.find_spec(n) is not None for n in NEEDED)


def load_hypothesis():
    """Make `import hypothesis` work offline whatever set-up ran before."""
    if _has_hypothesis():
        return
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.append(DEPS)
        if _has_hypothesis():
            return
        sys.path.remove(DEPS)
    target = os.path.join(scratch(), "deps")
    if extract_wheels(target):
        sys.path.append(target)
        if _has_hypothesis():
            return
    if os.path.isdir(PYVENV):
        sys.path.append(PYVENV)
        if _has_hypothesis():
            return
    raise RuntimeError("hypothesis not found: neither in %s, %s nor %s" % (DEPS, WHEELS, PYVENV))


def prepare(jit=True):
    """Environment of a check. A fresh numba cache each time: numba's cache index looks at one
    source file only and would hide a change in a callee."""
    os.environ["NUMBA_CACHE_DIR"] = os.environ.get("PBT_CACHE") or os.path.join(scratch(), "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch(), "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.pop("PYTHONPATH", None)
    if jit:
        os.environ.pop("NUMBA_DISABLE_JIT", None)
    else:
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    load_hypothesis()
