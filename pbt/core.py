"""Runner: generated cases -> property -> shrink -> replay file, evidence and exit status.

A property module defines PROPERTY (its id), RULE (what makes a case non-trivial), SUBS (a
list of Sub) and optionally JIT, ASSUMPTIONS.  A case is a JSON value; `Sub.run(case, ctx)`
raises Violation when the property is broken and Skip when the case is outside the domain."""
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

from . import env

WORKERS = 8
HOW = ("Cases are drawn from Hypothesis strategies (one per sub-check, described under subchecks) seeded by "
       "VERIF_SEED, plus fixed corner cases; distinctness is by the generated JSON case; ")
SHRINK_SECONDS = {"quick": 45.0, "thorough": 150.0}
GIVE_UP_SECONDS = {"quick": 600.0, "thorough": 6 * 3600.0}
# For surveys of planted changes only (tools/mutate.py): fewer cases, no shrinking, files elsewhere.
SCALE = float(os.environ.get("PBT_SCALE", "1"))
OUT = os.environ.get("PBT_OUT", env.VERIF)
if os.environ.get("PBT_SHRINK") == "0":
    SHRINK_SECONDS = {"quick": 0.0, "thorough": 0.0}


class Violation(Exception):
    """The code under test breaks the property on this case."""


class Skip(Exception):
    """The case is outside the property's domain."""


class _Stop(BaseException):
    """Ends a Hypothesis run from inside the test function."""


class Sub:
    def __init__(self, name, run, strategy=None, quick=0, thorough=None, corners=(),
                 nontrivial=None, serial=False, about=""):
        self.name, self.run, self.strategy = name, run, strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.corners = corners          # list, or a function returning one
        self.nontrivial = nontrivial or (lambda case: True)
        self.serial = serial            # all cases in one worker
        self.about = about

    def corner_cases(self):
        return list(self.corners() if callable(self.corners) else self.corners)


class Ctx:
    """Per-worker state handed to the property code."""

    def __init__(self, prop, tier, seed, worker, known):
        self.prop, self.tier, self.seed, self.worker = prop, tier, seed, worker
        self._known = known
        self.labels = {}
        self.found = {}
        self.sub = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def known(self, finding, message):
        """A recorded genuine defect: reported, not alarmed, if the file lists it."""
        if finding in self._known:
            self.found.setdefault(finding, message)
            self.label("known finding " + finding)
        else:
            raise Violation(message)


def dumps(case):
    return json.dumps(case, sort_keys=True)


def _seed_int(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


def classify_exception(exc):
    """What an exception out of a property run means: 'violation' or 'error'.

    The property code runs without exceptions on every valid case of a correct tree, so one
    that passes through the code under test, or that comes from digesting its output, is the
    code's doing.  Trouble of the harness itself (a name it needs is gone, no memory, no disk)
    is an error of the check."""
    if isinstance(exc, (MemoryError, ImportError)):
        return "error"
    if isinstance(exc, AttributeError) and "'NoneType'" in str(exc):
        return "violation"
    if isinstance(exc, (OSError, AttributeError, NameError)) and not _through_repo(exc):
        return "error"
    return "violation"


def _through_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(env.REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


OTHER_SIGNATURE = ("positional argument", "unexpected keyword argument", "required keyword-only argument", "No matching definition for argument type")


def execute(sub, case, ctx):
    """Run one case; returns (status, message) with status ok, skip, violation or error."""
    ctx.sub = sub.name
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.run(case, ctx)
    except Skip as e:
        return "skip", str(e)
    except Violation as e:
        return "violation", str(e)
    except SystemExit as e:
        return "violation", "the code under test ended the process (SystemExit %r)" % (e.code,)
    except Exception as e:                                                # noqa: BLE001
        if isinstance(e, AttributeError) and "SimpleNamespace" in str(e):
            return "skip", "the made-up object lacks what the code now reads"
        if isinstance(e, ImportError) and "cannot import name" in str(e) and not _through_repo(e):
            return "skip", "a helper of the code under test is not there any more"
        if isinstance(e, AttributeError) and "has no attribute" in str(e) and str(e).startswith("module 'pySailingVLM") and not _through_repo(e):
            return "skip", "a helper of the code under test is not there any more"
        if isinstance(e, TypeError) and any(t in str(e) for t in OTHER_SIGNATURE) and not _through_repo(e):
            return "skip", "a helper of the code under test takes other arguments now"
        last = traceback.extract_tb(e.__traceback__)[-1]
        where = "%s:%d" % (os.path.basename(last.filename), last.lineno)
        text = "%s at %s: %s" % (type(e).__name__, where, e)
        kind = classify_exception(e)
        if kind == "error":
            text += "\n" + traceback.format_exc()
        return kind, text
    return "ok", ""


def _worker(module, tier, seed, worker, workers, known, stop, path, only):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PBT_DEBUG"):
        os.dup2(devnull, 2)
    out = {"subs": {}, "violation": None, "error": None, "truncated": False}
    t0 = time.time()
    ctx = Ctx(module.PROPERTY, tier, seed, worker, known)
    try:
        for sub in module.SUBS:
            if only and sub.name not in only:
                continue
            if stop.is_set() or out["violation"] or out["error"]:
                break
            if time.time() - t0 > GIVE_UP_SECONDS[tier]:
                out["truncated"] = True
                break
            out["subs"][sub.name] = _run_sub(module, sub, tier, seed, worker, workers, ctx, stop, out, t0)
            if out["violation"] or out["error"]:
                stop.set()
    except BaseException as e:                                            # noqa: BLE001
        out["error"] = "worker %d: %s" % (worker, traceback.format_exc())
        stop.set()
    out["labels"], out["found"] = ctx.labels, ctx.found
    with open(path, "w") as f:
        json.dump(out, f)


def _run_sub(module, sub, tier, seed, worker, workers, ctx, stop, out, t0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    if sub.serial:
        if worker != _seed_int(sub.name) % workers:
            return {"n": 0, "skip": 0, "hashes": [], "samples": []}
        share, workers_here, rank = 1, 1, 0
    else:
        share, workers_here, rank = workers, workers, worker
    stat = {"n": 0, "skip": 0, "samples": []}
    hashes = set()
    best = {}
    first_failure = [None]

    def one(case):
        if stop.is_set() and first_failure[0] is None:
            raise _Stop
        now = time.time()
        if now - t0 > GIVE_UP_SECONDS[tier] and first_failure[0] is None:
            out["truncated"] = True
            raise _Stop
        if first_failure[0] is not None and now - first_failure[0] > SHRINK_SECONDS[tier]:
            raise _Stop
        status, message = execute(sub, case, ctx)
        stat["n"] += 1
        if status == "skip":
            stat["skip"] += 1
            return
        if status == "error":
            out["error"] = "%s/%s: %s\ncase: %s" % (module.PROPERTY, sub.name, message, dumps(case)[:2000])
            raise _Stop
        if first_failure[0] is None and sub.nontrivial(case):
            h = hashlib.sha1((sub.name + dumps(case)).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(stat["samples"]) < 1:
                    stat["samples"].append(case)
        if status == "violation":
            if first_failure[0] is None:
                first_failure[0] = time.time()
                stop.set()
            text = dumps(case)
            if not best or len(text) <= best["size"]:
                best.update(size=len(text), case=case, message=message)
            raise Violation(message)

    try:
        for k, case in enumerate(sub.corner_cases()):
            if k % workers_here == rank:
                try:
                    one(case)
                except Violation:
                    break
        total = sub.quick if tier == "quick" else sub.thorough
        count = int(-(-total * SCALE // share)) if sub.strategy is not None else 0
        if count and first_failure[0] is None:
            @hypothesis.seed(_seed_int(seed, module.PROPERTY, sub.name, worker))
            @settings(max_examples=count, database=None, deadline=None, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False,
                      suppress_health_check=list(HealthCheck))
            @given(sub.strategy() if callable(sub.strategy) else sub.strategy)
            def test(case):
                one(case)
            try:
                test()
            except Violation:
                pass
            except hypothesis.errors.Flaky:
                if not best:
                    raise
    except _Stop:
        pass
    if best:
        out["violation"] = {"sub": sub.name, "case": best["case"], "message": best["message"]}
    stat["hashes"] = sorted(hashes)
    return stat


def load_known(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == prop and e["status"] == "known"}


def save_replay(prop, violation, tier, seed):
    folder = os.path.join(OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    name = "%s-%s.json" % (prop, hashlib.sha1(dumps(violation["case"]).encode()).hexdigest()[:10])
    path = os.path.join(folder, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": violation["sub"], "message": violation["message"],
                   "tier": tier, "seed": seed, "case": violation["case"],
                   "rerun": "bash check.sh %s --replay %s" % (prop, path)}, f, indent=1, sort_keys=True)
    return path


def run_replay(module, path, known):
    with open(path) as f:
        data = json.load(f)
    sub = next(s for s in module.SUBS if s.name == data["sub"])
    ctx = Ctx(module.PROPERTY, "quick", data.get("seed", 1), 0, known)
    status, message = execute(sub, data["case"], ctx)
    print("replay %s/%s: %s %s" % (module.PROPERTY, sub.name, status, message))
    if status == "violation":
        print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
        return 1
    return 2 if status == "error" else 0


def run_check(module, tier, seed, only=None, workers=WORKERS):
    t0 = time.time()
    prop = module.PROPERTY
    known = load_known(prop)
    if hasattr(module, "warm"):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                saved = os.dup(1)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                try:
                    module.warm()
                finally:
                    os.dup2(saved, 1)
                    os.close(saved)
                    os.close(devnull)
        except (Exception, SystemExit):                                   # noqa: BLE001
            pass            # the workers meet the same trouble on a generated case
    warm_s = time.time() - t0
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    procs = []
    for w in range(workers):
        path = os.path.join(env.scratch(), "%s-%d.json" % (prop, w))
        p = mp.Process(target=_worker, args=(module, tier, seed, w, workers, known, stop, path, only))
        p.start()
        procs.append((p, path))
    outs = []
    errors = []
    for w, (p, path) in enumerate(procs):
        p.join()
        try:
            with open(path) as f:
                outs.append(json.load(f))
        except (OSError, ValueError):
            errors.append("worker %d ended with status %s and left no result" % (w, p.exitcode))
    n = skipped = 0
    hashes, samples, per_sub, labels, found = set(), [], {}, {}, {}
    violation = None
    truncated = False
    for o in outs:
        truncated = truncated or o["truncated"]
        if o["error"]:
            errors.append(o["error"])
        if o["violation"] and (violation is None
                               or len(dumps(o["violation"]["case"])) < len(dumps(violation["case"]))):
            violation = o["violation"]
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o["found"].items():
            found.setdefault(k, v)
        for name, s in o["subs"].items():
            n += s["n"]
            skipped += s["skip"]
            hashes.update(s["hashes"])
            d = per_sub.setdefault(name, {"cases": 0, "skipped": 0, "distinct_nontrivial": 0, "sample": None})
            d["cases"] += s["n"]
            d["skipped"] += s["skip"]
            d.setdefault("_h", set()).update(s["hashes"])
            if s["samples"] and d["sample"] is None:
                d["sample"] = s["samples"][0]
    for name, d in per_sub.items():
        d["distinct_nontrivial"] = len(d.pop("_h", ()))
        if d["sample"] is not None:
            samples.append({"sub": name, "case": d.pop("sample")})
        else:
            d.pop("sample")
    about = {s.name: s.about for s in module.SUBS if s.about}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(hashes), "rule": HOW + module.RULE,
            "samples": samples, "per_subcheck": per_sub, "outside_domain": skipped,
            "labels": dict(sorted(labels.items())), "subchecks": about,
            "truncated_by_time": truncated,
            "known_findings_seen": sorted(found),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", ())),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for fid in sorted(found):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, known[fid]["what"]))
    print("%s %s: %d cases, %d distinct non-trivial, %d outside domain, %.1f s (warm-up %.1f s)"
          % (prop, tier, n, len(hashes), skipped, time.time() - t0, warm_s))
    if os.environ.get("PBT_VERBOSE"):
        for name, d in per_sub.items():
            print("   ", name, d)
        for k, v in sorted(labels.items()):
            print("    label", k, v)
    if violation:
        path = save_replay(prop, violation, tier, seed)
        print("%s: %s" % (violation["sub"], violation["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors)[:6000])
        return 3
    if n == 0 or not hashes:
        print("ERROR of the check: nothing was explored")
        return 3
    return 0


def main(argv):
    import argparse
    import importlib
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("tier", nargs="?", default=None, choices=("quick", "thorough"))
    p.add_argument("--replay")
    p.add_argument("--sub", action="append")
    p.add_argument("--workers", type=int, default=WORKERS)
    a = p.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    jit = a.property not in NO_JIT
    env.prepare(jit)
    module = importlib.import_module("pbt.props." + a.property.lower())
    if a.replay:
        return run_replay(module, a.replay, load_known(a.property))
    return run_check(module, tier, seed, a.sub, a.workers)


# Properties about geometry and tables only: importing the solver compiles its kernels, which
# these never call in a loop.
NO_JIT = {"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C18", "C21"}
