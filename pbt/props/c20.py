"""C20: results depend on the configuration only, whatever was computed before or in between."""
import copy
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num
from pbt.props import c15, c16, c17, c22, c23
from pbt.props.c12 import tops

PROPERTY = "C20"
RULE = "a case counts when its history has at least five steps or some object was used more than once"
ASSUMPTIONS = ("objects are compared by their public attributes; attributes that appear later (a cache, the keel estimate) are not part of "
               "what was there before",
               "repeated results are compared to 1e-10 of their natural size, inputs and solved cases exactly")


def warm():
    c22.warm()
    c17.warm()


# ---------------------------------------------------------------- the state of an object
GEOMETRY = ("panels", "panels_above", "panels_under", "trailing_edge_info", "leading_edge_info", "zero_mesh", "n_chordwise", "n_spanwise")


def freeze(x, seen=None):
    seen = seen or ()
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (str, bytes, bool, int, float, complex, type(None), np.generic)):
        return ("value", repr(x))
    if isinstance(x, pd.DataFrame):
        return ("table", repr(list(x.columns)), tuple(repr(v) for v in x.itertuples(index=False, name=None)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, seen) for v in x)
    if isinstance(x, dict):
        return {"." + str(k): freeze(v, seen) for k, v in x.items()}
    if type(x).__module__.startswith(("pySailingVLM", "pbt")) and not isinstance(x, type) and hasattr(x, "__dict__"):
        if any(x is y for y in seen):
            return ("again",)
        names = [k for k in vars(x) if not k.startswith("_")]
        names += [k for k in GEOMETRY if k not in names and hasattr(x, k)]
        return {k: freeze(getattr(x, k), seen + (x,)) for k in names}
    return ("opaque",)


def changed(old, new, path):
    """Where something that was there before is different now."""
    if isinstance(old, dict) and isinstance(new, dict):
        for k, v in old.items():
            if k not in new:
                return path + "." + k + " (gone)"
            c = changed(v, new[k], path + "." + k)
            if c:
                return c
        return None
    if isinstance(old, dict) or isinstance(new, dict) or old[0] == "opaque":
        return None if old == ("opaque",) else path
    if old == ("value", "None"):
        return None
    if old[0] in ("list", "tuple") and new[0] == old[0] and len(old) == len(new):
        for k, (a, b) in enumerate(zip(old[1:], new[1:])):
            c = changed(a, b, "%s[%d]" % (path, k))
            if c:
                return c
        return None
    return None if old == new else path


class Watched:
    """Objects with the state they had when they were made."""

    def __init__(self):
        self.items = []

    def add(self, name, x):
        self.items.append((name, x, freeze(x)))

    def check(self, after):
        for name, x, old in self.items:
            where = changed(old, freeze(x), name)
            if where:
                raise Violation("%s changed %s" % (after, where))


# ---------------------------------------------------------------- observations
VLM = dict(gamma="gamma_magnitude", Vt="V_app_fs_at_cp", Vi="V_induced_at_cp", Vc="V_app_fs_at_ctrl_p", F="force", lift="lift", drag="drag",
           p="pressure", cp="p_coeffs", area="areas")
RES = dict(F="F_xyz", Ft="F_xyz_total", M="M_xyz", Mt="M_total_above_water_in_xyz_csys")
RES_COW = dict(F="F_centerline", Ft="F_centerline_total", M="M_centerline_csys", Mt="M_total_above_water_in_centerline_csys")


def see_sail_set(s):
    return dict(panels=np.array(s.panels), zero=np.array(s.zero_mesh), te=np.array(s.trailing_edge_info), le=np.array(s.leading_edge_info),
                names=[x.name for x in s.sails])


HEIGHTS = (0.3, 2.0, 7.5, 10.0, 22.0)


def see_profile(p):
    return np.array([np.asarray(p.get_true_wind_speed_at_h(h), float).reshape(-1) for h in HEIGHTS])


def see_vlm(v):
    out = {k: np.array(getattr(v, n), float) for k, n in VLM.items()}
    out.update(points=np.array(v.cp, float), V=np.array(v.inlet_conditions.V_app_infs, float))
    return out


def see_results(res):
    out = {"C" + k: np.array(getattr(res, n), float) for k, n in RES_COW.items()}
    out.update({k: np.array(getattr(res, n), float) for k, n in RES.items()})
    return out


def see_integral(res):
    return c15.as_dict(res.to_df_integral())


def same(a, b, top, what, tol=1e-10):
    for k, v in b.items():
        if isinstance(v, list):
            sut.require(a[k] == v, "%s: %s" % (what, k))
        else:
            sut.close(a[k], v, "%s: %s" % (what, k), tol, top.get(k.lstrip("C"), sut.scale_of(v)) if top else sut.scale_of(v))


def same_integral(got, want, top, what):
    sut.require(set(got) == set(want), "%s: entries %s" % (what, sorted(set(got) ^ set(want))))
    for q, v in want.items():
        sut.close(got[q], v, "%s: %s" % (what, q), 1e-10, top["Ft" if q.startswith("F_") else "Mt"])


def saved(v, csys, res, s):
    from pySailingVLM.results.save_utils import save_results_to_file
    root = tempfile.mkdtemp(dir=env.scratch())
    try:
        return save_results_to_file(v, csys, res, s, root, "x")
    finally:
        shutil.rmtree(root, ignore_errors=True)


PREFIX = dict(F="F", M="M", V="Vt", Pressure="p", Circulation="gamma", TWS="tws", cp="points")


def same_table(got, want, top, what):
    sut.require(sorted(map(str, got.columns)) == sorted(map(str, want.columns)), "%s: columns %s" % (what, sorted(set(got.columns) ^ set(want.columns))))
    sut.require(len(got) == len(want), "%s: %d rows, before %d" % (what, len(got), len(want)))
    for c in want.columns:
        a, b = list(got[c]), list(want[c])
        if any(isinstance(x, str) for x in b):
            sut.require(a == b, "%s: %s" % (what, c))
        elif "AWA" in str(c):
            turn = (np.array(a, float) - np.array(b, float) + 180) % 360 - 180
            sut.close(turn, np.zeros(len(b)), "%s: %s" % (what, c), 1e-8, 180)
        else:
            sut.close(a, b, "%s: %s" % (what, c), 1e-10, max(top.get(PREFIX.get(str(c).split("_")[0]), 0.0), sut.scale_of(np.array(b, float))))


# ---------------------------------------------------------------- one yacht of a history
class Yacht:
    def __init__(self, c, parts, name, watched):
        self.c, self.name, self.parts, self.watched = c, name, parts, watched
        r, b, vlm, res = sut.solved(c, keel=False)
        self.r, self.top = r, tops(r, c)
        # the results of the configuration computed on its own
        self.alone = dict(sail_set=see_sail_set(b["sail_set"]), profile=see_profile(b["profile"]), vlm=see_vlm(vlm), res=see_results(res),
                          integral=see_integral(res))
        self.alone["table"], self.alone["heights"] = saved(v=vlm, csys=b["csys_transformations"], res=res, s=b["sail_set"])[::2]
        res.estimate_heeling_moment_from_keel(sut.hull_of(c, b).center_of_lateral_resistance)
        self.alone["keel"] = see_integral(res)
        sut.close(self.alone["sail_set"]["panels"], r["g"]["panels"], name + " computed before the history: panels", 1e-9)
        sut.close(self.alone["sail_set"]["zero"], r["g"]["zero"], name + " computed before the history: sails without twist and heel", 1e-9)
        sut.close(self.alone["profile"], ref.true_wind(c, np.array([h for h in HEIGHTS])), name + " computed before the history: wind", 1e-11)
        sut.close(self.alone["vlm"]["gamma"], r["gamma"], name + " computed before the history: circulation", 1e-8, self.top["gamma"])
        sut.close(self.alone["res"]["Ft"], r["F_total"], name + " computed before the history: total force", 1e-8, self.top["Ft"])
        for q, v in (("M_sails_total_COG.", r["M_total"]), ("M_keel_total_COG.", r["M_keel"])):
            sut.close([self.alone["keel"][q + a] for a in "xyz"], v, name + " computed before the history: " + q[:-1], 1e-8, self.top["Mt"])
        self.csys = sut.csys_of(c)
        watched.add(name + ": transformations", self.csys)
        self.built, self.solved, self.results = [], [], []

    # each step returns nothing and compares what it sees with the configuration on its own
    def build(self, pick):
        from pySailingVLM.runner.sail import Sail, Wind
        p = self.parts
        wind, sail = Wind(p["conditions"]), Sail(p["solver"], p["rig"], p["main"], p["jib"], self.csys)
        self.take(wind, sail)

    def take(self, wind, sail):
        s, w = sail.sail_set, wind.profile
        same(see_sail_set(s), self.alone["sail_set"], None, self.name + ": sails")
        sut.close(see_profile(w), self.alone["profile"], self.name + ": wind", 1e-12)
        self.built.append((wind, sail, s, w))
        self.watched.add(self.name + ": sail set", s)
        self.watched.add(self.name + ": wind profile", w)

    def reread(self, pick):
        if not self.built:
            return self.build(pick)
        wind, sail = self.built[pick % len(self.built)][:2]
        self.take(wind, sail)

    def solve(self, pick):
        if not self.built:
            self.build(pick)
        _, _, s, w = self.built[pick % len(self.built)]
        v = sut.vlm_of(self.c, dict(sail_set=s, profile=w))
        same(see_vlm(v), self.alone["vlm"], self.top, self.name + ": solution")
        self.solved.append((s, v))
        self.watched.add(self.name + ": solved case", v)

    def evaluate(self, pick):
        if not self.solved:
            self.solve(pick)
        s, v = self.solved[pick % len(self.solved)]
        res = sut.results_of(dict(sail_set=s, csys_transformations=self.csys), v)
        same(see_results(res), self.alone["res"], self.top, self.name + ": results")
        self.results.append([s, v, res, None])
        self.watched.add(self.name + ": results", res)

    def _result(self, pick):
        if not self.results:
            self.evaluate(pick)
        return self.results[pick % len(self.results)]

    def expected_integral(self, item):
        clr = item[3]
        if clr is None:
            return self.alone["integral"]
        if clr == "own":
            return self.alone["keel"]
        want = dict(self.alone["integral"])
        # another keel: its entries by its own moment, the others as before
        ref_p = np.asarray(self.c["ref"], float)
        k = np.cross(np.asarray(clr) - ref_p, -np.array([want["F_sails_total_COG." + a] for a in "xyz"]))
        for a, m in zip("xyz", k):
            want["M_keel_total_COG." + a] = m
            want["M_total_COG." + a] = m + want["M_sails_total_COG." + a]
        return want

    def integral(self, pick):
        item = self._result(pick)
        got, want = see_integral(item[2]), self.expected_integral(item)
        if item[3] not in (None, "own"):
            sut.require(set(got) == set(self.alone["keel"]), "%s: entries %s" % (self.name, sorted(set(got) ^ set(self.alone["keel"]))))
            got = {q: v for q, v in got.items() if q in want}
            for q, v in self.alone["integral"].items():
                sut.require(q in got, "%s: entry %s is gone" % (self.name, q))
        same_integral(got, want, self.top, self.name + ": integral table")

    def keel(self, pick):
        item = self._result(pick)
        hull = sut.hull_of(self.c, dict(csys_transformations=self.csys, keel=self.parts["keel"]))
        self.watched.add(self.name + ": hull", hull)
        item[2].estimate_heeling_moment_from_keel(hull.center_of_lateral_resistance)
        item[3] = "own"
        self.integral(next(k for k, x in enumerate(self.results) if x is item))

    def other_keel(self, pick):
        item = self._result(pick)
        clr = np.array([[0.5, -0.2, -2.0], [0.0, 0.0, 0.0], self.c["clr"], self.c["ref"]][pick], float)
        keep = clr.copy()
        item[2].estimate_heeling_moment_from_keel(clr)
        sut.require((clr == keep).all(), "the keel estimate modified the given point")
        item[3] = keep.tolist()
        self.integral(next(k for k, x in enumerate(self.results) if x is item))

    def full(self, pick):
        s, v, res, _ = self._result(pick)
        a, b = res.to_df_full(), res.to_df_full()
        sut.require(changed(freeze(a), freeze(b), "table") is None, self.name + ": the full table differs when read twice")
        sut.close(np.asarray(a["F_sails_COG.y"], float), self.alone["res"]["F"][:, 1], self.name + ": full table", 1e-10, self.top["F"])
        df = v.inlet_conditions.to_df_full(self.csys)
        sut.close(np.asarray(df["V_app_infs_COG.x"], float), self.alone["vlm"]["V"][:, 0], self.name + ": inlet table", 1e-10, self.top["V"])

    def save(self, pick):
        item = self._result(pick)
        s, v, res, _ = item
        tables = saved(v, self.csys, res, s)
        same_table(tables[0], self.alone["table"], self.top, self.name + ": panel table")
        same_table(tables[2], self.alone["heights"], {}, self.name + ": reference-height table")
        got = c15.as_dict(tables[1])
        sut.require(got == see_integral(res), self.name + ": the saved totals are not the results'")

    def coefficients(self, pick):
        if not self.solved:
            self.solve(pick)
        s, v = self.solved[pick % len(self.solved)]
        c16.check_sections(v, self.c["nc"], self.c["ns"], self.c["rho"], self.ctx, self.name, self.parts["solver"])

    def girths(self, pick):
        from pySailingVLM.solver.additional_functions import get_cp_z_as_girths_all, get_cp_z_as_girths_all_above
        if not self.solved:
            self.solve(pick)
        s, v = self.solved[pick % len(self.solved)]
        one = get_cp_z_as_girths_all(s, self.csys, v.cp)
        two = get_cp_z_as_girths_all(s, self.csys, v.cp)
        sut.require(all((np.asarray(a) == np.asarray(b)).all() for a, b in zip(one, two)), self.name + ": girths differ when read twice")
        get_cp_z_as_girths_all_above(one[0], s)

    def points(self, pick):
        """Transforms of points the yacht owns."""
        s = self.built[pick % len(self.built)][2] if self.built else None
        P = np.array([[1.0, 2.0, 3.0], [0.5, -1.0, -4.0]]) if s is None else np.asarray(s.panels)[:, 1]
        keep = np.array(P)
        for f in (self.csys.rotate_point_with_mirror, self.csys.reverse_rotations_with_mirror):
            a = [np.asarray(f(p), float) for p in P]
            b = [np.asarray(f(p), float) for p in P]
            sut.require(all((x == y).all() for x, y in zip(a, b)), "%s: a transform differs when repeated" % self.name)
        self.csys.from_xyz_to_centerline_csys(P)
        sut.require((np.asarray(P) == keep).all(), "%s: a transform modified its points" % self.name)

    def show(self, pick):
        import matplotlib.pyplot as plt
        from pySailingVLM.solver import panels_plotter as pp
        item = self._result(pick)
        s, v, res, _ = item
        hull = sut.hull_of(self.c, dict(csys_transformations=self.csys, keel=self.parts["keel"]))
        self.watched.add(self.name + ": hull", hull)
        root = tempfile.mkdtemp(dir=env.scratch())
        try:
            with c22.quiet_style(), c22.recorded_figures(False):
                pp.display_panels_xyz_and_winds(v, res, v.inlet_conditions, hull, show_plot=False, show_induced_wind=bool(pick % 2), is_sailopt_mode=False)
                if pick % 3 == 0:
                    pp.plot_cp(s.zero_mesh, v.p_coeffs, root)
        finally:
            plt.close("all")
            shutil.rmtree(root, ignore_errors=True)

    def alias(self, pick):
        """Arrays handed out, changed by the caller in a copy of the object, leave the yacht alone."""
        if not self.built:
            self.build(pick)
        s = copy.deepcopy(self.built[pick % len(self.built)][2])
        s.panels[...] = 0.0
        s.zero_mesh[...] = 0.0


STEPS = ["build", "reread", "solve", "evaluate", "integral", "keel", "other_keel", "full", "save", "coefficients", "girths", "points", "alias"]
RARE = ["show"]


# ---------------------------------------------------------------- histories
SHARED = dict(conditions=["leeway", "heel", "SOG", "tws", "alpha", "ref_water", "exp", "ref_h", "rho", "profile", "roughness"],
              rig=["main_luff", "jib_luff", "ft_height", "ft_base", "sheer", "boom", "rake", "mast_LOA", "sails"], main=["main"], jib=["jib"],
              solver=["ns", "nc", "interp", "llt"], keel=["clr"])


@st.composite
def nudged(draw, c):
    """The same yacht with one or two settings a little different (a result kept for the first must not serve for it)."""
    c = copy.deepcopy(c)
    tiny = [0.0003, -0.0003, 0.004, -0.004, 0.03, -0.03]
    for k in draw(st.lists(st.sampled_from(["leeway", "heel", "SOG", "tws", "alpha", "ref_water", "exp", "ref_h", "rho", "roughness", "main_luff",
                                            "jib_luff", "ft_height", "ft_base", "sheer", "boom", "rake", "mast_LOA", "ref", "clr", "sail", "sail", "sail"]),
                           min_size=1, max_size=2)):
        d = draw(st.sampled_from(tiny))
        if k == "sail":
            x = c[draw(st.sampled_from(["main", "jib"]))]
            field = draw(st.sampled_from(["chords", "camber", "cpos", "twist"]))
            i = draw(st.integers(0, len(x["girths"]) - 1))
            old = x[field][i]
            x[field][i] = old * (1 + d / 10) if field != "twist" else old + d
            if field in ("camber", "cpos") and not gen.inside(c["interp"], x["girths"], x[field], c["ns"] + 1, 0.0, 0.3 if field == "camber" else 0.9):
                x[field][i] = old
        elif k in ("ref", "clr"):
            c[k][draw(st.integers(0, 2))] += d
        elif k in ("exp", "roughness", "ref_water", "mast_LOA", "boom", "tws", "SOG", "sheer"):
            c[k] = c[k] * (1 + d)
        else:
            c[k] += d
    return c


@st.composite
def histories(draw):
    first = draw(gen.configs(max_ns=3, max_nc=3, styles=False))
    yachts = [first]
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.integers(0, 2)) == 0:
            yachts.append(gen.keep_dry(gen.keep_windy(draw(nudged(draw(st.sampled_from(yachts)))))))
            continue
        other = draw(gen.configs(max_ns=3, max_nc=3, styles=False))
        keep = draw(st.sets(st.sampled_from(sorted(SHARED))))
        if "solver" in keep or "main" in keep or "jib" in keep:
            keep |= {"solver", "main", "jib"}           # the shapes of the sails are drawn for their mesh
        if keep != set(SHARED):
            for part in sorted(keep):
                for k in SHARED[part]:
                    other[k] = copy.deepcopy(first[k])
        if other["ft_base"] < 1.1 * other["ft_height"] * np.cos(np.deg2rad(other["rake"])):
            for k in SHARED["rig"]:
                other[k] = first[k]
        gen.keep_windy(other)
        gen.keep_dry(other)
        yachts.append(other)
    steps = draw(st.lists(st.tuples(st.sampled_from(STEPS + STEPS + RARE), st.integers(0, 2), st.integers(0, 3)).map(list), min_size=3, max_size=14))
    return dict(yachts=yachts, steps=steps)


def corners():
    out = []
    base = gen.corner_configs()
    for k in range(0, len(base), 2):
        yachts = [base[k], base[(k + 5) % len(base)]]
        steps = [["build", 0, 0], ["build", 1, 0], ["solve", 0, 0], ["reread", 0, 0], ["solve", 1, 0], ["evaluate", 0, 0], ["integral", 0, 0],
                 ["evaluate", 1, 0], ["keel", 0, 0], ["integral", 1, 0], ["coefficients", 0, 0], ["save", 0, 0], ["solve", 0, 1],
                 ["points", 0, 1], ["girths", 0, 0], ["other_keel", 0, 0], ["other_keel", 0, 1], ["other_keel", 0, 2], ["other_keel", 0, 3], ["keel", 0, 0], ["full", 0, 0], ["evaluate", 0, 0], ["save", 0, 1]]
        out.append(dict(yachts=yachts, steps=steps + ([["show", 0, k % 4], ["evaluate", 0, 0], ["solve", 1, 0]] if k % 4 == 0 else [])))
    return out


def parts_of(yachts):
    """Configuration objects, shared between yachts wherever their parameters are the same."""
    made, out = {}, []
    for c in yachts:
        parts = sut.containers(c)
        for part, keys in SHARED.items():
            key = (part, repr([c[k] for k in keys]))
            parts[part] = made.setdefault(key, parts[part])
        out.append(parts)
    return out, made


def run_history(case, ctx):
    watched = Watched()
    parts, made = parts_of(case["yachts"])
    for k, p in enumerate(parts):
        for name, x in p.items():
            watched.add("yacht %d: %s" % (k, name), x)
    yachts = [Yacht(c, p, "yacht %d" % k, watched) for k, (c, p) in enumerate(zip(case["yachts"], parts))]
    for y in yachts:
        y.ctx = ctx
    watched.check("computing the yachts before")
    for n, (step, which, pick) in enumerate(case["steps"]):
        y = yachts[which % len(yachts)]
        getattr(y, step)(pick)
        watched.check("step %d (%s of %s)" % (n, step, y.name))
        ctx.label(step)
    if len(made) < sum(len(SHARED) for _ in parts):
        ctx.label("shared configuration objects")


# ---------------------------------------------------------------- single functions
@st.composite
def calls(draw):
    return dict(config=draw(gen.configs(max_ns=3, max_nc=3)), seed=draw(st.integers(0, 999)))


def run_calls(case, ctx):
    """Public functions leave their arguments as they were and repeat themselves."""
    from pySailingVLM.rotations import geometry_calc as gc
    from pySailingVLM.solver import additional_functions as af
    from pySailingVLM.solver import coefs, forces, panels, velocity
    from pySailingVLM.solver.interpolator import Interpolator
    from pySailingVLM.solver import mesher
    c = case["config"]
    r, b, v, res = sut.solved(c, keel=False)
    g = np.random.default_rng(case["seed"])
    nc, ns = c["nc"], c["ns"]
    P, cp, F, n = (np.array(x, float) for x in (v.panels, v.cp, v.force, v.normals))
    V, A, rings, span, te, le, gamma = (np.array(x) for x in (v.inlet_conditions.V_app_infs, v.areas, v.rings, v.span_vectors,
                                                             b["sail_set"].trailing_edge_info, b["sail_set"].leading_edge_info, v.gamma_magnitude))
    W = np.ascontiguousarray(r["W"])
    p3, q3 = g.uniform(-3, 3, 3), g.uniform(-3, 3, 3) + 5
    girths, values = 0.05 + 0.9 * np.array(c["main"]["girths"]), np.array(c["main"]["chords"])
    chords = np.stack([g.uniform(1, 2, ns + 1), np.zeros(ns + 1), np.zeros(ns + 1)], axis=1)
    cam, pos = g.uniform(0.01, 0.2, ns + 1), g.uniform(0.2, 0.8, ns + 1)
    csys = sut.csys_of(c)
    w = b["profile"]
    mesh = np.array(np.swapaxes(mesher.make_airfoil_mesh([p3.copy(), q3.copy()], [nc, ns], chords.copy(), pos.copy(), cam.copy()), 0, 1))
    table = [
        ("rotation about a line", gc, "rotate_points_around_arbitrary_axis", (cp, p3, q3, 0.3)),
        ("rotation matrix", gc, "rotation_matrix", (q3.tolist(), 0.3)),
        ("rotation about the origin", gc, "rotate_points_around_origin_axis", (cp, q3, 0.3)),
        ("divided line", mesher, "discrete_segment", (p3, q3, nc)),
        ("girth interpolation", Interpolator(c["interp"]), "interpolate_girths", (girths, values, ns + 1)),
        ("mesh", mesher, "make_airfoil_mesh", ([p3, q3], [nc, ns], chords, pos, cam)),
        ("panels of a mesh", panels, "make_panels_from_mesh_spanwise", (mesh,)),
        ("areas", panels, "get_panels_area", (P,)),
        ("lattice", coefs, "calculate_vlm_variables", (P, te, -1.0, nc, ns)),
        ("influence", coefs, "calc_velocity_coefs", (V, cp, rings, n, te, -1.0)),
        ("right-hand side", coefs, "calculate_RHS", (V, n)),
        ("equations", coefs, "solve_eq", (np.array(v.coeff), np.array(v.RHS))),
        ("velocities", velocity, "calculate_app_fs", (V, W, gamma)),
        ("forces", forces, "calc_force_wrapper", (V, gamma, c["rho"], cp, rings, ns, n, span, te, le, "force_xyz", -1.0)),
        ("lift", forces, "calc_force_wrapper", (V, gamma, c["rho"], cp, rings, ns, n, span, te, le, "lift", -1.0)),
        ("pressures", forces, "calc_pressure", (F, n, A)),
        ("pressure coefficients", forces, "calc_pressure_coeff", (F[:, 0].copy(), c["rho"], V)),
        ("moments", forces, "calc_moments", (cp, F)),
        ("moment arms", forces, "calc_moment_arm_in_shifted_csys", (cp, p3)),
        ("vector division", forces, "determine_vector_from_its_dot_and_cross_product", (q3, 1.5, np.cross(p3, q3))),
        ("no-flow condition", forces, "is_no_flux_BC_satisfied", (np.array(v.V_app_fs_at_ctrl_p), P, A, n)),
        ("above-water part", af, "extract_above_water_quantities", (F,)),
        ("unit vector", af, "normalize", (q3,)),
        ("section coefficients", coefs, "get_C", (P, A, F, V, ns, nc, c["rho"])),
        ("whole coefficients", coefs, "get_vlm_Cxyz", (F, q3, c["rho"], 7.0)),
        ("centreline components", csys, "from_xyz_to_centerline_csys", (F,)),
        ("heel and leeway", csys, "rotate_point_with_mirror", (q3,)),
        ("heel and leeway undone", csys, "reverse_rotations_with_mirror", (q3,)),
        ("wind", w, "get_true_wind_speed_at_h", (float(abs(cp[0, 2])),)),
    ]
    for what, owner, name, args in table:
        f = getattr(owner, name, None)
        if f is None:
            ctx.label("not there: " + name)
            continue
        before = freeze(list(args))
        one = freeze(plain(f(*args)))
        where = changed(before, freeze(list(args)), "argument")
        sut.require(where is None, "%s: modified its %s" % (what, where))
        first = f(*args)
        two = freeze(plain(first))
        sut.require(changed(one, two, "result") is None, "%s: repeated with the same arguments, another result" % what)
        # a result of one call is not overwritten by the next
        other = [x + 0.25 if isinstance(x, np.ndarray) and x.dtype == float and what in REPEATABLE else x for x in args]
        if what in REPEATABLE:
            f(*other)
            sut.require(changed(two, freeze(plain(first)), "result") is None, "%s: the result of an earlier call was overwritten" % what)
        # what the caller does with a result does not reach later calls
        spoil(f(*copy.deepcopy(args)))
        sut.require(changed(one, freeze(plain(f(*args))), "result") is None, "%s: a change to one result shows in the next" % what)
    ctx.label("%d functions" % len(table))


REPEATABLE = {"rotation about a line", "rotation about the origin", "areas", "right-hand side", "velocities", "moments", "moment arms",
              "above-water part", "pressures", "centreline components", "forces", "lift", "wind", "heel and leeway", "heel and leeway undone"}


def spoil(x):
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype == float:
        x += 1.0
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)


def plain(x):
    return list(x) if isinstance(x, (tuple, list)) else x


# ---------------------------------------------------------------- wings among yachts
@st.composite
def wings(draw):
    return dict(wing=dict(chord=draw(num(0.5, 3, 0.1)), half_span=draw(num(1, 10, 0.5)), aoa=draw(num(1, 12, 0.5)), ns=draw(st.integers(1, 5)),
                          nc=draw(st.integers(1, 3)), U=draw(num(1, 20, 0.5)), rho=draw(num(0.5, 2, 0.1)), orientation=draw(st.sampled_from([1.0, -1.0]))),
                config=draw(gen.configs(max_ns=2, max_nc=2)))


def run_wings(case, ctx):
    c, w = case["config"], case["wing"]
    m = c17.model(w)
    r, b, v, res = sut.solved(c, keel=False)
    keep = [freeze(x) for x in (v, res, b["sail_set"])]
    a = c17.aircraft(w)
    first = freeze(a)
    for k, x in zip(keep, (v, res, b["sail_set"])):
        where = changed(k, freeze(x), "yacht")
        sut.require(where is None, "computing a wing changed the %s" % where)
    _, _, v2, _ = sut.solved(c, keel=False)
    same(see_vlm(v2), see_vlm(v), tops(r, c), "yacht computed after a wing")
    a2 = c17.aircraft(w)
    sut.require(changed(first, freeze(a), "wing") is None, "the wing changed with later computations")
    t = m["top"]
    sut.close(np.asarray(a2.force, float), np.asarray(a.force, float), "wing computed again: forces", 1e-10, t["F"])
    sut.close(np.asarray(a2.Cxyz, float), np.asarray(a.Cxyz, float), "wing computed again: coefficients", 1e-10, t["C"])
    ctx.label("wing and yacht")


# ---------------------------------------------------------------- a parameter study with the same objects
FIELDS = dict(conditions=dict(leeway="leeway_deg", heel="heel_deg", SOG="SOG_yacht", tws="tws_ref", alpha="alpha_true_wind_deg", ref_water="reference_water_level_for_wind_profile",
                              exp="wind_exp_coeff", ref_h="wind_reference_measurment_height", rho="rho", profile="wind_profile", roughness="roughness"),
              rig=dict(main_luff="main_sail_luff", jib_luff="jib_luff", ft_height="foretriangle_height", ft_base="foretriangle_base", sheer="sheer_above_waterline",
                       boom="boom_above_sheer", rake="rake_deg", mast_LOA="mast_LOA", sails="sails_def"),
              solver=dict(ns="n_spanwise", nc="n_chordwise", interp="interpolation_type", llt="LLT_twist"),
              csys=dict(ref="reference_level_for_moments"), keel=dict(clr="center_of_lateral_resistance_upright"))
SECTION = dict(chords="chords", camber="camber", cpos="camber_distance_from_luff", twist="centerline_twist_deg")


@st.composite
def studies(draw):
    edits = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 3)) == 0:
            edits.append(["sail", draw(st.sampled_from(["main", "jib"])), draw(st.sampled_from(sorted(SECTION))), draw(st.integers(0, 6)), draw(num(0.6, 1.4, 0.02)), draw(st.booleans())])
        elif draw(st.integers(0, 5)) == 0:
            edits.append(["back"])
        else:
            k = draw(st.sampled_from(sorted(c23.STEPS)))
            edits.append(["set", k, draw({"ns": st.integers(1, 4), "nc": st.integers(1, 3)}.get(k, c23.STEPS[k])), draw(st.booleans())])
    return dict(config=draw(gen.configs(max_ns=4, max_nc=3, wide=False, styles=False)), edits=edits, again=draw(st.booleans()))


def edited(c, first, edit):
    """The next state of the study; None where it would leave the domain."""
    c = copy.deepcopy(first if edit[0] == "back" else c)
    if edit[0] == "set":
        c[edit[1]] = copy.deepcopy(edit[2])
    elif edit[0] == "sail":
        v = c[edit[1]][edit[2]]
        v[edit[3] % len(v)] = round(v[edit[3] % len(v)] * edit[4], 6)
    if c["interp"] == "spline" and any(len(c[k]["girths"]) < 4 for k in ("main", "jib")):
        return None
    if c["ft_base"] < 1.1 * c["ft_height"] * np.cos(np.deg2rad(c["rake"])):
        return None
    for k in ("main", "jib"):
        x = c[k]
        for field, lo, hi in (("chords", 0.1, 12.0), ("camber", 0.0, 0.3), ("cpos", 0.05, 0.9)):
            if not gen.inside(c["interp"], x["girths"], x[field], c["ns"] + 1, lo, hi):
                return None
    gen.keep_windy(c)
    for _ in range(3):
        gen.keep_dry(c, max(0.15, 1.5 * c["roughness"]))
    return c if ref.lowest_point(c) > 1.2 * c["roughness"] + 0.02 else None


def apply(parts, old, new, in_place):
    for part, fields in FIELDS.items():
        for k, name in fields.items():
            if old[k] != new[k]:
                # the reference point is handed on as it is, so results computed from it would follow an edit inside it
                setattr(parts[part], name, np.array(new[k], float) if isinstance(new[k], list) else new[k])
    for part in ("main", "jib"):
        for k, name in SECTION.items():
            if old[part][k] != new[part][k]:
                if in_place:
                    getattr(parts[part], name)[...] = new[part][k]
                else:
                    setattr(parts[part], name, np.array(new[part][k], float))


def run_study(case, ctx):
    """The configuration objects are edited between computations, as the notebooks' sweeps do."""
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.runner.sail import Sail, Wind
    from pySailingVLM.solver.vlm import Vlm
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    c = first = case["config"]
    p = sut.containers(c)
    for part in ("main", "jib"):
        for name in SECTION.values():
            setattr(p[part], name, np.array(getattr(p[part], name), float))          # room for in-place edits
    done = []
    for n, edit in enumerate([None] + case["edits"]):
        if edit is not None:
            new = edited(c, first, edit)
            if new is None:
                ctx.label("edit outside the domain")
                continue
            apply(p, c, new, bool(edit[-1]) if edit[0] != "back" else True)
            c = new
        r = ref.run(c)
        try:
            sut.domain(r)
        except Skip:
            ctx.label("state outside the domain")
            continue
        csys = CSYS_transformations(p["conditions"].heel_deg, p["conditions"].leeway_deg, v_from_original_xyz_2_reference_csys_xyz=p["csys"].reference_level_for_moments)
        s, w = Sail(p["solver"], p["rig"], p["main"], p["jib"], csys).sail_set, Wind(p["conditions"]).profile
        v = Vlm(s.panels, p["solver"].n_chordwise, p["solver"].n_spanwise, p["conditions"].rho, w, s.trailing_edge_info, s.leading_edge_info)
        res = InviscidFlowResults(s, csys, v)
        hull = HullGeometry(p["rig"].sheer_above_waterline, p["rig"].foretriangle_base, csys, p["keel"].center_of_lateral_resistance_upright)
        res.estimate_heeling_moment_from_keel(hull.center_of_lateral_resistance)
        t, what = tops(r, c), "state %d (%s)" % (n, edit)
        sut.require([x.name for x in s.sails] == ref.sail_names(c), "%s: sails %s" % (what, [x.name for x in s.sails]))
        for name, got, want, top in (("panels", s.panels, r["g"]["panels"], t["points"]), ("true wind", v.inlet_conditions.tws_at_cp, r["tws"], t["tws"]),
                                     ("apparent wind", v.inlet_conditions.V_app_infs, r["V"], t["V"]), ("circulations", v.gamma_magnitude, r["gamma"], t["gamma"]),
                                     ("forces", v.force, r["force"], t["F"]), ("total force", res.F_xyz_total, r["F_total"], t["Ft"]),
                                     ("total moment", res.M_total_above_water_in_xyz_csys, r["M_total"], t["Mt"]), ("keel moment", res.M_xyz_underwater_estimate_total, r["M_keel"], t["Mk"])):
            sut.close(got, want, "%s: %s" % (what, name), 1e-8, top)
        if edit is not None:
            ctx.label("back" if edit[0] == "back" else "edited " + str(edit[2] if edit[0] == "sail" else edit[1]))
        # what was computed for the earlier states stays
        for k, (old_v, old_res, keep) in enumerate(done):
            where = changed(keep, freeze([old_v, old_res]), "results")
            sut.require(where is None, "%s: the results of state %d changed: %s" % (what, k, where))
        if case["again"]:
            done.append((v, res, freeze([v, res])))
    ctx.label("study")


# ---------------------------------------------------------------- at the same time
@st.composite
def crews(draw):
    yachts = [draw(gen.configs(max_ns=3, max_nc=3, styles=False)) for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(1, 2))):
        like = draw(st.sampled_from(yachts))
        yachts.append(gen.keep_dry(gen.keep_windy(draw(nudged(like)))) if draw(st.integers(0, 2)) == 0 else
                      draw(gen.configs(min_ns=like["ns"], max_ns=like["ns"], min_nc=like["nc"], max_nc=like["nc"], sails=(like["sails"],), styles=False)))
    return dict(yachts=yachts, rounds=draw(st.integers(1, 3)))


def run_crew(case, ctx):
    """The yachts computed by threads of one process, against the model and against each computed alone."""
    import sys
    import threading
    alone = []
    for c in case["yachts"]:
        r, b, vlm, res = sut.solved(c)
        alone.append((r, tops(r, c), see_vlm(vlm), see_integral(res), see_sail_set(b["sail_set"])))
    seen, failed = [[] for _ in alone], []
    start = threading.Barrier(len(alone))

    def work(k, c):
        try:
            start.wait(60)
            for _ in range(case["rounds"]):
                b = sut.build(c)
                vlm = sut.vlm_of(c, b)
                res = sut.results_of(b, vlm)
                res.estimate_heeling_moment_from_keel(sut.hull_of(c, b).center_of_lateral_resistance)
                seen[k].append((see_vlm(vlm), see_integral(res), see_sail_set(b["sail_set"])))
        except BaseException as e:
            failed.append(e)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        crew = [threading.Thread(target=work, args=(k, c), daemon=True) for k, c in enumerate(case["yachts"])]
        for t in crew:
            t.start()
        for t in crew:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    if failed:
        raise failed[0]
    for k, (r, t, vlm, integral, sails) in enumerate(alone):
        what = "yacht %d of %d computed at the same time: " % (k, len(alone))
        sut.close(vlm["F"], r["force"], "yacht %d computed alone: forces" % k, 1e-8, t["F"])
        for v, q, s in seen[k]:
            same(s, sails, None, what + "sails")
            sut.close(v["gamma"], r["gamma"], what + "circulation", 1e-8, t["gamma"])
            sut.close(v["F"], r["force"], what + "forces", 1e-8, t["F"])
            sut.close([q["F_sails_total_COG." + a] for a in "xyz"], r["F_total"], what + "total force", 1e-8, t["Ft"])
            for name, m in (("M_sails_total_COG.", r["M_total"]), ("M_keel_total_COG.", r["M_keel"])):
                sut.close([q[name + a] for a in "xyz"], m, what + name[:-1], 1e-8, t["Mt"])
    ctx.label("%d at once" % len(alone))


SUBS = [
    Sub("crews", run_crew, crews, quick=160, thorough=2500, nontrivial=lambda c: len({repr(y) for y in c["yachts"]}) > 1, about="two to four yachts computed by threads of one process at the same time"),
    Sub("studies", run_study, studies, quick=400, thorough=4000, nontrivial=lambda c: len(c["edits"]) > 1, about="configuration objects edited between computations, against the model of each state"),
    Sub("histories", run_history, histories, quick=480, thorough=6000, corners=corners,
        nontrivial=lambda c: len(c["steps"]) >= 5 or len({tuple(s[:2]) for s in c["steps"]}) < len(c["steps"]),
        about="interleaved steps on one to three yachts that share configuration objects"),
    Sub("calls", run_calls, calls, quick=400, thorough=5000, about="every public function called repeatedly on the arrays of a solved yacht"),
    Sub("wings", run_wings, wings, quick=160, thorough=2000, about="a free wing computed between two computations of a yacht"),
]
