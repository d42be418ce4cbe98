"""C18: configurations are complete, independent, and refused when inconsistent."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Sub, Violation
from pbt.gen import num

PROPERTY = "C18"
RULE = ("a case counts when it leaves some value to its default (values), contains an edit after another construction (histories), "
        "or corrupts something (refusals)")
ASSUMPTIONS = ("a process exit and any exception both count as a refusal",
               "values and arrays of a sail that is not asked for are not judged")

MG, JG = [0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 1.0], [0.0, 0.25, 0.5, 0.75, 1.0]
DEFAULTS = {
    "Solver": dict(n_spanwise=4, n_chordwise=4, interpolation_type="spline"),
    "Conditions": dict(leeway_deg=5.0, heel_deg=10.0, SOG_yacht=4.63, tws_ref=4.63, alpha_true_wind_deg=50.0,
                       reference_water_level_for_wind_profile=0.0, wind_exp_coeff=0.1428, wind_reference_measurment_height=10.0,
                       rho=1.225, wind_profile="exponential", roughness=0.05),
    "Rig": dict(main_sail_luff=12.4, jib_luff=10.0, foretriangle_height=11.5, foretriangle_base=3.9, sheer_above_waterline=1.2,
                boom_above_sheer=1.3, rake_deg=92.0, mast_LOA=0.15, sails_def="jib_and_main"),
    "MainSail": dict(girths=MG, chords=[4.0, 3.82, 3.64, 3.2, 2.64, 2.32, 2.0], camber=[0.05] * 7, camber_distance_from_luff=[0.5] * 7,
                     centerline_twist_deg=None),
    "JibSail": dict(girths=JG, chords=[3.8, 2.98, 2.15, 1.33, 0.5], camber=[0.0] * 5, camber_distance_from_luff=[0.5] * 5,
                    centerline_twist_deg=None),
    "Csys": dict(reference_level_for_moments=[0.0, 0.0, 0.0]),
    "Keel": dict(center_of_lateral_resistance_upright=[0.0, 0.0, -1.0]),
}
CHOICES = {"wind_profile": ["exponential", "flat", "logarithmic"], "interpolation_type": ["spline", "linear"],
           "sails_def": ["jib", "main", "jib_and_main"]}
KINDS = sorted(DEFAULTS)


def expected(kind, given):
    want = {k: copy.deepcopy(v) for k, v in DEFAULTS[kind].items()}
    want.update(copy.deepcopy(given))
    if "centerline_twist_deg" in want and want["centerline_twist_deg"] is None:
        slope, start = (12.0, 5.0) if kind == "MainSail" else (15.0, 7.0)
        want["centerline_twist_deg"] = [slope * g + start for g in want["girths"]]
    return want


def construct(kind, given):
    from pySailingVLM.runner import container
    args = {k: np.array(v, float) if isinstance(v, list) else v for k, v in given.items()}
    return getattr(container, kind)(**args)


def check_values(obj, want, what):
    for k, v in want.items():
        got = getattr(obj, k)
        if isinstance(v, str) or isinstance(v, int) and not isinstance(v, bool):
            sut.require(got == v, "%s: %s is %r, expected %r" % (what, k, got, v))
        elif isinstance(v, list):
            # computed defaults may round differently
            sut.close(np.asarray(got, float), np.array(v, float), "%s: %s" % (what, k), 1e-14, max(1.0, sut.scale_of(v)))
        else:
            sut.close(got, v, "%s: %s" % (what, k), 1e-15, abs(v))


@st.composite
def given_values(draw, kind, some=True):
    out = {}
    girths = draw(gen.girth_stations(2, 7))
    for k, d in sorted(DEFAULTS[kind].items()):
        if some and draw(st.booleans()):
            continue
        if k in CHOICES:
            out[k] = draw(st.sampled_from(CHOICES[k]))
        elif isinstance(d, int):
            out[k] = draw(st.integers(1, 40))
        elif k == "girths":
            out[k] = girths
        elif kind in ("MainSail", "JibSail"):
            out[k] = [draw(num(0, 9, 0.01)) for _ in girths]
        elif isinstance(d, list):
            out[k] = [draw(num(-9, 9, 0.01)) for _ in range(3)]
        else:
            out[k] = draw(num(-50, 150, 0.01))
    return out


@st.composite
def one_object(draw):
    kind = draw(st.sampled_from(KINDS))
    return dict(kind=kind, given=draw(given_values(kind)))


def run_values(case, ctx):
    obj = construct(case["kind"], case["given"])
    check_values(obj, expected(case["kind"], case["given"]), case["kind"])
    if case["kind"] == "Solver":
        sut.require(obj.LLT_twist == "real_twist", "Solver: twist mode %r" % (obj.LLT_twist,))
    ctx.label(case["kind"])


# ---------------------------------------------------------------- sequences
@st.composite
def histories(draw):
    ops = []
    n = 0
    kinds = draw(st.lists(st.sampled_from(KINDS + ["MainSail", "JibSail", "Csys", "Keel"]), min_size=1, max_size=3))
    for _ in range(draw(st.integers(2, 9))):
        if n and draw(st.booleans()):
            ops.append(dict(op=draw(st.sampled_from(["edit", "scale", "replace", "edit"])), at=draw(st.integers(0, n - 1)),
                            key=draw(st.integers(0, 11)), index=draw(st.integers(0, 6)), value=draw(num(-90, 90, 0.01))))
        else:
            kind = draw(st.sampled_from(kinds))
            ops.append(dict(op="new", kind=kind, given=draw(given_values(kind)) if draw(st.booleans()) else {}))
            n += 1
    return ops


def run_histories(ops, ctx):
    objects = []
    for i, o in enumerate(ops):
        if o["op"] == "new":
            objects.append((o["kind"], construct(o["kind"], o["given"]), expected(o["kind"], o["given"])))
        else:
            kind, obj, want = objects[o["at"]]
            keys = sorted(want)
            k = keys[o["key"] % len(keys)]
            v = want[k]
            if isinstance(v, list) and o["op"] != "replace":
                got = getattr(obj, k)
                if not np.issubdtype(np.asarray(got).dtype, np.floating):
                    value = float(int(o["value"]))
                else:
                    value = o["value"]
                if o["op"] == "edit":
                    j = o["index"] % len(v)
                    got[j] = value
                    v[j] = value
                else:
                    got *= 2
                    want[k] = [2 * x for x in v]
            elif isinstance(v, (float, list)):
                setattr(obj, k, o["value"] if isinstance(v, float) else np.array([o["value"]] * len(v)))
                want[k] = o["value"] if isinstance(v, float) else [o["value"]] * len(v)
        for j, (kind, obj, want) in enumerate(objects):
            check_values(obj, want, "object %d (%s) after step %d (%s)" % (j, kind, i, o["op"]))
    ctx.label("steps", len(ops))


# ---------------------------------------------------------------- what gets built
def build_all(case, c):
    """The documented way from a configuration to a wind, a sail set and a hull."""
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    from pySailingVLM.runner.sail import Sail, Wind
    csys = CSYS_transformations(c["conditions"].heel_deg, c["conditions"].leeway_deg,
                                v_from_original_xyz_2_reference_csys_xyz=c["csys"].reference_level_for_moments)
    wind = Wind(c["conditions"]).profile
    sails = Sail(c["solver"], c["rig"], c["main"], c["jib"], csys).sail_set
    return wind, sails


HEIGHTS = np.array([0.7, 3.0, 11.0, 24.0])


def run_built(case, ctx):
    c = sut.containers(case)
    if case["sails"] == "main" and case["drop"]:
        c["jib"] = None
    if case["sails"] == "jib" and case["drop"]:
        c["main"] = None
    wind, sails = build_all(case, c)
    true = np.array([np.asarray(wind.get_true_wind_speed_at_h(h), float) for h in HEIGHTS])
    sut.close(true, ref.true_wind(case, HEIGHTS), "true wind of the profile asked for", 1e-12, 30)
    want = {"exponential": "ExpWindProfile", "flat": "FlatWindProfile", "logarithmic": "LogWindProfile"}[case["profile"]]
    sut.require(type(wind).__name__ == want, "profile %r built as %s" % (case["profile"], type(wind).__name__))
    names = [s.name for s in sails.sails]
    sut.require(names == ref.sail_names(case), "sails_def %r built %s" % (case["sails"], names))
    n = 2 * len(names) * case["nc"] * case["ns"]
    sut.require(np.shape(sails.panels) == (n, 4, 3), "%d panels expected, got an array of shape %s" % (n, np.shape(sails.panels)))
    sut.close(sails.panels, ref.build(case)["panels"], "panels of the sails asked for", 1e-9)
    ctx.label("%s %s%s" % (case["sails"], case["profile"], " without the other sail" if case["drop"] else ""))


@st.composite
def buildable(draw):
    return dict(draw(gen.configs(max_ns=4, max_nc=3)), drop=draw(st.booleans()))


# ---------------------------------------------------------------- refusals
SCALARS = {
    "conditions": ["leeway_deg", "heel_deg", "SOG_yacht", "tws_ref", "alpha_true_wind_deg"],
    "rig": ["sheer_above_waterline", "rake_deg"],
    "solver": ["n_spanwise", "n_chordwise"],
}
ARRAYS = ["girths", "chords", "camber", "camber_distance_from_luff", "centerline_twist_deg"]
UNKNOWN = ["", "unknown", "none", "default", "Linear", "cubic", "average", "REAL_TWIST", "exponentional", "expotentional", "log", "jib_main",
           "main_and_jib", "Main", "mainsail", "sails", "force", "Lift", "lift ", "cl", "pressure", "force_x"]


def corruptions(case):
    """Every single corruption that this case's own sails and wind make use of."""
    out = [("unknown", "conditions", "wind_profile"), ("unknown", "rig", "sails_def"), ("unknown", "solver", "interpolation_type"),
           ("unknown", "solver", "LLT_twist")]
    out += [("none", o, k) for o, ks in SCALARS.items() for k in ks]
    out += {"exponential": [("none", "conditions", "wind_exp_coeff"), ("none", "conditions", "wind_reference_measurment_height"),
                            ("none", "conditions", "reference_water_level_for_wind_profile")],
            "logarithmic": [("none", "conditions", "roughness"), ("none", "conditions", "wind_reference_measurment_height")],
            "flat": []}[case["profile"]]
    out += [("none", "conditions", "wind_profile"), ("none", "rig", "sails_def"), ("none", "solver", "interpolation_type")]
    for sail, extra in (("jib", ["jib_luff", "foretriangle_base", "foretriangle_height", "mast_LOA"]), ("main", ["main_sail_luff", "boom_above_sheer"])):
        if sail in case["sails"]:
            out += [("none", "rig", k) for k in extra]
            out += [(how, sail, k) for k in ARRAYS for how in ("none", "shorter", "longer")]
            out += [("none", sail, None)]
    return out


@st.composite
def corrupted(draw):
    case = draw(gen.configs(max_ns=3, max_nc=2))
    return dict(config=case, corruption=list(draw(st.sampled_from(corruptions(case)))), text=draw(st.sampled_from(UNKNOWN)),
                other=draw(st.booleans()))


def run_refusals(case, ctx):
    how, obj, key = case["corruption"]
    config = case["config"]
    c = sut.containers(config)
    build_all(config, c)                              # the sound configuration is accepted
    c = sut.containers(config)
    if case["other"] and config["sails"] != "jib_and_main":
        c["jib" if config["sails"] == "main" else "main"] = None
    if key is None:
        c[obj] = None
    elif how == "none":
        setattr(c[obj], key, None)
    elif how == "unknown":
        setattr(c[obj], key, case["text"])
    else:
        a = getattr(c[obj], key)
        setattr(c[obj], key, a[:-1] if how == "shorter" else np.append(a, a[-1] + (1.0 if key == "girths" else 0.0)))

    def compute():
        wind, sails = build_all(config, c)
        from pySailingVLM.inlet.inlet_conditions import InletConditions
        InletConditions(wind, config["rho"], np.array([[0.0, 0.0, 5.0]]))
        np.asarray(sails.panels, float)
    sut.refused(compute, "%s of %s%s%s" % (how, obj, "." + key if key else "", " (%r)" % case["text"] if how == "unknown" else ""))
    ctx.label("%s %s" % (how, key or obj))


def every_corruption():
    out = []
    for profile in ("exponential", "logarithmic", "flat"):
        for sails in ("jib", "main", "jib_and_main"):
            base = gen.rich_config(profile=profile, roughness=0.01, sails=sails, ns=2, nc=1)
            for k in corruptions(base):
                out.append(dict(config=base, corruption=list(k), text=UNKNOWN[len(out) % len(UNKNOWN)], other=False))
    return out


# ---------------------------------------------------------------- names
@st.composite
def names(draw):
    return dict(name=draw(st.one_of(st.sampled_from(UNKNOWN), st.text(max_size=8))), what=draw(st.sampled_from(["force", "plot"])),
                data=draw(st.integers(1, 4)))


def run_names(case, ctx):
    name = case["name"]
    rng = np.random.default_rng(case["data"])
    if case["what"] == "force":
        from pySailingVLM.solver.forces import calc_force_wrapper
        case_ = gen.default_config(ns=2, nc=1, sails="main")
        g = ref.build(case_)
        r = ref.solve(g["panels"], g["te"], 1, 2, np.tile([3.0, 4.0, 0.0], (4, 1)), 1.2)
        call = lambda n: calc_force_wrapper(r["V"].copy(), r["gamma"].copy(), 1.2, r["cp"].copy(), r["rings"].copy(), 2, r["normals"].copy(),
                                            r["span"].copy(), g["te"].copy(), g["le"].copy(), n, -1.0)
        if name in ("lift", "drag", "force_xyz"):
            return
        sut.refused(lambda: call(name), "force kind %r" % name)
        for k, want in (("lift", r["lift"]), ("drag", r["drag"]), ("force_xyz", r["force"])):
            sut.close(call(k)[0], want, "force of kind " + k, 1e-9, sut.scale_of(r["force"]))
    else:
        from pySailingVLM.solver import panels_plotter
        if name in ("lift", "drag"):
            return
        folder = tempfile.mkdtemp(dir=env.scratch())
        try:
            use = panels_plotter.plt.style.use
            panels_plotter.plt.style.use = lambda *a, **k: None
            try:
                sut.refused(lambda: panels_plotter.plot_section_coeff([rng.uniform(size=3)], np.array([[1.0, 2.0, 3.0]]), folder, name, ["blue", "green"]),
                            "coefficient name %r" % name)
            finally:
                panels_plotter.plt.style.use = use
                panels_plotter.plt.close("all")
            sut.require(os.listdir(folder) == [], "refused, but %s was written" % os.listdir(folder))
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    ctx.label("name of a " + case["what"])


SUBS = [
    Sub("values", run_values, one_object, quick=6000, thorough=60000, corners=[dict(kind=k, given={}) for k in KINDS],
        nontrivial=lambda c: len(c["given"]) < len(DEFAULTS[c["kind"]]), about="every configuration object from any subset of its values"),
    Sub("histories", run_histories, histories, quick=5000, thorough=50000,
        nontrivial=lambda ops: len([o for o in ops if o["op"] == "new"]) > 1 and any(o["op"] != "new" for o in ops),
        about="constructions and in-place edits in any order; every object is compared with its own model after every step"),
    Sub("built", run_built, buildable, quick=1400, thorough=14000, about="wind and sail set of complete configurations, with or without the sail not asked for"),
    Sub("refusals", run_refusals, corrupted, quick=5000, thorough=50000, corners=every_corruption,
        about="every single corruption of generated configurations: missing, unequal, unknown"),
    Sub("names", run_names, names, quick=1200, thorough=6000, about="force kinds and coefficient names"),
]
