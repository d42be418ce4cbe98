"""C23: the whole pipeline against the independent model, on finer meshes and a wider range."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Sub
from pbt.gen import num
from pbt.props import c08, c11
from pbt.props.c12 import tops
from pbt.props.c13 import check_results, table
from pbt.props.c15 import angle

PROPERTY = "C23"
RULE = "a case counts when there is wind or speed and more than one panel per sail"
ASSUMPTIONS = ("the domain of C10", "pressures are compared through the panel's area, where the recorded finding on areas is met")
warm = sut.warm


def check_everything(case, ctx):
    r, b, vlm, res = sut.solved(case)
    t = tops(r, case)
    arr = lambda x: np.asarray(x, float)
    g = r["g"]
    sut.require([s.name for s in b["sail_set"].sails] == ref.sail_names(case), "sails of the yacht")
    sut.close(b["sail_set"].panels, g["panels"], "panels", 1e-10, t["points"])
    sut.close(b["sail_set"].zero_mesh, g["zero"], "panels of the unrotated sails", 1e-10, t["points"])
    c08.check_areas(vlm.areas, g["panels"], ctx)
    for name, got, want, top in (
            ("centres of pressure", vlm.cp, r["cp"], t["points"]), ("control points", vlm.ctr_p, r["ctr"], t["points"]),
            ("normals", vlm.normals, r["normals"], 1.0), ("rings", vlm.rings, r["rings"], t["points"]),
            ("true wind", vlm.inlet_conditions.tws_at_cp, r["tws"], t["tws"]),
            ("apparent wind", vlm.inlet_conditions.V_app_infs, r["V"], t["V"]),
            ("circulations", vlm.gamma_magnitude, r["gamma"], t["gamma"]),
            ("velocities at the centres of pressure", vlm.V_app_fs_at_cp, r["Vt"], t["Vt"]),
            ("induced velocities", vlm.V_induced_at_cp, r["Vi"], t["Vt"]),
            ("velocities at the control points", vlm.V_app_fs_at_ctrl_p, r["Vt_ctr"], t["Vt"]),
            ("forces", vlm.force, r["force"], t["F"]), ("lift", vlm.lift, r["lift"], t["F"]), ("drag", vlm.drag, r["drag"], t["F"]),
            ("moments", res.M_xyz, r["M"], t["M"]), ("total force", res.F_xyz_total, r["F_total"], t["Ft"]),
            ("total moment", res.M_total_above_water_in_xyz_csys, r["M_total"], t["Mt"]),
            ("keel moment", res.M_xyz_underwater_estimate_total, r["M_keel"], t["Mk"])):
        sut.close(got, want, name + " against the model", 1e-8, top)
    turn = (np.deg2rad(arr(vlm.inlet_conditions.AWA_infs_deg)) - np.deg2rad(angle(r["V"])) + np.pi) % (2 * np.pi) - np.pi
    sut.close(turn, 0 * turn, "apparent wind angles", 1e-8, 1.0)
    turn = (arr(res.AWA_app_fs) - np.deg2rad(angle(r["Vt"])) + np.pi) % (2 * np.pi) - np.pi
    flat = np.hypot(r["Vt"][:, 0], r["Vt"][:, 1]) > 1e-3 * t["Vt"]
    sut.close(turn[flat], 0 * turn[flat], "wind angles at the sails", 1e-5, 1.0)
    got = table(res.to_df_integral())
    for name, (F, M) in r["per_sail"].items():
        for k, a in enumerate("xyz"):
            sut.close(got["F_%s_total_COG.%s" % (name, a)], F[k], "force of the %s" % name, 1e-8, t["Ft"])
            sut.close(got["M_%s_total_COG.%s" % (name, a)], M[k], "moment of the %s" % name, 1e-8, t["Mt"])
    top = case["rho"] * (sut.scale_of(r["V"]) + sut.scale_of(r["Vt"])) * (sut.scale_of(r["bound"]) + 1e-9 * sut.scale_of(r["V"]) * sut.scale_of(r["span"]) ** 2)
    c11.check_pressure(vlm.pressure, vlm.p_coeffs, r["force"], g["panels"], r["V"], case["rho"], 100 * top, ctx, "yacht")
    check_results(res, arr(vlm.cp), arr(vlm.force), case["ref"], r["clr"], ref.sail_names(case), case["leeway"], ctx, t["F"], t["M"])
    return r


def run_yacht(case, ctx):
    r = check_everything(case, ctx)
    N = len(r["V"])
    ctx.label("%d panels or more" % (N // 40 * 40))
    ctx.label("%s, %s, %s" % (case["sails"], case["profile"], case["llt"]))


@st.composite
def fine(draw):
    return draw(gen.configs(max_ns=12, max_nc=7, min_ns=2))


# ---------------------------------------------------------------- one parameter away from the example
STEPS = dict(heel=num(-50, 50, 0.5), leeway=num(-40, 40, 0.5), SOG=num(0.1, 25, 0.05), tws=num(0, 40, 0.05), alpha=st.one_of(num(0, 180, 0.5), num(-180, 360, 0.5)), ref_h=num(1, 60, 0.5),
             exp=num(0, 1, 0.001), ref_water=num(-6, 0, 0.05), roughness=num(0.0001, 0.2, 0.0001), rho=num(0.05, 1100, 0.05), rake=num(65, 115, 0.5),
             sheer=num(0.2, 9, 0.05), boom=num(0.0, 6, 0.05), main_luff=num(1, 60, 0.1), jib_luff=num(1, 50, 0.1), ft_height=num(2, 40, 0.1),
             ft_base=num(0.5, 15, 0.05), mast_LOA=num(0, 3, 0.01), ref=st.lists(num(-20, 20, 0.1), min_size=3, max_size=3),
             clr=st.lists(num(-9, 9, 0.1), min_size=3, max_size=3), sails=st.sampled_from(["jib", "main", "jib_and_main"]),
             profile=st.sampled_from(["exponential", "logarithmic", "flat"]), interp=st.sampled_from(["linear", "spline"]),
             llt=st.sampled_from(["real_twist", "average_const", "sheeting_angle_const"]), ns=st.integers(1, 12), nc=st.integers(1, 8))


@st.composite
def steps(draw):
    base = draw(st.sampled_from(["default", "rich"]))
    change = {}
    for k in draw(st.lists(st.sampled_from(sorted(STEPS)), min_size=1, max_size=3, unique=True)):
        change[k] = draw(STEPS[k])
    sails = {}
    for k in draw(st.lists(st.sampled_from(["chords", "camber", "cpos", "twist"]), max_size=2, unique=True)):
        sails[k] = [draw(st.sampled_from(["main", "jib"])), draw(st.integers(0, 6)), draw(num(0.5, 1.5, 0.01))]
    return dict(base=base, change=change, sails=sails)


def stepped(case):
    c = (gen.default_config if case["base"] == "default" else gen.rich_config)(**copy.deepcopy(case["change"]))
    for k, (s, i, f) in case["sails"].items():
        c[s] = dict(c[s])
        v = list(c[s][k])
        v[i % len(v)] = round(v[i % len(v)] * f, 6)
        c[s][k] = v
    if c["interp"] == "spline" and case["base"] == "rich":
        c["jib"] = gen.default_config()["jib"]
    if c["ft_base"] < 1.1 * c["ft_height"] * np.cos(np.deg2rad(c["rake"])):
        c["rake"] = 90.0
    gen.keep_windy(c)
    for _ in range(3):
        gen.keep_dry(c)
    from pbt.core import Skip
    if ref.lowest_point(c) < 0.1:
        raise Skip("a sail in the water")
    for name, parts in (("jib", "jib"), ("main_sail", "main")):
        if name in ref.sail_names(c):
            sec = ref.sail_sections(c, name)
            if sec["chords"].min() < 0.05 or sec["camber"].min() < -1e-12 or sec["camber"].max() > 0.3 or sec["cpos"].min() < 0.05 or sec["cpos"].max() > 0.9:
                raise Skip("a spline overshoots the physical range")
    return c


def run_step(case, ctx):
    c = stepped(case)
    check_everything(c, ctx)
    for k in list(case["change"]) + list(case["sails"]):
        ctx.label("changed " + k)


def step_corners():
    ends = dict(heel=[-50.0, 50.0, 0.0], leeway=[-40.0, 40.0, 0.0], alpha=[0.0, 90.0, 180.0, -75.0, 285.0], exp=[0.0, 1.0], rake=[65.0, 90.0, 115.0], boom=[0.0], mast_LOA=[0.0, 3.0],
                ref_water=[-6.0, 0.0], rho=[1.0, 1025.0], tws=[0.0], sails=["jib", "main", "jib_and_main"], profile=["exponential", "logarithmic", "flat"],
                interp=["linear", "spline"], llt=["real_twist", "average_const", "sheeting_angle_const"], ns=[1, 12], nc=[1, 8])
    return [dict(base=base, change={k: v}, sails={}) for base in ("default", "rich") for k, vs in ends.items() for v in vs]


# ---------------------------------------------------------------- wings standing on the water plane
FALKNER = {0.0: 2.524, 30.0: 2.480, 45.0: 2.359}         # lift slopes for aspect ratio 2


def run_wing(case, ctx):
    r = check_everything(case, ctx)
    if (case["ns"], case["nc"], case["main_luff"], case["alpha"]) == (4, 1, 0.5 / np.cos(np.deg2rad(45.0)), 4.2):
        b = sut.build(case)
        vlm = sut.vlm_of(case, b)
        from pySailingVLM.solver.coefs import get_C
        c = np.asarray(get_C(vlm.panels, vlm.areas, vlm.lift, vlm.inlet_conditions.V_app_infs, 4, 1, case["rho"]))[0]
        # Bertin: C_L = 1.096 pi^2/180 alpha, local circulations of the four sections
        sut.close(c.mean(), 1.096 * np.pi ** 2 / 180 * case["alpha"], "lift coefficient of Bertin's wing", 4e-3)
        sut.close(c / c.mean(), np.array([0.0273, 0.0287, 0.0286, 0.0250]) * 4 / 0.1096, "spanwise lift of Bertin's wing", 6e-3)
        ctx.label("Bertin's wing")
    sweep = case["rake"] - 90
    if abs(case["main_luff"] * np.cos(np.deg2rad(sweep)) - 50.0) < 1e-9 and (case["main"]["chords"], case["alpha"]) == ([50.0] * 5, 4.0) and sweep in FALKNER:
        b = sut.build(case)
        vlm = sut.vlm_of(case, b)
        h, a = r["half"], np.deg2rad(case["alpha"])
        slope = float(np.asarray(vlm.force)[:h].sum(axis=0) @ [-np.sin(a), np.cos(a), 0]) / (0.5 * np.asarray(vlm.areas)[:h].sum()) / a
        sut.close(slope, FALKNER[sweep], "lift slope of Falkner's wing with %g degrees of sweep" % sweep, 0.03)
        ctx.label("Falkner's wing")
    ctx.label("%s, sweep %+d" % (case["profile"], np.sign(case["rake"] - 90)))


def windy(c):
    return (c["SOG"] > 0 or c["alpha"] > 0) and c["ns"] * c["nc"] > 1


SUBS = [
    Sub("fine", run_yacht, fine, quick=720, thorough=8000, corners=lambda: gen.corner_configs() + gen.fine_corners(), nontrivial=windy, about="generated yachts on meshes of up to 12 by 7 panels"),
    Sub("wings", run_wing, gen.wing_configs, quick=400, thorough=5000, corners=gen.wing_corners, nontrivial=lambda c: c["ns"] * c["nc"] > 1,
        about="swept and tapered wings standing on the water plane, as in the example notebooks, with Bertin's published lift"),
    Sub("steps", run_step, steps, quick=1120, thorough=10000, corners=step_corners, about="the example yachts with one to five parameters changed, over a wide range"),
]
