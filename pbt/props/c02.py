"""C02: wind profiles, apparent wind, panel winds and the reference-height table."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num

PROPERTY = "C02"
RULE = "a case counts when there is some true wind and some apparent wind"
ASSUMPTIONS = ("heights above the reference water level (exponential) or above zero (logarithmic)",)


# ---------------------------------------------------------------- one wind at generated heights
@st.composite
def winds(draw):
    return dict(
        profile=draw(st.sampled_from(["exponential", "logarithmic", "flat"])),
        alpha=draw(st.one_of(num(-180, 360, 0.5), st.sampled_from([0.0, 90.0, 180.0, 45.0]))),
        tws=draw(st.one_of(num(0, 40, 0.01), st.sampled_from([0.0, 4.63]))),
        SOG=draw(st.one_of(num(0, 20, 0.01), st.sampled_from([0.0, 4.63]))),
        ref_h=draw(num(0.5, 40, 0.1)), exp=draw(st.one_of(num(0, 1, 0.0001), st.just(0.1428))),
        ref_water=-draw(st.one_of(st.just(0.0), num(0, 5, 0.05))),
        roughness=draw(st.one_of(num(0.0001, 0.45, 0.0001), st.just(0.0002))),
        leeway=draw(num(-20, 20, 0.5)), heel=draw(num(-30, 30, 1)),
        ref=[draw(num(-3, 3, 0.5)) for _ in range(3)],
        points=[[draw(num(-10, 10, 0.1)), draw(num(-10, 10, 0.1)),
                 draw(st.sampled_from([1, -1])) * draw(st.one_of(num(0.01, 45, 0.01), num(0.01, 45, 0.01), num(45, 600, 0.5)))]
                for _ in range(draw(st.integers(1, 6)))],
        via=draw(st.sampled_from(["conditions", "class"])), rho=draw(num(0.5, 2, 0.1)),
        more=draw(st.sampled_from([0] * 12 + [60, 150, 400])), seed=draw(st.integers(0, 99)),
        style=draw(st.sampled_from([None, None, None, "whole", "numpy"])))


def all_points(case):
    """The drawn points and, now and then, a whole mesh of others."""
    points, more = np.array(case["points"]), case.get("more", 0)
    if more:
        g = np.random.default_rng(case["seed"])
        z = g.uniform(0.05, 40, more) * g.choice([-1, 1], more)
        points = np.concatenate([points, np.round(np.stack([g.uniform(-9, 9, more), g.uniform(-9, 9, more), z], axis=1), 3)])
    return points


def whole(case):
    """Whole numbers, to be given as integers."""
    keys = ("alpha", "tws", "SOG", "ref_water", "leeway", "heel")
    return dict(case, ref_h=max(1.0, float(round(case["ref_h"]))), points=[[float(round(x)), float(round(y)), float(np.sign(z) * max(1, round(abs(z))))] for x, y, z in case["points"]],
                **{k: float(round(case[k])) for k in keys})


def profile_of(case):
    case = {k: sut.styled(v, case.get("style")) if k != "rho" else v for k, v in case.items()}
    if case["via"] == "class":
        from pySailingVLM.inlet.winds import ExpWindProfile, FlatWindProfile, LogWindProfile
        base = (case["alpha"], case["tws"], case["SOG"])
        if case["profile"] == "flat":
            return FlatWindProfile(*base)
        if case["profile"] == "logarithmic":
            return LogWindProfile(*base, roughness=case["roughness"], reference_measurment_height=case["ref_h"])
        return ExpWindProfile(*base, exp_coeff=case["exp"], reference_measurment_height=case["ref_h"],
                              reference_water_level_for_wind_profile=case["ref_water"])
    from pySailingVLM.runner.container import Conditions
    from pySailingVLM.runner.sail import Wind
    return Wind(Conditions(
        leeway_deg=case["leeway"], heel_deg=case["heel"], SOG_yacht=case["SOG"], tws_ref=case["tws"],
        alpha_true_wind_deg=case["alpha"], reference_water_level_for_wind_profile=case["ref_water"],
        wind_exp_coeff=case["exp"], wind_reference_measurment_height=case["ref_h"], rho=case["rho"],
        wind_profile=case["profile"], roughness=case["roughness"])).profile


def same_angle(got, want, what, speed, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    sut.require(got.shape == want.shape, "%s: shape %s" % (what, got.shape))
    d = np.abs((got - want + 180.0) % 360.0 - 180.0)
    bad = ~(d <= tol) & (np.asarray(speed) > 1e-9)
    if bad.any():
        k = int(np.argmax(bad))
        raise Violation("%s: %r degrees, expected %r (panel %d)" % (what, float(got.flat[k]), float(want.flat[k]), k))


def check_inlet(ic, case, points, ctx, csys):
    """`points` are the pressure points where they ought to be."""
    h = np.abs(points[:, 2])
    T, V = ref.true_wind(case, h), ref.apparent_wind(case, h)
    top = max(1e-3, float(np.abs(T).max()), float(np.abs(V).max()))
    sut.close(ic.tws_at_cp, T, "true wind at the pressure points", 1e-11, top)
    sut.close(ic.V_app_infs, V, "apparent wind at the pressure points", 1e-11, top)
    speed = np.linalg.norm(V, axis=1)
    sut.close(ic.tws_length_at_ctr_points, np.linalg.norm(T, axis=1), "true wind speed", 1e-11, top)
    sut.close(ic.V_app_infs_length, speed, "apparent wind speed", 1e-11, top)
    awa = np.rad2deg(np.arctan2(V[:, 1], V[:, 0]))
    calm = np.where(speed > 1e-6 * top, speed, 0.0)
    same_angle(ic.AWA_infs_deg, awa, "apparent wind angle to the course", calm)
    df = ic.to_df_full(csys)
    col = lambda name: df[name].to_numpy(dtype=float)
    for k, axis in enumerate("xyz"):
        sut.close(col("TWS_COG." + axis), T[:, k], "column TWS_COG." + axis, 1e-11, top)
        sut.close(col("V_app_infs_COG." + axis), V[:, k], "column V_app_infs_COG." + axis, 1e-11, top)
        sut.close(col("cp_points_COG." + axis), points[:, k], "column cp_points_COG." + axis, 1e-9, 40.0)
    sut.close(col("TWS_length"), np.linalg.norm(T, axis=1), "column TWS_length", 1e-11, top)
    sut.close(col("V_app_infs_length"), speed, "column V_app_infs_length", 1e-11, top)
    same_angle(col("AWA_infs_COG_deg"), awa, "column AWA_infs_COG_deg", calm)
    same_angle(col("AWA_infs_COW_deg"), awa - case["leeway"], "column AWA_infs_COW_deg", calm)
    sut.require(len(df) == len(points), "the inlet table has %d rows for %d panels" % (len(df), len(points)))


def check_table(profile, case, csys):
    df = profile.to_df_integral(csys)
    if case["profile"] != "exponential":
        return          # documented as not implemented for the other profiles
    got = dict(zip(df["Quantity"], df["Value"]))
    h = np.array([case["ref_h"]])
    T, V = ref.true_wind(case, h)[0], ref.apparent_wind(case, h)[0]
    top = max(1e-3, float(np.abs(T).max()), float(np.abs(V).max()))
    want = {"Reference_measurement_height": case["ref_h"],
            "Reference_water_level_for_wind_profile": case["ref_water"],
            "TWS_length_at_reference_height": np.linalg.norm(T),
            "V_app_infs_length_at_reference_height_COG": np.linalg.norm(V)}
    for k, axis in enumerate("xyz"):
        want["TWS_at_reference_height_COG." + axis] = T[k]
        want["V_app_infs_at_reference_height_COG." + axis] = V[k]
    for name, value in want.items():
        sut.close(got[name], value, "reference-height table: " + name, 1e-11, max(top, abs(float(value))))
    awa = np.rad2deg(np.arctan2(V[1], V[0]))
    speed = np.linalg.norm(V) if np.linalg.norm(V) > 1e-6 * top else 0.0
    same_angle([got["AWA_infs_at_reference_height_COG_deg"]], [awa], "reference-height angle to the course", [speed])
    same_angle([got["AWA_infs_at_reference_height_COW_deg"]], [awa - case["leeway"]],
               "reference-height angle to the centreline", [speed])


def run_wind(case, ctx):
    from pySailingVLM.inlet.inlet_conditions import InletConditions
    if case.get("style") == "whole":
        case = whole(case)
    if case["profile"] == "logarithmic":
        if case["ref_h"] < 1.1 * case["roughness"]:
            raise Skip("reference height not above the roughness")
        low = min(abs(p[2]) for p in case["points"])
        if low < case["roughness"]:
            ctx.label("below the roughness height")
    profile = profile_of(case)
    csys = sut.csys_of(case)
    a = np.deg2rad(case["alpha"])
    along = np.array([np.cos(a), np.sin(a), 0.0])
    top = max(case["tws"], 1e-3)
    at_reference = case["ref_h"] + (case["ref_water"] if case["profile"] == "exponential" else 0.0)
    for h in [abs(p[2]) for p in case["points"]] + [at_reference]:
        v = np.asarray(profile.get_true_wind_speed_at_h(sut.styled(h, case.get("style"))), float)
        want = ref.true_wind(case, np.array([h]))[0]
        sut.close(v, want, "true wind at height %r" % h, 1e-11, max(top, float(np.abs(want).max())))
        if h == at_reference:
            sut.close(v, case["tws"] * along, "true wind at the reference height", 1e-11, top)
        app = np.asarray(profile.get_app_infs_at_h(v), float)
        sut.close(app, want + [case["SOG"], 0, 0], "apparent wind at height %r" % h, 1e-11,
                  max(top, case["SOG"], float(np.abs(want).max())))
    for h in [abs(p[2]) for p in case["points"]] + [at_reference]:
        v = np.asarray(profile.get_true_wind_speed_at_h(h), float)
        app = v + [case["SOG"], 0, 0]
        if np.linalg.norm(v) > 1e-3 * top and np.linalg.norm(app) > 0.05 * (np.linalg.norm(v) + case["SOG"]):
            same_angle(np.rad2deg(profile.get_app_alfa_infs_at_h(v)), np.rad2deg(np.arctan2(app[1], app[0])),
                       "apparent wind angle at height %r" % h, 1.0, 1e-4)
    points = all_points(case)
    ic = InletConditions(profile, case["rho"], points.copy())
    check_inlet(ic, case, points, ctx, csys)
    check_table(profile, case, csys)
    ctx.label(case["profile"] + " by " + case["via"])


# ---------------------------------------------------------------- the panels of a solved case
def run_case(case, ctx):
    r, b, vlm, _ = sut.solved(case, keel=False)
    check_inlet(vlm.inlet_conditions, case, r["cp"], ctx, b["csys_transformations"])
    half = r["half"]
    idx = ref.image_index(len(r["g"]["sails"]), case["nc"], case["ns"])
    sut.close(np.asarray(vlm.inlet_conditions.V_app_infs)[idx], np.asarray(vlm.inlet_conditions.V_app_infs)[:half],
              "apparent wind of the underwater image", 1e-10)
    check_table(b["profile"], case, b["csys_transformations"])
    ctx.label("solved " + case["profile"])


def windy(case):
    return case["tws"] > 0 and (case["SOG"] > 0 or True)


def warm():
    sut.solved(gen.default_config(ns=1, nc=1))


SUBS = [
    Sub("wind", run_wind, winds, quick=12000, thorough=120000, nontrivial=windy,
        about="profiles at generated heights, built from a configuration or directly, with inlet tables"),
    Sub("case", run_case, lambda: gen.configs(max_ns=3, max_nc=2), quick=320, thorough=4000, corners=gen.corner_configs,
        nontrivial=windy, about="winds of the panels of solved cases, images included"),
]
