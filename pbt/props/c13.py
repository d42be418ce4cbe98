"""C13: totals, moments, centreline components, centre of effort and keel estimate."""
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub
from pbt.gen import num
from pbt.props.c03 import centreline
from pbt.props.c12 import tops

PROPERTY = "C13"
RULE = "a case counts when the forces are not all zero"
ASSUMPTIONS = ("the moment arm of the image panels is taken about the image of the reference point (documented in the code); "
               "no above-water centre of pressure lies at or below the water",)
warm = sut.warm


def table(df):
    got = {}
    for q, v in zip(df["Quantity"], df["Value"]):
        sut.require(q not in got, "integral table lists %r twice" % (q,))
        got[q] = float(v)
    return got


def check_results(res, cp, F, M_arm_ref, clr_heeled, names, leeway, ctx, topF, topM, keel=True, what=""):
    """Everything the result object reports, recomputed from panel forces and points.

    The first half of the panels is above the water, the sails in the order of `names`."""
    v = np.asarray(M_arm_ref, float)
    half = len(F) // 2
    up = np.where(np.arange(len(F)) < half, 1.0, -1.0)[:, None]
    arm = cp - np.concatenate([np.tile(v[:2], (len(F), 1)), up * v[2]], axis=1)
    M = np.cross(arm, F)
    Ft, Mt = F[:half].sum(axis=0), M[:half].sum(axis=0)
    sut.close(res.F_xyz, F, what + "panel forces", 1e-12, topF)
    sut.close(res.F_xyz_above_water, F[:half], what + "above-water forces", 1e-12, topF)
    sut.close(res.F_xyz_total, Ft, what + "total force", 1e-11, topF * half)
    sut.close(res.M_xyz, M, what + "panel moments", 1e-11, topM)
    sut.close(res.M_total_above_water_in_xyz_csys, Mt, what + "total moment", 1e-11, topM * half)
    centreline(res.F_centerline, F, leeway, ctx, what + "panel forces along the centreline", 1e-10, topF)
    centreline(res.M_centerline_csys, M, leeway, ctx, what + "panel moments along the centreline", 1e-10, topM)
    centreline(res.F_centerline_total, Ft, leeway, ctx, what + "total force along the centreline", 1e-10, topF * half)
    centreline(res.M_total_above_water_in_centerline_csys, Mt, leeway, ctx, what + "total moment along the centreline", 1e-10, topM * half)
    got = table(res.to_df_integral())
    Fc, Mc = np.asarray(res.F_centerline_total, float), np.asarray(res.M_total_above_water_in_centerline_csys, float)
    want = {}
    heel = ("x (heel)", "y (pitch)", "z (yaw)")

    def put(prefix, xyz, tags, top, jg=False):
        for k, t in enumerate(tags):
            want["%s.%s" % (prefix, t)] = (xyz[k], top)
        if jg:
            want[prefix + ".z (yaw - JG sign)"] = (-xyz[2], top)
    put("F_sails_total_COG", Ft, "xyz", topF * half)
    put("F_sails_total_COW", Fc, "xyz", topF * half)
    put("M_sails_total_COG", Mt, "xyz", topM * half)
    put("M_sails_total_COW", Mc, heel, topM * half, True)
    n = half // len(names)
    sums = np.zeros((2, 3))
    for k, name in enumerate(names):
        f, m = F[k * n:(k + 1) * n].sum(axis=0), M[k * n:(k + 1) * n].sum(axis=0)
        put("F_%s_total_COG" % name, f, "xyz", topF * half)
        put("M_%s_total_COG" % name, m, "xyz", topM * half)
    if keel:
        Mk = np.cross(np.asarray(clr_heeled, float) - v, -Ft)
        sut.close(res.M_xyz_underwater_estimate_total, Mk, what + "keel moment", 1e-10, topM * half)
        Mkc = np.asarray(res.M_centerline_csys_underwater_estimate_total, float)
        centreline(Mkc, Mk, leeway, ctx, what + "keel moment along the centreline", 1e-10, topM * half)
        put("M_keel_total_COG", Mk, "xyz", topM * half)
        put("M_keel_total_COW", Mkc, heel, topM * half, True)
        put("M_total_COG", Mt + Mk, "xyz", topM * half)
        put("M_total_COW", Mc + Mkc, heel, topM * half, True)
    sut.require(set(got) == set(want), "%sintegral table: missing %s, unexpected %s"
                % (what, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for q, (value, top) in want.items():
        sut.close(got[q], value, "%sintegral table: %s" % (what, q), 1e-10, top)
    for kind in "FM":
        for k, axis in enumerate("xyz"):
            parts = sum(got["%s_%s_total_COG.%s" % (kind, name, axis)] for name in names)
            sut.close(parts, got["%s_sails_total_COG.%s" % (kind, axis)], "%ssum of the sails: %s.%s" % (what, kind, axis), 1e-10,
                      (topF if kind == "F" else topM) * half)
    # centre of effort: what the documented construction determines
    FF = float(Ft @ Ft)
    if np.sqrt(FF) > 1e-6 * topF:
        ce = np.asarray(res.above_water_centre_of_effort_estimate_xyz, float)
        bad = topM * half / np.sqrt(FF)
        along = (Mt @ Ft) / FF * Ft
        sut.close(np.cross(ce, Ft), Mt - along, what + "moment of the total force at the centre of effort", 1e-8,
                  bad * np.sqrt(FF))
        rF = float(np.einsum("ij,ij->", arm[:half], F[:half]))
        sut.close(float(ce @ Ft), rF, what + "virial of the total force at the centre of effort", 1e-8, topM * half + bad * np.sqrt(FF))
    else:
        ctx.label("no total force")
    return want


def run_solved(case, ctx):
    r, b, vlm, res = sut.solved(case)
    t = tops(r, case)
    names = [s.name for s in b["sail_set"].sails]
    sut.require(names == ref.sail_names(case), "sails %s for %r" % (names, case["sails"]))
    check_results(res, np.asarray(vlm.cp, float), np.asarray(vlm.force, float), case["ref"], r["clr"], names, case["leeway"], ctx, t["F"], t["M"])
    sut.close(res.F_xyz_total, r["F_total"], "total force against the model", 1e-8, t["Ft"])
    sut.close(res.M_total_above_water_in_xyz_csys, r["M_total"], "total moment against the model", 1e-8, t["Mt"])
    sut.close(res.M_xyz_underwater_estimate_total, r["M_keel"], "keel moment against the model", 1e-8, t["Mk"])
    c = b["csys_transformations"]
    M1, T1 = c.calc_centerline_moments(np.asarray(res.M_xyz, float))
    sut.close(M1, res.M_centerline_csys, "centreline moments of the transform", 1e-11, t["M"])
    sut.close(T1, res.M_total_above_water_in_centerline_csys, "total centreline moment of the transform", 1e-11, t["Mt"])
    ctx.label("%s%s" % (case["sails"], " shifted" if any(case["ref"]) else ""))


# ---------------------------------------------------------------- any force field
@st.composite
def force_fields(draw):
    sails, n = draw(st.integers(1, 3)), draw(st.integers(1, 5))
    N = 2 * sails * n
    num3 = lambda lo, hi: [draw(num(lo, hi, 0.01)) for _ in range(3)]
    cp = [[draw(num(-9, 9, 0.01)), draw(num(-9, 9, 0.01)), draw(num(0.01, 20, 0.01)) * (1 if k < N // 2 else -1)] for k in range(N)]
    return dict(sails=sails, cp=cp, F=[num3(-99, 99) for _ in range(N)], ref=num3(-4, 4), clr=num3(-4, 4),
                heel=draw(num(-40, 40, 0.5)), leeway=draw(num(-40, 40, 0.5)), keel=draw(st.booleans()), dtype=draw(st.booleans()),
                rows=draw(st.sampled_from([1, 1, 1, 1, 7, 40])), unit=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-7, 1e5])))


def expand(case):
    """Points and forces; every point stands for several when rows > 1, and forces may be tiny or huge."""
    rows, unit = case.get("rows", 1), case.get("unit", 1.0)
    j = np.arange(rows).reshape(1, -1, 1)
    cp = np.array(case["cp"])[:, None] * (1 + 0.013 * j)
    F = np.array(case["F"])[:, None] * (1 - 0.021 * j) * unit
    return cp.reshape(-1, 3), F.reshape(-1, 3), unit


def run_fields(case, ctx):
    """The result object on a made-up solved case: panel forces and points of any kind."""
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    cp, F, unit = expand(case)
    given = cp.copy(), F.copy()
    V = np.cross(F / unit, cp) * 0.1 + 1.0
    made = SimpleNamespace(cp=cp, force=F, gamma_magnitude=F[:, 0], pressure=F[:, 1], V_induced_at_cp=V - 1.0, V_app_fs_at_cp=V)
    names = ["one", "two", "three"][:case["sails"]]
    sails = SimpleNamespace(sails=[SimpleNamespace(name=n) for n in names])
    if case["dtype"]:                                       # whole numbers, as the default reference point is given
        case = dict(case, ref=[int(x) for x in case["ref"]])
    csys = sut.csys_of(dict(case, ref=case["ref"]))
    if case["dtype"]:
        from pySailingVLM.rotations.csys_transformations import CSYS_transformations
        csys = CSYS_transformations(case["heel"], case["leeway"], v_from_original_xyz_2_reference_csys_xyz=np.array(case["ref"]))
    res = InviscidFlowResults(sails, csys, made)
    if case["keel"]:
        res.estimate_heeling_moment_from_keel(np.array(case["clr"]))
    check_results(res, cp, F, case["ref"], case["clr"], names, case["leeway"], ctx, 99.0 * unit, 99.0 * 60 * unit, case["keel"], "made-up forces: ")
    sut.close(res.AWA_app_fs, np.arctan2(V[:, 1], V[:, 0]), "apparent wind angle", 1e-12, 1.0)
    sut.close(res.V_app_fs_length, np.linalg.norm(V, axis=1), "length of the velocity", 1e-12, sut.scale_of(V))
    sut.close(res.V_induced_length, np.linalg.norm(V - 1, axis=1), "length of the induced velocity", 1e-12, sut.scale_of(V))
    sut.require((cp == given[0]).all() and (F == given[1]).all(), "the solved case was modified")
    ctx.label("%d made-up sails%s%s" % (case["sails"], ", many panels" if len(F) > 120 else "", "" if unit == 1 else ", forces around %g" % unit))


def run_vectors(case, ctx):
    """The helper functions on their own."""
    from pySailingVLM.solver.additional_functions import extract_above_water_quantities, normalize
    from pySailingVLM.solver.forces import calc_moment_arm_in_shifted_csys, calc_moments, determine_vector_from_its_dot_and_cross_product
    cp, F, unit = expand(case)
    v = np.array(case["ref"])
    arm = cp - v * np.where(cp[:, 2:] > 0, [1, 1, 1], [1, 1, -1])
    sut.close(calc_moment_arm_in_shifted_csys(cp, v), arm, "moment arm", 1e-13, 30)
    sut.close(calc_moments(cp, F), np.cross(cp, F), "moments", 1e-13, 9000 * unit)
    up, total = extract_above_water_quantities(F)
    sut.close(up, F[:len(F) // 2], "above-water part", 0, 1)
    sut.close(total, F[:len(F) // 2].sum(axis=0), "above-water sum", 1e-13, 99 * len(F) * unit)
    for r, f in zip(cp, F):
        size = np.linalg.norm(f) / unit
        if size > 1:
            sut.close(determine_vector_from_its_dot_and_cross_product(f, r @ f, np.cross(r, f)), r, "vector from its products with %s" % f.tolist(), 1e-11, 50 * (1 + 99 / size))
            sut.close(normalize(f), f / np.sqrt(f @ f), "unit vector", 1e-13, 1)


SUBS = [
    Sub("solved", run_solved, lambda: gen.yachts_and_wings(big=True), quick=1400, thorough=12000, corners=lambda: gen.corner_configs() + gen.fine_corners() + gen.wing_corners(),
        nontrivial=lambda c: c["SOG"] > 0 or c["alpha"] > 0, about="results of generated yachts"),
    Sub("fields", run_fields, force_fields, quick=2400, thorough=24000, about="made-up force fields on one to three sails"),
    Sub("vectors", run_vectors, force_fields, quick=1600, thorough=16000, about="moment arms, sums and vector division"),
]
