"""C16: section coefficients, plot data and whole-configuration coefficients."""
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Sub
from pbt.gen import num

PROPERTY = "C16"
RULE = "a case counts when the forces are not all equal to zero"
ASSUMPTIONS = ("weights are the panel areas of the solved case (judged by C08)",
               "normalised section coefficients are judged where the sail's mean coefficient is not lost in rounding")
warm = sut.warm


def sections(areas, force, V, rho, k, nc, ns):
    """(k, ns): area-weighted mean over each strip of |F| / (q A)."""
    h = k * nc * ns
    q = 0.5 * rho * np.einsum("ij,ij->i", V, V)
    c = (np.linalg.norm(force, axis=1) / (q * areas))[:h].reshape(k, nc, ns)
    A = areas[:h].reshape(k, nc, ns)
    return (c * A).sum(axis=1) / A.sum(axis=1), A.sum(axis=1)


def check_sections(v, nc, ns, rho, ctx, what, solver=None, floor=1e-3):
    from pySailingVLM.solver.coefs import get_C, get_data_for_coeff_plot
    arr = lambda x: np.asarray(x, float)
    areas, V, cp = arr(v.areas), arr(v.inlet_conditions.V_app_infs), arr(v.cp)
    k = len(areas) // (2 * nc * ns)
    per = {}
    for name in ("lift", "drag", "force"):
        F = arr(getattr(v, name))
        want, strip = sections(areas, F, V, rho, k, nc, ns)
        got = get_C(v.panels, v.areas, getattr(v, name), v.inlet_conditions.V_app_infs, ns, nc, rho)
        top = sut.scale_of(np.linalg.norm(F, axis=1)) / (0.5 * rho * float(np.einsum("ij,ij->i", V, V).min()) * float(areas.min()))
        sut.close(got, want, "%s: section coefficients of the %s" % (what, name), 1e-10, max(sut.scale_of(want), 1e-12 * top))
        per[name] = want, (want * strip).sum(axis=1) / strip.sum(axis=1)
    usable = all(per[n][1].min() > 1e-9 * max(per["force"][1].max(), floor) for n in ("lift", "drag"))
    if not usable:
        ctx.label("mean coefficient lost in rounding")
        return
    z, cl, cd = get_data_for_coeff_plot(v, solver or SimpleNamespace(n_spanwise=ns, n_chordwise=nc))
    h = k * nc * ns
    sut.close(z, cp[:h, 2].reshape(k, nc, ns).mean(axis=1), what + ": mean heights of the strips", 1e-11, sut.scale_of(cp))
    for got, name in ((cl, "lift"), (cd, "drag")):
        want, mean = per[name]
        sut.require(len(got) == k, "%s: %s data of %d sails for %d" % (what, name, len(got), k))
        got = np.array([arr(x).reshape(-1) for x in got])
        sut.close(got, want / mean[:, None], "%s: normalised section %s" % (what, name), 1e-9, sut.scale_of(want / mean[:, None]))
        strip = areas[:h].reshape(k, nc, ns).sum(axis=1)
        sut.close((got * strip).sum(axis=1) / strip.sum(axis=1), np.ones(k), "%s: mean of the normalised section %s" % (what, name), 1e-10, 1.0)


def run_solved(case, ctx):
    r, b, vlm, res = sut.solved(case, keel=False)
    check_sections(vlm, case["nc"], case["ns"], case["rho"], ctx, "yacht", b["solver"])
    ctx.label("%s, %d rows" % (case["sails"], case["nc"]))


@st.composite
def fields(draw):
    k, nc, ns = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    nc, ns = draw(st.sampled_from([(nc, ns)] * 6 + [(nc, 25), (12, ns), (15, 20)]))
    n = 2 * k * nc * ns
    vec = lambda lo, hi: [draw(num(lo, hi, 0.01)) for _ in range(3)]
    seed = draw(st.integers(0, 9999))
    return dict(k=k, nc=nc, ns=ns, rho=draw(num(0.1, 9, 0.1)), seed=seed, kind=draw(st.sampled_from(["noise", "noise", "one panel"])),
                at=draw(st.integers(0, n - 1)), V=vec(1, 9),
                unit=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5])), size=draw(st.sampled_from([1.0, 1.0, 1e-5, 1e3])), air=draw(st.sampled_from([1.0, 1.0, 1e-3, 10.0])))


def made(case):
    """A made-up solved case from a seed."""
    k, nc, ns = case["k"], case["nc"], case["ns"]
    n = 2 * k * nc * ns
    g = np.random.default_rng(case["seed"])
    F, D = g.uniform(-9, 9, (n, 3)), g.uniform(-1, 1, (n, 3))
    V = g.uniform(0.5, 9, (n, 3))
    A = g.uniform(0.1, 3, n)
    if case["kind"] == "one panel":
        V[:] = case["V"]
        A[:] = 1.0
        A[case["at"]] = 2.5
    unit, size, air = case.get("unit", 1.0), case.get("size", 1.0), case.get("air", 1.0)
    F, D, A, V = F * unit, D * unit, A * size, V * air
    return SimpleNamespace(panels=g.uniform(-1, 1, (n, 4, 3)), areas=A, lift=F, drag=D, force=F + D, rho=case["rho"], cp=g.uniform(0, 20, (n, 3)),
                           inlet_conditions=SimpleNamespace(V_app_infs=V), n_spanwise=ns, n_chordwise=nc)


def run_fields(case, ctx):
    v = made(case)
    keep = [v.areas.copy(), v.lift.copy(), v.inlet_conditions.V_app_infs.copy()]
    check_sections(v, case["nc"], case["ns"], case["rho"], ctx, "made-up fields", floor=1e-12 * case.get("unit", 1.0) / case.get("size", 1.0) / case.get("air", 1.0) ** 2)
    for a, b in zip(keep, (v.areas, v.lift, v.inlet_conditions.V_app_infs)):
        sut.require((a == b).all(), "the solved case was modified")
    ctx.label("%d made-up sails" % case["k"])


@st.composite
def totals(draw):
    n = draw(st.integers(1, 9))
    vec = lambda: [draw(num(-99, 99, 0.01)) for _ in range(3)]
    return dict(F=[vec() for _ in range(n)], V=[draw(num(0.1, 30, 0.01)), draw(num(-30, 30, 0.01)), draw(num(-30, 30, 0.01))], rho=draw(num(0.1, 1100, 0.01)), S=draw(num(0.01, 300, 0.01)))


def run_totals(case, ctx):
    from pySailingVLM.solver.coefs import get_vlm_CL_CD_free_wing, get_vlm_Cxyz
    F, V = np.array(case["F"]), np.array(case["V"])
    q = 0.5 * case["rho"] * float(V @ V) * case["S"]
    want = F.sum(axis=0) / q
    top = np.abs(F).sum() / q + 1e-300
    sut.close(np.asarray(get_vlm_Cxyz(F, V, case["rho"], case["S"]), float), want, "force coefficients", 1e-12, top)
    cl, cd = get_vlm_CL_CD_free_wing(F, V, case["rho"], case["S"])
    sut.close([cl, cd], [want[2], want[0]], "lift and drag coefficients of a wing spanning along y", 1e-12, top)


SUBS = [
    Sub("solved", run_solved, lambda: gen.yachts_and_wings(big=True), quick=1000, thorough=10000, corners=lambda: gen.corner_configs() + gen.fine_corners() + gen.wing_corners(),
        nontrivial=lambda c: c["SOG"] > 0 or c["alpha"] > 0, about="section coefficients of generated yachts"),
    Sub("fields", run_fields, fields, quick=3000, thorough=30000, about="made-up forces, areas and winds on one to three sails"),
    Sub("totals", run_totals, totals, quick=3000, thorough=30000, nontrivial=lambda c: any(map(any, c["F"])), about="whole-configuration coefficients"),
]
