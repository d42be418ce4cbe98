"""C11: Kutta-Joukowski panel forces, their split into lift and drag, pressure and its coefficient."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num
from pbt.props import c08, c10

PROPERTY = "C11"
RULE = "a case counts when some circulation is not zero"
ASSUMPTIONS = ("the same domain as C10",)
warm = sut.warm


def net_circulation(g, nc, ns):
    """The panel's own less that of the panel ahead of it on the same sail."""
    g = np.asarray(g, float).reshape(-1, nc, ns)
    out = g.copy()
    out[:, 1:] -= g[:, :-1]
    return out.reshape(-1)


def check_forces(vlm, V, span, rho, nc, ns, ctx, what):
    g = np.asarray(vlm.gamma_magnitude, float)
    bound = span * net_circulation(g, nc, ns)[:, None]
    Vt, Vi = np.asarray(vlm.V_app_fs_at_cp, float), np.asarray(vlm.V_induced_at_cp, float)
    F, lift, drag = (np.asarray(getattr(vlm, k), float) for k in ("force", "lift", "drag"))
    top = rho * (sut.scale_of(V) + sut.scale_of(Vt)) * (sut.scale_of(bound) + 1e-9 * sut.scale_of(V) * sut.scale_of(span) ** 2)
    sut.close(F, rho * np.cross(Vt, bound), what + ": force", 1e-10, top)
    sut.close(lift, rho * np.cross(V, bound), what + ": lift", 1e-10, top)
    sut.close(drag, rho * np.cross(Vi, bound), what + ": drag", 1e-10, top)
    sut.close(lift + drag, F, what + ": lift + drag", 1e-10, top)
    sut.close(np.einsum("ij,ij->i", lift, V), np.zeros(len(V)), what + ": lift along the wind", 1e-10, top * sut.scale_of(V))
    sut.close(np.einsum("ij,ij->i", F, Vt), np.zeros(len(V)), what + ": force along the local velocity", 1e-10, top * sut.scale_of(Vt))
    check_pressure(vlm.pressure, vlm.p_coeffs, F, vlm.panels, V, rho, top, ctx, what)


def check_pressure(pressure, cps, F, panels, V, rho, top, ctx, what):
    P = np.asarray(panels, float)
    n = ref.quad_normals(P)
    normal = np.einsum("ij,ij->i", F, n)
    pressure, cps = np.asarray(pressure, float), np.asarray(cps, float)
    sut.require(pressure.shape == normal.shape, "%s: pressures of shape %s" % (what, pressure.shape))
    # pressure times area is the normal force, for the quadrilateral's area
    lo, hi = ref.area_range(P)
    f = ref.area_formula(P)
    room = 1e-9 * (np.abs(normal) + top)
    a, b = pressure * lo, pressure * hi
    bad = ~((np.minimum(a, b) <= normal + room) & (np.maximum(a, b) >= normal - room))
    if bad.any():
        worse = bad & ~(np.abs(pressure * f - normal) <= room)
        k = int(np.argmax(worse if worse.any() else bad))
        text = "%s: pressure of panel %d is %r, its normal force per area %r" % (
            what, k, float(pressure[k]), float(normal[k] / (0.5 * (lo[k] + hi[k]))))
        if worse.any():
            raise Violation(text)
        ctx.known("F9-area", text)
    q = 0.5 * rho * np.einsum("ij,ij->i", V, V)
    sut.close(cps * q, pressure, what + ": pressure coefficient times dynamic pressure", 1e-9,
              sut.scale_of(pressure) + 1e-9 * sut.scale_of(q))


def run_solved(case, ctx):
    r, b, vlm, res = sut.solved(case, keel=False)
    check_forces(vlm, r["V"], r["span"], case["rho"], case["nc"], case["ns"], ctx, "yacht")
    top = sut.scale_of(r["force"]) + 1e-9 * case["rho"] * sut.scale_of(r["V"]) ** 2
    for k in ("force", "lift", "drag"):
        sut.close(getattr(vlm, k), r[k], "yacht: %s against the model" % k, 1e-8, top)
    ctx.label("%d sails, %d rows" % (len(b["sail_set"].sails), case["nc"]))


def run_grids(case, ctx):
    G, V = c10.turned(case)
    r = c10.reference(G, V, case["rho"])
    nc, ns = G[0].shape[0] - 1, G[0].shape[1] - 1
    vlm = sut.vlm_on(G, V, case["rho"])
    check_forces(vlm, r["V"], r["span"], case["rho"], nc, ns, ctx, "%d free grids" % len(G))
    ctx.label("%d free grids" % len(G))


# ---------------------------------------------------------------- the force routine on any circulation
@st.composite
def circulations(draw):
    g = draw(c10.grids())
    m = np.array(g["grids"])
    n = m.shape[0] * (m.shape[1] - 1) * (m.shape[2] - 1)
    g["gamma"] = [draw(num(-9, 9, 0.01)) for _ in range(n)]
    g["wind"] = [[draw(num(1, 9, 0.1)), draw(num(-4, 4, 0.1)), draw(num(-2, 2, 0.1))] for _ in range(n)]
    g["o"] = draw(st.sampled_from([-1.0, -1.0, 1.0, 1.0, 0.5]))
    g["unit"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e4]))
    g["air"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-5, 100.0]))
    return g


def run_circulations(case, ctx):
    """Forces of prescribed circulations in a wind that differs from panel to panel."""
    from pySailingVLM.solver.forces import calc_force_wrapper
    G, _ = c10.turned(case)
    nc, ns = G[0].shape[0] - 1, G[0].shape[1] - 1
    P = np.concatenate([ref.panels_of(g) for g in G])
    te = sut.te_of(nc, ns, len(G))
    le = (np.tile(np.repeat(np.arange(nc), ns), len(G)) == 0) & (nc > 1)
    R = ref.rot([0, 0, 1], np.deg2rad(case["turn"][0])) @ ref.rot([1, 0, 0], np.deg2rad(case["turn"][1]))
    unit, air = case.get("unit", 1.0), case.get("air", 1.0)
    V = np.ascontiguousarray(np.array(case["wind"]) @ R.T) * air
    o, rho, gamma = case["o"], case["rho"], np.array(case["gamma"]) * unit
    L = ref.lattice(P, te, nc, ns, o)
    near = []
    W = ref.influence(L["cp"], L["rings"], te, V, o, near)
    if near and min(near) < 1e-7 or not np.isfinite(W).all():
        raise Skip("a centre of pressure on a vortex")
    Vi = np.einsum("ijk,j->ik", W, gamma)
    bound = L["span"] * net_circulation(gamma, nc, ns)[:, None]
    top = rho * (sut.scale_of(V) + sut.scale_of(Vi)) * (sut.scale_of(bound) + 1e-6 * unit)
    for name, vel in (("force_xyz", V + Vi), ("lift", V), ("drag", Vi)):
        F, at, ind = calc_force_wrapper(V, gamma, rho, L["cp"], L["rings"], ns, L["normals"], L["span"], te, le, name, o)
        sut.close(F, rho * np.cross(vel, bound), name, 1e-8, top)
        sut.close(at, V + Vi, name + ": velocity", 1e-8, sut.scale_of(V) + sut.scale_of(Vi))
        sut.close(ind, Vi, name + ": induced velocity", 1e-8, sut.scale_of(V) + sut.scale_of(Vi))
    ctx.label("prescribed circulations, %d rows%s%s" % (nc, "" if unit == 1 else ", around %g" % unit, "" if air == 1 else ", winds around %g" % air))


@st.composite
def pressures(draw):
    n = draw(st.integers(1, 9))
    vec = lambda: [draw(num(-9, 9, 0.01)) for _ in range(3)]
    return dict(F=[vec() for _ in range(n)], n=[vec() for _ in range(n)], A=[draw(num(0.01, 5, 0.01)) for _ in range(n)],
                V=[[draw(num(0.1, 9, 0.01)), draw(num(-9, 9, 0.01)), draw(num(-9, 9, 0.01))] for _ in range(n)], rho=draw(num(0.1, 1000, 0.1)),
                unit=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5])), size=draw(st.sampled_from([1.0, 1.0, 1e-5, 1e3])),
                air=draw(st.sampled_from([1.0, 1.0, 1e-3, 20.0])))


def run_pressures(case, ctx):
    from pySailingVLM.solver.forces import calc_pressure, calc_pressure_coeff
    F, n, A, V = (np.array(case[k]) for k in ("F", "n", "A", "V"))
    F, A, V = F * case.get("unit", 1.0), A * case.get("size", 1.0), V * case.get("air", 1.0)
    p = np.einsum("ij,ij->i", F, n) / A
    # judged panel by panel: each has its own size
    got = np.asarray(calc_pressure(F, n, A), float)
    top = np.linalg.norm(F, axis=1) * np.linalg.norm(n, axis=1) / A + 1e-12 * case.get("unit", 1.0) / case.get("size", 1.0)
    sut.close(got / top, p / top, "normal force per area", 1e-11, 1.0)
    tiny = 1e-12 * case.get("unit", 1.0)
    q = 0.5 * case["rho"] * np.einsum("ij,ij->i", V, V)
    sut.close(np.asarray(calc_pressure_coeff(p, case["rho"], V), float) * q / (np.abs(p) + tiny), p / (np.abs(p) + tiny), "pressure coefficient", 1e-11, 1.0)


SUBS = [
    Sub("solved", run_solved, lambda: gen.yachts_and_wings(big=True), quick=1200, thorough=12000, corners=lambda: gen.corner_configs() + gen.fine_corners() + gen.wing_corners(),
        nontrivial=lambda c: c["SOG"] > 0 or c["alpha"] > 0, about="forces and pressures of generated yachts"),
    Sub("grids", run_grids, c10.grids, quick=600, thorough=8000, about="free curved grids in winds from anywhere"),
    Sub("circulations", run_circulations, circulations, quick=1000, thorough=10000, nontrivial=lambda c: any(c["gamma"]),
        about="prescribed circulations in winds differing from panel to panel"),
    Sub("pressures", run_pressures, pressures, quick=3000, thorough=30000, about="pressures and coefficients of given forces"),
]
