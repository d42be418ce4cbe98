"""C14: the solution is symmetric about the water plane and lets no air through it."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub
from pbt.gen import num
from pbt.props.c12 import tops

PROPERTY = "C14"
RULE = "a case counts when the sails are heeled, cambered or twisted and some circulation is not zero"
ASSUMPTIONS = ("points of the water plane nearer than 0.1 m to a vortex are left out", "the domain of C10")
warm = sut.warm


def run(case, ctx):
    c = case["config"]
    r, b, vlm, res = sut.solved(c, keel=False)
    nc, ns = c["nc"], c["ns"]
    sails = len(b["sail_set"].sails)
    image = ref.image_index(sails, nc, ns)
    half = r["half"]
    t = tops(r, c)
    S = ref.MIRROR
    arr = lambda x: np.asarray(x, float)
    P = arr(vlm.panels)
    sut.close(P[image], P[:half][:, [3, 2, 1, 0]] * S, "image panels", 1e-10, sut.scale_of(P))
    for name, value, key in (("circulation", vlm.gamma_magnitude, "gamma"), ("pressure", vlm.pressure, "p"),
                             ("pressure coefficient", vlm.p_coeffs, "cp"), ("area", vlm.areas, "area")):
        value = arr(value)
        sut.close(value[image], value[:half], "image: " + name, 1e-9, t[key])
    for name, value, key in (("force", vlm.force, "F"), ("lift", vlm.lift, "F"), ("drag", vlm.drag, "F"), ("apparent wind", vlm.inlet_conditions.V_app_infs, "V"),
                             ("true wind", vlm.inlet_conditions.tws_at_cp, "tws"),
                             ("velocity at the centre of pressure", vlm.V_app_fs_at_cp, "Vt"),
                             ("induced velocity at the centre of pressure", vlm.V_induced_at_cp, "Vt"),
                             ("velocity at the control point", vlm.V_app_fs_at_ctrl_p, "Vt"), ("centre of pressure", vlm.cp, "points"),
                             ("control point", vlm.ctr_p, "points")):
        value = arr(value)
        sut.close(value[image], value[:half] * S, "image: " + name, 1e-9, t[key])
    M = arr(res.M_xyz)
    sut.close(M[image], -M[:half] * S, "image: moment", 1e-9, t["M"])
    sut.close(res.F_xyz[image], arr(res.F_xyz)[:half] * S, "image: reported force", 1e-9, t["F"])
    water(case, vlm, r, ctx)
    ctx.label("%s %s" % (c["sails"], c["profile"]))


def water(case, vlm, r, ctx):
    """Velocity induced on the water plane by the whole lattice, through the solver's own routine."""
    from pySailingVLM.solver.coefs import calc_velocity_coefs
    N = len(r["V"])
    x = arr_points(case["points"], N)
    keep = clearance(x, r) > 0.1
    if not keep.any():
        ctx.label("no point off the vortices")
        return
    x = x[keep]
    m = len(x)
    x = np.concatenate([x, np.tile(x[:1], (N - m, 1))]) if m < N else x[:N]
    up = np.tile([0.0, 0.0, 1.0], (N, 1))
    V = np.ascontiguousarray(vlm.inlet_conditions.V_app_infs, dtype=float)
    te = np.ascontiguousarray(vlm.trailing_edge_info)
    normal, v = calc_velocity_coefs(V, np.ascontiguousarray(x), np.ascontiguousarray(vlm.rings, dtype=float), up, te, -1.0)
    g = np.asarray(vlm.gamma_magnitude, float)
    top = np.abs(v).max() * (np.abs(g).sum() + 1e-6 * sut.scale_of(V))
    w = np.einsum("ijk,j->ik", np.asarray(v, float), g)
    sut.close(w[:, 2], np.zeros(len(w)), "vertical velocity on the water plane", 1e-9, top)
    sut.close(np.asarray(normal, float) @ g, np.zeros(len(w)), "flow through the water plane", 1e-9, top)
    model = np.einsum("ijk,j->ik", ref.influence(x, r["rings"], r["g"]["te"], r["V"]), r["gamma"])
    sut.close(w, model, "velocity on the water plane against the model", 1e-7, top)
    ctx.label("water plane points", int(min(m, N)))


def arr_points(points, N):
    p = np.array(points, float)
    return np.concatenate([p, np.zeros((len(p), 1))], axis=1)[:N]


def clearance(x, r):
    """Distance of points to the nearest vortex of the lattice."""
    R, te = r["rings"], r["g"]["te"]
    best = np.full(len(x), np.inf)
    for k in range(4):
        A, B = R[:, k], R[:, (k + 1) % 4]
        d = B - A
        t = np.clip(np.einsum("ijk,jk->ij", x[:, None] - A, d) / np.einsum("jk,jk->j", d, d), 0, 1)
        best = np.minimum(best, np.linalg.norm(x[:, None] - A - t[..., None] * d, axis=2).min(axis=1))
    u = (r["V"] / np.linalg.norm(r["V"], axis=1)[:, None])[te]
    for k in (0, 3):
        A = R[te, k]
        t = np.maximum(np.einsum("ijk,jk->ij", x[:, None] - A, u), 0)
        best = np.minimum(best, np.linalg.norm(x[:, None] - A - t[..., None] * u, axis=2).min(axis=1))
    return best


@st.composite
def cases(draw):
    c = draw(gen.configs())
    points = [[draw(num(-25, 25, 0.01)), draw(num(-25, 25, 0.01))] for _ in range(draw(st.integers(1, 8)))]
    return dict(config=c, points=points)


def corners():
    return [dict(config=c, points=[[1.0, 2.0], [-4.0, 0.5], [6.5, -3.0]]) for c in gen.corner_configs() + gen.fine_corners()]


def nontrivial(case):
    c = case["config"]
    sails = [c["jib"]] * ("jib" in c["sails"]) + [c["main"]] * ("main" in c["sails"])
    bent = any(any(s["camber"]) or any(s["twist"]) for s in sails)
    return (c["SOG"] > 0 or c["alpha"] > 0) and (c["heel"] != 0 or bent)


SUBS = [Sub("symmetry", run, cases, quick=1800, thorough=15000, corners=corners, nontrivial=nontrivial,
            about="solved yachts, panel against image, and the velocity at points of the water plane")]
