"""C10: the solved circulation lets no flow through any panel; what cannot be solved is refused."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num

PROPERTY = "C10"
RULE = ("a case counts when the wind meets the sails at an angle (some circulation is not zero) or, for the refusals, "
        "when something was corrupted")
ASSUMPTIONS = ("rigs whose lattice is ill-conditioned (condition number above 1e5) or whose rounding alone exceeds the "
               "solver's absolute tolerance of 1e-12 are outside the domain",)
warm = sut.warm


def check_solution(vlm, r, what):
    """Vlm against the reference solution and against its own definition."""
    N = len(r["V"])
    U = sut.scale_of(r["V"])
    L = sut.scale_of(r["span"])
    g = np.asarray(vlm.gamma_magnitude, float)
    sut.close(vlm.inlet_conditions.V_app_infs, r["V"], what + ": apparent wind at the centres of pressure", 1e-10, U)
    sut.close(g, r["gamma"], what + ": circulation", 1e-9, U * L + sut.scale_of(r["gamma"]))
    vel = U + sut.scale_of(r["Vi"], r["Vt_ctr"])
    sut.close(vlm.V_app_fs_at_ctrl_p, r["Vt_ctr"], what + ": velocity at the control points", 1e-9, vel)
    sut.close(vlm.V_induced_at_ctrl, r["Vt_ctr"] - r["V"], what + ": induced velocity at the control points", 1e-9, vel)
    sut.close(vlm.V_app_fs_at_cp, r["Vt"], what + ": velocity at the centres of pressure", 1e-9, vel)
    sut.close(vlm.V_induced_at_cp, r["Vi"], what + ": induced velocity at the centres of pressure", 1e-9, vel)
    # the stated facts, with the reference influences and the code's own circulations
    flux = np.einsum("ij,ij->i", r["V"] + np.einsum("ijk,j->ik", r["W"], g), r["normals"])
    sut.close(flux, np.zeros(N), what + ": flow through the panels", 1e-9, vel)
    sut.close(np.einsum("ij,ij->i", np.asarray(vlm.V_app_fs_at_ctrl_p, float), r["normals"]), np.zeros(N),
              what + ": reported velocity through the panels", 1e-9, vel)
    sut.close(np.asarray(vlm.V_app_fs_at_cp) - np.asarray(vlm.V_induced_at_cp), r["V"],
              what + ": total less induced velocity", 1e-10, vel)


def run_solved(case, ctx):
    r, b, vlm, res = sut.solved(case, keel=False)
    check_solution(vlm, r, "yacht")
    ctx.label("%s %s" % (case["sails"], case["profile"]))
    if sut.scale_of(r["gamma"]) < 1e-9 * sut.scale_of(r["V"]):
        ctx.label("no incidence")


# ---------------------------------------------------------------- free grids in any wind
@st.composite
def grids(draw, max_blocks=3, max_n=3):
    """Curved, tapered, swept grids anywhere, well apart, and a wind from anywhere."""
    nc, ns = draw(st.integers(1, max_n)), draw(st.integers(1, max_n))
    blocks = []
    for k in range(draw(st.integers(1, max_blocks))):
        chord, span = draw(num(0.4, 3, 0.1)), draw(num(0.5, 8, 0.1))
        taper, sweep = draw(num(-0.6, 0.6, 0.1)), draw(num(-1, 1, 0.1))
        bend, twist = draw(num(-0.4, 0.4, 0.02)), draw(num(-0.5, 0.5, 0.02))
        i, j = np.meshgrid(np.arange(nc + 1) / nc, np.arange(ns + 1) / ns, indexing="ij")
        m = np.stack([chord * i * (1 + taper * j) + sweep * j, chord * (bend * i * (1 - i) + twist * i * j), span * j], axis=2)
        m[..., 1] += draw(num(2.5, 4, 0.1)) * k
        blocks.append(np.round(m, 13).tolist())
    turn = [draw(num(-180, 180, 5)), draw(num(-180, 180, 5))]
    return dict(grids=blocks, turn=turn, V=[draw(num(0.5, 12, 0.1)), draw(num(-4, 4, 0.1)), draw(num(-3, 3, 0.1))],
                rho=draw(num(0.5, 2, 0.1)))


def turned(case):
    R = ref.rot([0, 0, 1], np.deg2rad(case["turn"][0])) @ ref.rot([1, 0, 0], np.deg2rad(case["turn"][1]))
    return [np.array(g) @ R.T for g in case["grids"]], np.array(case["V"]) @ R.T


def reference(G, V, rho):
    nc, ns = G[0].shape[0] - 1, G[0].shape[1] - 1
    P = np.concatenate([ref.panels_of(g) for g in G])
    r = ref.solve(P, sut.te_of(nc, ns, len(G)), nc, ns, np.tile(V, (len(P), 1)), rho)
    sut.domain(r)
    return r


def run_grids(case, ctx):
    G, V = turned(case)
    r = reference(G, V, case["rho"])
    check_solution(sut.vlm_on(G, V, case["rho"]), r, "%d free grids" % len(G))
    ctx.label("%d free grids" % len(G))


# ---------------------------------------------------------------- assembly of the equations
@st.composite
def fields(draw):
    if draw(st.integers(0, 24)) == 11:
        return dict(many=draw(st.integers(40, 140)), seed=draw(st.integers(0, 9999)), o=draw(st.sampled_from([-1.0, 1.0])))
    n = draw(st.integers(1, 7))
    xyz = st.tuples(num(-4, 4, 0.01), num(-4, 4, 0.01), num(-4, 4, 0.01)).map(list)
    wind = st.tuples(num(-8, 8, 0.1), num(-8, 8, 0.1), num(0.3, 5, 0.1)).map(list)
    return dict(points=[draw(xyz) for _ in range(n)],
                rings=[[draw(xyz) for _ in range(4)] for _ in range(n)],
                normals=[draw(xyz) for _ in range(n)], te=[draw(st.booleans()) for _ in range(n)],
                V=[draw(wind) for _ in range(n)], gamma=[draw(num(-9, 9, 0.01)) for _ in range(n)],
                o=draw(st.sampled_from([-1.0, -1.0, 1.0, 1.0, 0.5])),
                unit=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e4])), air=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-5, 100.0])))


def many(case):
    """A large field from a seed: rings about a metre across, scattered."""
    g, n = np.random.default_rng(case["seed"]), case["many"]
    middle = g.uniform(-6, 6, (n, 1, 3))
    return dict(points=g.uniform(-7, 7, (n, 3)), rings=middle + g.uniform(-1, 1, (n, 4, 3)), normals=g.uniform(-1, 1, (n, 3)),
                te=g.uniform(size=n) < 0.3, V=np.column_stack([g.uniform(-8, 8, n), g.uniform(-8, 8, n), g.uniform(0.3, 5, n)]),
                gamma=g.uniform(-9, 9, n), o=case["o"])


def run_fields(case, ctx):
    if "many" in case:
        case = many(case)
    from pySailingVLM.solver.coefs import calc_velocity_coefs, calculate_RHS
    from pySailingVLM.solver.velocity import calculate_app_fs
    P, R, n, V = (np.array(case[k], float) for k in ("points", "rings", "normals", "V"))
    unit, air = case.get("unit", 1.0), case.get("air", 1.0)
    te, gamma, V = np.array(case["te"], bool), np.array(case["gamma"]) * unit, V * air
    W = ref.influence(P, R, te, V, case["o"])
    # distance of the points to the vortices: keep clear of the cores and of the singular lines
    near = np.inf
    for k in range(4):
        A, B = R[:, k], R[:, (k + 1) % 4]
        d = B - A
        t = np.einsum("ijk,jk->ij", P[:, None] - A, d) / np.maximum(np.einsum("jk,jk->j", d, d), 1e-30)
        near = min(near, np.linalg.norm(P[:, None] - A - np.clip(t, 0, 1)[..., None] * d, axis=2).min(),
                   np.linalg.norm(np.cross(P[:, None] - A, P[:, None] - B), axis=2).min())
    for k in (0, 3):
        u = V / np.linalg.norm(V, axis=1)[:, None]
        near = min(near, np.linalg.norm(np.cross(u, P[:, None] - R[:, k]), axis=2).min())
    if not np.isfinite(W).all() or near < 2e-3:
        raise Skip("a point on a vortex")
    a, v = calc_velocity_coefs(V, P, R, n, te, case["o"])
    top = sut.scale_of(W)
    top += 1e-3          # far from everything: cancellation between the sides
    sut.close(v, W, "influence of the rings and horseshoes", 1e-8, top)
    sut.close(a, np.einsum("ijk,ik->ij", W, n), "coefficients", 1e-8, top * sut.scale_of(n) * 3)
    sut.close(calculate_RHS(V, n), -np.einsum("ij,ij->i", V, n), "right-hand side", 1e-12, sut.scale_of(V) * sut.scale_of(n) * 3)
    vi, vt = calculate_app_fs(V, np.ascontiguousarray(W), gamma)
    want = np.einsum("ijk,j->ik", W, gamma)
    sut.close(vi, want, "superposed induced velocity", 1e-11, top * 9 * len(gamma) * unit)
    sut.close(vt, V + want, "total velocity", 1e-11, top * 9 * len(gamma) * unit + sut.scale_of(V))
    ctx.label(("equations" if len(gamma) < 40 else "many equations") + ("" if unit == 1 else ", circulations around %g" % unit) + ("" if air == 1 else ", winds around %g" % air))


@st.composite
def systems(draw):
    n = draw(st.integers(1, 8))
    return dict(A=[[draw(num(-3, 3, 0.01)) for _ in range(n)] for _ in range(n)], x=[draw(num(-5, 5, 0.01)) for _ in range(n)],
                unit=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e5])), size=draw(st.sampled_from([1.0, 1.0, 1e-5, 1e4])))


def run_systems(case, ctx):
    from pySailingVLM.solver.coefs import solve_eq
    unit = case.get("unit", 1.0)
    A, x = np.array(case["A"]) * case.get("size", 1.0), np.array(case["x"]) * unit
    if np.linalg.cond(A) > 1e6:
        raise Skip("ill-conditioned")
    sut.close(solve_eq(A.copy(), A @ x), x, "solution of the equations", 1e-8, 5.0 * unit)


# ---------------------------------------------------------------- refusals
@st.composite
def flows(draw):
    n = draw(st.integers(1, 12))
    unit = [[draw(num(-1, 1, 0.1)), draw(num(-1, 1, 0.1)), draw(num(0.2, 1, 0.1))] for _ in range(n)]
    V = [[draw(num(-9, 9, 0.1)) for _ in range(3)] for _ in range(n)]
    what = draw(st.sampled_from(["none", "flux", "flux", "flux", "area", "area", "nan flux", "nan area"]))
    times = draw(st.sampled_from([1] * 8 + [20, 60]))
    return dict(n=unit, V=V, what=what, at=draw(st.integers(0, n * times - 1)), times=times, sign=draw(st.sampled_from([1, -1])),
                power=draw(num(-11.5, 1, 0.1)), areas=[draw(num(0.01, 3, 0.01)) for _ in range(n)],
                small=draw(st.sampled_from([0.0, 1e-15, 1e-16, 1e-30])))


def run_flows(case, ctx):
    from pySailingVLM.solver.forces import is_no_flux_BC_satisfied as bc
    times = case.get("times", 1)
    n = np.tile(np.array(case["n"]), (times, 1))
    n /= np.linalg.norm(n, axis=1)[:, None]
    V = np.tile(np.array(case["V"]), (times, 1))
    for _ in range(3):
        V = V - np.einsum("ij,ij->i", V, n)[:, None] * n
    areas, k = np.tile(np.array(case["areas"]), times), case["at"]
    panels = np.zeros((len(n), 4, 3))
    what = case["what"]
    if what == "none":
        if np.abs(np.einsum("ij,ij->i", V, n)).max() > 1e-13:
            raise Skip("not tangential to rounding")
        sut.require(bool(bc(V, panels, areas, n)), "a tangential flow was not accepted")
        return
    if what == "flux":
        V[k] += case["sign"] * 10.0 ** case["power"] * n[k]
        say = "a flow of %.3g through panel %d of %d" % (case["sign"] * 10.0 ** case["power"], k, len(n))
    elif what == "nan flux":
        V[k, case["at"] % 3] = np.nan
        say = "an undefined velocity at panel %d of %d" % (k, len(n))
    else:
        areas[k] = case["small"] if what == "area" else np.nan
        say = "the area %r of panel %d of %d" % (areas[k], k, len(n))
    try:
        ok = bc(V, panels, areas, n)
    except Exception:                                                     # noqa: BLE001
        ctx.label("refused " + what)
        return
    sut.require(not ok, "%s was accepted" % say)


@st.composite
def degenerate(draw):
    """Configurations that cannot be computed, and faults in the middle of a computation."""
    c = draw(gen.configs(max_ns=3, max_nc=3, sails=("jib", "main", "jib_and_main")))
    kind = draw(st.sampled_from(["no chord", "no chord at the top", "no luff", "nan wind", "collapsed panel", "no chord"]))
    return dict(kind=kind, config=c, which=draw(st.integers(0, 1)), at=draw(st.integers(0, 99)))


def run_degenerate(case, ctx):
    c = {k: (dict(v) if isinstance(v, dict) else v) for k, v in case["config"].items()}
    sail = c["main"] if c["sails"] == "main" or (c["sails"] == "jib_and_main" and case["which"]) else c["jib"]
    kind = case["kind"]
    n = len(sail["girths"])
    if kind == "no chord":
        sail["chords"] = [0.0] * n
    elif kind == "no chord at the top":
        if c["ns"] < 2:
            raise Skip("one panel")
        c["interp"] = "linear"
        sail["girths"] = [0.0, 0.25, 0.45, 1.0] if c["ns"] == 2 else [0.0, 0.2, 0.3, 1.0]
        sail["chords"] = [2.0, 1.0, 0.0, 0.0]
        for k in ("camber", "cpos", "twist"):
            sail[k] = [sail[k][0]] * 4
    elif kind == "no luff":
        c["main_luff" if sail is c["main"] else "jib_luff"] = 0.0
    def compute():
        b = sut.build(c)
        if kind == "nan wind":
            from pySailingVLM.solver.vlm import Vlm
            s = b["sail_set"]
            return Vlm(s.panels, c["nc"], c["ns"], c["rho"], sut.uniform_wind([np.nan, 1.0, 0.0]), s.trailing_edge_info, s.leading_edge_info)
        if kind == "collapsed panel":
            from pySailingVLM.solver.vlm import Vlm
            s = b["sail_set"]
            P = np.array(s.panels, float)
            k = case["at"] % len(P)
            P[k] = P[k, case["at"] % 4]
            return Vlm(P, c["nc"], c["ns"], c["rho"], b["profile"], s.trailing_edge_info, s.leading_edge_info)
        return sut.vlm_of(c, b)
    try:
        v = compute()
    except Exception:                                                     # noqa: BLE001
        ctx.label("refused " + kind)
        return
    except SystemExit:
        ctx.label("refused " + kind)
        return
    raise Violation("%s: a result with circulations %s was returned" % (kind, np.asarray(v.gamma_magnitude).tolist()[:4]))


@st.composite
def faults(draw):
    return dict(config=draw(gen.configs(max_ns=3, max_nc=3)), panel=draw(st.integers(0, 99)),
                power=draw(num(-4, 1, 0.1)), sign=draw(st.sampled_from([1, -1])), wing=draw(st.booleans()))


def run_faults(case, ctx):
    """A linear solver that goes wrong: the result must be refused unless it is tangential."""
    from pySailingVLM.solver import coefs
    c = case["config"]
    r = ref.run(c)
    sut.domain(r)
    b = sut.build(c)
    real, hit = np.linalg.solve, []

    def bad(a, y, *k, **kw):
        x = np.array(real(a, y, *k, **kw))
        hit.append(1)
        x[case["panel"] % len(x)] += case["sign"] * 10.0 ** case["power"]
        return x
    np.linalg.solve = bad
    try:
        if case["wing"]:
            from pySailingVLM.runner.aircraft import Aircraft
            Aircraft(1.0, 2.0, 3.0, 3, 2, np.array([5.0, 0.0, 0.0]))
            v = None
        else:
            v = sut.vlm_of(c, b)
    except Exception:                                                     # noqa: BLE001
        ctx.label("fault refused")
        return
    finally:
        np.linalg.solve = real
    if not hit:
        ctx.label("another solver is in use")
        return
    if v is None:
        raise Violation("a wing with a wrong circulation was returned")
    flux = np.einsum("ij,ij->i", np.asarray(v.V_app_fs_at_ctrl_p, float), r["normals"])
    sut.require(np.abs(flux).max() < 1e-10, "a solution with flow %.3g through a panel was returned" % np.abs(flux).max())


SUBS = [
    Sub("solved", run_solved, lambda: gen.yachts_and_wings(big=True), quick=1400, thorough=12000, corners=lambda: gen.corner_configs() + gen.fine_corners() + gen.wing_corners(),
        nontrivial=lambda c: c["SOG"] > 0 or c["alpha"] > 0, about="circulations and velocities of generated yachts"),
    Sub("grids", run_grids, grids, quick=800, thorough=8000, about="free curved grids in winds from anywhere"),
    Sub("fields", run_fields, fields, quick=3000, thorough=30000, about="assembly of influences, right-hand side and superposition on generated rings"),
    Sub("systems", run_systems, systems, quick=1200, thorough=12000, about="linear systems with a known solution"),
    Sub("flows", run_flows, flows, quick=6000, thorough=60000, nontrivial=lambda c: c["what"] != "none",
        about="tangential flows accepted, corrupted flows and areas refused"),
    Sub("degenerate", run_degenerate, degenerate, quick=600, thorough=5000, about="sails without chord or luff, undefined wind, collapsed panels"),
    Sub("faults", run_faults, faults, quick=400, thorough=4000, about="a linear solver that returns a wrong circulation"),
]
