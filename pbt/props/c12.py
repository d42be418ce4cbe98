"""C12: relations between two computations: scaling, mirror image, rigid motion, order of sails."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub
from pbt.gen import num
from pbt.props import c10

PROPERTY = "C12"
RULE = "a case counts when some circulation is not zero and the relation changes something"
ASSUMPTIONS = ("both computations of a pair lie inside the domain of C10; rounding grows with the ratio of scales",)
warm = sut.warm


def outcome(case, keel=True):
    r, b, vlm, res = sut.solved(case, keel)
    arr = lambda x: np.array(x, float)
    out = dict(gamma=arr(vlm.gamma_magnitude), V=arr(vlm.inlet_conditions.V_app_infs), Vt=arr(vlm.V_app_fs_at_cp),
               Vi=arr(vlm.V_induced_at_cp), Vc=arr(vlm.V_app_fs_at_ctrl_p), F=arr(vlm.force), lift=arr(vlm.lift),
               drag=arr(vlm.drag), p=arr(vlm.pressure), cp=arr(vlm.p_coeffs), M=arr(res.M_xyz), Ft=arr(res.F_xyz_total),
               Mt=arr(res.M_total_above_water_in_xyz_csys), points=arr(vlm.cp), area=arr(vlm.areas),
               ce=arr(res.above_water_centre_of_effort_estimate_xyz),
               Mk=arr(res.M_xyz_underwater_estimate_total) if keel else None,
               awa=arr(vlm.inlet_conditions.AWA_infs_deg), tws=arr(vlm.inlet_conditions.tws_at_cp))
    return r, out


def tops(r, case):
    """Natural size of every quantity, so that a vanishing one is not judged by its rounding."""
    U, L, rho = sut.scale_of(r["V"]), sut.scale_of(r["span"]), case["rho"]
    big = sut.scale_of(r["points"] if "points" in r else r["cp"]) + sut.scale_of(case["ref"]) + sut.scale_of(case["clr"]) + 1
    g = sut.scale_of(r["gamma"]) + 1e-4 * U * L
    vel = U + sut.scale_of(r["Vi"])
    f = rho * vel * g * L
    return dict(gamma=g, V=U, Vt=vel, Vi=vel, Vc=vel, F=f, lift=f, drag=f, p=f / float(r["areas"].min()), M=f * big,
                cp=f / float(r["areas"].min()) / float(r["q"].min()), Ft=f * len(r["V"]), Mt=f * big * len(r["V"]), points=big,
                area=sut.scale_of(r["areas"]), Mk=f * big * len(r["V"]), tws=U + sut.scale_of(r["tws"]))


def compare(a, b, factors, top, what, tol=1e-9):
    for k, f in factors.items():
        f = np.asarray(f, float)
        want = a[k] * f if f.ndim < 2 else a[k] @ f.T
        size = float(np.abs(f).max())
        sut.close(b[k], want, "%s: %s" % (what, NAMES[k]), tol, top[k] * size)


NAMES = dict(gamma="circulation", V="apparent wind", Vt="velocity at the centres of pressure", Vi="induced velocity",
             Vc="velocity at the control points", F="panel forces", lift="lift", drag="drag", p="pressure",
             cp="pressure coefficient", M="panel moments", Ft="total force", Mt="total moment", points="centres of pressure",
             area="areas", Mk="keel moment", awa="wind angle", tws="true wind", ce="centre of effort")


@st.composite
def scaled(draw, **kw):
    return dict(config=draw(gen.configs(max_ns=4, max_nc=3, **kw)), kind=draw(st.sampled_from(["density", "speed", "length", "length"])),
                k=draw(st.sampled_from([0.25, 0.5, 0.8, 1.25, 1.7, 2.0, 3.0, 4.0])))


def lengthen(c, k):
    c = copy.deepcopy(c)
    for key in ("main_luff", "jib_luff", "ft_height", "ft_base", "sheer", "boom", "mast_LOA", "ref_h", "ref_water", "roughness"):
        c[key] *= k
    for s in ("main", "jib"):
        c[s]["chords"] = [x * k for x in c[s]["chords"]]
    c["ref"] = [x * k for x in c["ref"]]
    c["clr"] = [x * k for x in c["clr"]]
    return c


def run_scaled(case, ctx):
    c, k, kind = case["config"], case["k"], case["kind"]
    one = dict.fromkeys(NAMES, 1.0)
    for x in ("awa", "ce"):
        one.pop(x)
    if kind == "density":
        d = dict(c, rho=c["rho"] * k)
        one.update(dict.fromkeys(("F", "lift", "drag", "p", "M", "Ft", "Mt", "Mk"), k))
    elif kind == "speed":
        d = dict(c, SOG=c["SOG"] * k, tws=c["tws"] * k)
        one.update(dict.fromkeys(("gamma", "V", "Vt", "Vi", "Vc", "tws"), k))
        one.update(dict.fromkeys(("F", "lift", "drag", "p", "M", "Ft", "Mt", "Mk"), k * k))
    else:
        d = lengthen(c, k)
        one.update(dict.fromkeys(("gamma", "points"), k))
        one.update(dict.fromkeys(("F", "lift", "drag", "Ft", "area"), k * k))
        one.update(dict.fromkeys(("M", "Mt", "Mk"), k ** 3))
    r, a = outcome(c)
    _, b = outcome(d)
    compare(a, b, one, tops(r, c), "%s times %g" % (kind, k))
    turn = (a["awa"] - b["awa"] + 180) % 360 - 180
    sut.close(turn, np.zeros(len(turn)), "%s times %g: wind angle" % (kind, k), 1e-8, 180)
    if np.linalg.norm(a["Ft"]) > 1e-3 * tops(r, c)["F"]:
        sut.close(b["ce"], a["ce"] * (k if kind == "length" else 1), "%s times %g: centre of effort" % (kind, k), 1e-6,
                  max(1.0, k) * (sut.scale_of(a["points"]) + sut.scale_of(a["ce"]) + sut.scale_of(c["ref"])))
    ctx.label(kind)


def mirrored(c):
    d = copy.deepcopy(c)
    for key in ("heel", "leeway", "alpha"):
        d[key] = -d[key]
    for s in ("main", "jib"):
        d[s]["twist"] = [-t for t in d[s]["twist"]]
    d["ref"][1], d["clr"][1] = -d["ref"][1], -d["clr"][1]
    return d


def tacks():
    return gen.configs(max_ns=4, max_nc=3, flat=True).map(lambda c: dict(c, llt="real_twist" if c["llt"] == "sheeting_angle_const" else c["llt"]))


def run_tack(c, ctx):
    r, a = outcome(c)
    _, b = outcome(mirrored(c))
    S = np.array([1.0, -1.0, 1.0])
    f = dict.fromkeys(("V", "Vt", "Vi", "Vc", "F", "lift", "drag", "Ft", "points", "tws"), S)
    f.update(dict.fromkeys(("M", "Mt", "Mk"), -S))
    f.update(gamma=-1.0, p=-1.0, cp=-1.0, area=1.0)
    compare(a, b, f, tops(r, c), "the other tack")
    sut.close(b["awa"], -a["awa"], "the other tack: wind angle", 1e-8, 180)
    ctx.label("tack")


# ---------------------------------------------------------------- panels and wind moved together
@st.composite
def moves(draw):
    g = draw(c10.grids())
    g.update(axis=[draw(num(-1, 1, 0.1)), draw(num(-1, 1, 0.1)), draw(num(0.1, 1, 0.1))], angle=draw(num(-180, 180, 1)),
             shift=[draw(num(-9, 9, 0.1)) for _ in range(3)], reflect=draw(st.booleans()), order=draw(st.permutations(range(len(g["grids"])))))
    return g


def solved_grids(G, V, rho):
    v = sut.vlm_on(G, V, rho)
    arr = lambda x: np.array(x, float)
    return dict(gamma=arr(v.gamma_magnitude), V=arr(v.inlet_conditions.V_app_infs), Vt=arr(v.V_app_fs_at_cp), Vi=arr(v.V_induced_at_cp),
                Vc=arr(v.V_app_fs_at_ctrl_p), F=arr(v.force), lift=arr(v.lift), drag=arr(v.drag), p=arr(v.pressure), cp=arr(v.p_coeffs),
                area=arr(v.areas))


def run_moves(case, ctx):
    G, V = c10.turned(case)
    rho = case["rho"]
    r = c10.reference(G, V, rho)
    r["q"] = 0.5 * rho * np.einsum("ij,ij->i", r["V"], r["V"])
    r["tws"] = r["V"]
    top = tops(r, dict(rho=rho, ref=[0.0], clr=[0.0]))
    a = solved_grids(G, V, rho)
    R, d = ref.rot(case["axis"], np.deg2rad(case["angle"])), np.array(case["shift"])
    vectors, scalars = ("V", "Vt", "Vi", "Vc", "F", "lift", "drag"), ("gamma", "p", "cp", "area")
    H = [g @ R.T + d for g in G]
    c10.reference(H, R @ V, rho)
    f = dict.fromkeys(vectors, R)
    f.update(dict.fromkeys(scalars, 1.0))
    compare(a, solved_grids(H, R @ V, rho), f, top, "turned and shifted", 1e-8)
    if case["reflect"]:
        S = np.diag([1.0, -1.0, 1.0])
        f = dict.fromkeys(vectors, S)
        f.update(gamma=-1.0, p=-1.0, cp=-1.0, area=1.0)
        compare(a, solved_grids([g @ S for g in G], S @ V, rho), f, top, "reflected", 1e-8)
        ctx.label("reflected")
    n = len(a["gamma"]) // len(G)
    order = list(case["order"])
    b = solved_grids([G[k] for k in order], V, rho)
    index = np.concatenate([np.arange(k * n, (k + 1) * n) for k in order])
    compare({k: x[index] for k, x in a.items()}, b, dict.fromkeys(vectors + scalars, 1.0), top, "sails in the order %s" % order)
    ctx.label("%d grids" % len(G))


# ---------------------------------------------------------------- order of the sails of a yacht
def run_order(c, ctx):
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    from pySailingVLM.yacht_geometry.sail_geometry import SailSet
    r, b, vlm, res = sut.solved(c)
    back = SailSet(list(b["sail_set"].sails)[::-1])
    w = sut.vlm_of(c, dict(b, sail_set=back))
    other = InviscidFlowResults(back, b["csys_transformations"], w)
    n = c["nc"] * c["ns"]
    index = np.arange(4 * n).reshape(2, 2, n)[:, ::-1].reshape(-1)
    top = tops(r, c)
    for k, name in (("gamma", "gamma_magnitude"), ("F", "force"), ("p", "pressure"), ("Vt", "V_app_fs_at_cp"), ("lift", "lift"), ("drag", "drag")):
        sut.close(getattr(w, name), np.asarray(getattr(vlm, name))[index], "main sail listed first: " + name, 1e-9, top[k])
    sut.close(other.F_xyz_total, res.F_xyz_total, "main sail listed first: total force", 1e-9, top["Ft"])
    sut.close(other.M_total_above_water_in_xyz_csys, res.M_total_above_water_in_xyz_csys, "main sail listed first: total moment", 1e-9, top["Mt"])
    for k, v in res.dyn_dict.items():
        sut.close(other.dyn_dict[k], v, "main sail listed first: " + k, 1e-9, top["Mt"])
    ctx.label("order")


# ---------------------------------------------------------------- the course does not matter to the air
@st.composite
def courses(draw):
    return dict(config=draw(gen.configs(max_ns=4, max_nc=3)), shift=[draw(num(-3, 3, 0.1)) for _ in range(3)])


def run_reference(case, ctx):
    """Moving the moment reference only changes moments, by the shift crossed with the force."""
    c = case["config"]
    d = dict(c, ref=[round(x + y, 6) for x, y in zip(c["ref"], case["shift"])])
    r, a = outcome(c)
    _, b = outcome(d)
    top = tops(r, c)
    same = dict.fromkeys(("gamma", "V", "Vt", "Vi", "Vc", "F", "lift", "drag", "p", "cp", "Ft", "points", "area"), 1.0)
    compare(a, b, same, top, "another reference point")
    s = np.array(d["ref"]) - np.array(c["ref"])
    half = len(a["F"]) // 2
    sut.close(b["M"][:half], a["M"][:half] - np.cross(s, a["F"][:half]), "another reference point: panel moments", 1e-9, top["M"] + 9 * top["F"])
    sut.close(b["Mt"], a["Mt"] - np.cross(s, a["Ft"]), "another reference point: total moment", 1e-9, top["Mt"] + 9 * top["Ft"])
    sut.close(b["Mk"], a["Mk"] - np.cross(s, -a["Ft"]), "another reference point: keel moment", 1e-9, top["Mk"] + 9 * top["Ft"])
    sut.close(b["Mt"] + b["Mk"], a["Mt"] + a["Mk"], "another reference point: grand total (force and keel balance)", 1e-9, 2 * top["Mk"])
    ctx.label("reference")


SUBS = [
    Sub("scaled", run_scaled, scaled, quick=1000, thorough=10000, about="density, speed and length scaled"),
    Sub("tack", run_tack, tacks, quick=600, thorough=6000, nontrivial=lambda c: c["SOG"] or c["alpha"], about="flat-sailed yachts and their mirror image on the other tack"),
    Sub("moves", run_moves, moves, quick=600, thorough=6000, about="free grids and wind turned, shifted, reflected and reordered together"),
    Sub("order", run_order, lambda: gen.configs(max_ns=7, max_nc=5, sails=("jib_and_main",)), quick=500, thorough=5000, corners=lambda: [c for c in gen.corner_configs() + gen.fine_corners() if c["sails"] == "jib_and_main"], about="main sail listed before the jib"),
    Sub("reference", run_reference, courses, quick=500, thorough=5000, nontrivial=lambda c: any(c["shift"]), about="another moment reference point"),
]
