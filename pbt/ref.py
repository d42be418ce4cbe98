"""An independent vortex-lattice model of a sailing yacht: the oracle.

Written from the documented model (README, comments, Katz & Plotkin), not from the code: whole
arrays instead of loops, Rodrigues rotations, the singularity-free form of the Biot-Savart law
for a segment, an explicit mirror image obtained by reflecting the finished sails.  A case is
the JSON configuration described in gen.py."""
import numpy as np
from scipy.interpolate import CubicSpline

CORE = 1e-8          # documented vortex core: |r1|, |r2| or |r1 x r2|^2 below this


# ---------------------------------------------------------------- rotations
def rot(axis, angle):
    """Rodrigues: matrix turning counter-clockwise by `angle` radians about `axis`."""
    a = np.asarray(axis, float)
    a = a / np.sqrt(a @ a)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * (k @ k)


def rot_about_line(points, p1, p2, angle):
    """Rotate points (n,3) by angles (n,) about the line p1 -> p2."""
    a = (p2 - p1) / np.linalg.norm(p2 - p1)
    v = points - p1
    c, s = np.cos(angle)[:, None], np.sin(angle)[:, None]
    return p1 + v * c + np.cross(a, v) * s + np.outer(v @ a, a) * (1 - c)


def attitude(case):
    """Matrix taking the upright yacht to the heeled and drifted one."""
    return rot([0, 0, 1], np.deg2rad(case["leeway"])) @ rot([1, 0, 0], -np.deg2rad(case["heel"]))


MIRROR = np.array([1.0, 1.0, -1.0])


# ---------------------------------------------------------------- sections
def piecewise_linear(x, xs, ys):
    out = np.empty(len(x))
    for i, v in enumerate(x):
        k = min(max(int(np.searchsorted(xs, v, side="right")) - 1, 0), len(xs) - 2)
        t = (v - xs[k]) / (xs[k + 1] - xs[k])
        out[i] = ys[k] * (1 - t) + ys[k + 1] * t
    return out


def at_sections(kind, girths, values, n):
    x = np.arange(n) / (n - 1.0)
    girths, values = np.asarray(girths, float), np.asarray(values, float)
    if kind == "linear":
        return piecewise_linear(x, girths, values)
    return CubicSpline(girths, values, bc_type="not-a-knot")(x)


def camber_line(x, m, p):
    x = np.asarray(x, float)
    front = m / p ** 2 * (2 * p * x - x * x)
    back = m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x * x)
    return np.where(x < p, front, back)


# ---------------------------------------------------------------- rig and sails
def rig_points(case):
    """{sail: (tack, head)} of the upright yacht."""
    k = np.deg2rad(case["rake"])
    up = np.array([-np.cos(k), 0.0, np.sin(k)])            # along the mast
    sheer = case["sheer"] * up
    out = {}
    if case["sails"] in ("jib", "jib_and_main"):
        b, h = case["ft_base"], case["ft_height"]
        tack = sheer + np.array([-b - case["mast_LOA"] / np.sin(k), 0.0, 0.0])
        # the forestay runs from the forward end of the base to the mast at height h along it
        stay = h * up - np.array([-b, 0.0, 0.0])
        out["jib"] = (tack, tack + case["jib_luff"] * stay / np.linalg.norm(stay))
    if case["sails"] in ("main", "jib_and_main"):
        tack = sheer + case["boom"] * up
        out["main_sail"] = (tack, tack + case["main_luff"] * up)
    return out


def sail_sections(case, name):
    sail = case["jib" if name == "jib" else "main"]
    n = case["ns"] + 1
    get = lambda key: at_sections(case["interp"], sail["girths"], sail[key], n)
    return {k: get(k) for k in ("chords", "camber", "cpos", "twist")}


def effective_twist(twist, mode):
    if mode == "sheeting_angle_const":
        return np.full(len(twist), min(twist))
    if mode == "average_const":
        return np.full(len(twist), sum(twist) / len(twist))
    return np.asarray(twist, float)


def build_sail(case, name):
    """Grids (chordwise 0..nc, spanwise 0..ns, 3): upright untwisted and final above-water."""
    tack, head = rig_points(case)[name]
    sec = sail_sections(case, name)
    nc, ns = case["nc"], case["ns"]
    s = np.arange(ns + 1) / ns
    x = np.arange(nc + 1) / nc
    luff = tack + s[:, None] * (head - tack)
    zero = np.empty((nc + 1, ns + 1, 3))
    for j in range(ns + 1):
        zero[:, j, 0] = luff[j, 0] + sec["chords"][j] * x
        zero[:, j, 1] = sec["chords"][j] * camber_line(x, sec["camber"][j], sec["cpos"][j])
        zero[:, j, 2] = luff[j, 2]
    R = attitude(case)
    turned = zero @ R.T
    tw = np.deg2rad(effective_twist(sec["twist"], case["llt"]))
    t, h = R @ tack, R @ head
    final = np.empty_like(turned)
    for j in range(ns + 1):
        final[:, j] = rot_about_line(turned[:, j], t, h, np.full(nc + 1, tw[j]))
    return dict(name=name, zero=zero, grid=final, sections=sec, tack=tack, head=head,
                luff=luff @ R.T)


def panels_of(grid):
    """(nc*ns, 4, 3) corners: trailing/first, leading/first, leading/last, trailing/last."""
    lead, trail = grid[:-1], grid[1:]
    p = np.stack([trail[:, :-1], lead[:, :-1], lead[:, 1:], trail[:, 1:]], axis=2)
    return p.reshape(-1, 4, 3)


def image_grid(grid):
    """The reflected grid, its sections listed the other way round."""
    return grid[:, ::-1] * MIRROR


def sail_names(case):
    return {"jib": ["jib"], "main": ["main_sail"], "jib_and_main": ["jib", "main_sail"]}[case["sails"]]


def build(case):
    sails = [build_sail(case, n) for n in sail_names(case)]
    grids = [s["grid"] for s in sails] + [image_grid(s["grid"]) for s in sails]
    zeros = [s["zero"] for s in sails] + [image_grid(s["zero"]) for s in sails]
    nc, ns = case["nc"], case["ns"]
    row = np.repeat(np.arange(nc), ns)
    te = np.tile(row == nc - 1, len(grids))
    le = np.tile((row == 0) & (nc > 1), len(grids))
    return dict(sails=sails, grids=grids, panels=np.concatenate([panels_of(g) for g in grids]),
                zero=np.concatenate([panels_of(g) for g in zeros]), te=te, le=le)


def image_index(n_sails, nc, ns):
    """For every above-water panel the index of its image."""
    idx = np.arange(n_sails * nc * ns).reshape(n_sails, nc, ns)
    return (idx + n_sails * nc * ns)[:, :, ::-1].reshape(-1)


def lowest_point(case):
    return min(float(s["grid"][..., 2].min()) for s in build(case)["sails"])


# ---------------------------------------------------------------- wind
def wind_speed(case, h):
    h = np.asarray(h, float)
    if case["profile"] == "flat":
        return np.full(h.shape, float(case["tws"]))
    if case["profile"] == "logarithmic":
        return case["tws"] * np.log(h / case["roughness"]) / np.log(case["ref_h"] / case["roughness"])
    return case["tws"] * ((h - case["ref_water"]) / case["ref_h"]) ** case["exp"]


def true_wind(case, h):
    a = np.deg2rad(case["alpha"])
    return wind_speed(case, h)[..., None] * np.array([np.cos(a), np.sin(a), 0.0])


def apparent_wind(case, h):
    return true_wind(case, h) + np.array([case["SOG"], 0.0, 0.0])


# ---------------------------------------------------------------- lattice
def quad_normals(p):
    n = np.cross(p[:, 2] - p[:, 0], p[:, 3] - p[:, 1])
    return n / np.linalg.norm(n, axis=1)[:, None]


def lattice(panels, te, nc, ns, orientation=-1.0, linked=True):
    """Rings etc. of panels in blocks of nc rows by ns columns."""
    se, sw, nw, ne = (panels[:, k] for k in range(4))
    B = sw + 0.25 * (se - sw)
    C = nw + 0.25 * (ne - nw)
    A = se + 0.25 * (se - sw)
    D = ne + 0.25 * (ne - nw)
    if linked:
        nxt = np.where(te, np.arange(len(panels)), np.arange(len(panels)) + ns)
        A = np.where(te[:, None], A, B[nxt])
        D = np.where(te[:, None], D, C[nxt])
    lead, trail = 0.5 * (sw + nw), 0.5 * (se + ne)
    return dict(normals=quad_normals(panels), rings=np.stack([A, B, C, D], axis=1),
                cp=0.5 * (B + C), ctr=0.25 * lead + 0.75 * trail,
                span=orientation * (C - B), lead=lead, trail=trail)


def segment(P, A, B, near=None):
    """Velocity at P[i] of unit segments A[j]->B[j]; (i, j, 3)."""
    r1 = P[:, None] - A[None]
    r2 = P[:, None] - B[None]
    n1, n2 = np.linalg.norm(r1, axis=2), np.linalg.norm(r2, axis=2)
    cr = np.cross(r1, r2)
    cc = np.einsum("ijk,ijk->ij", cr, cr)
    core = (n1 < CORE) | (n2 < CORE) | (cc < CORE)
    if near is not None:        # record how close anything comes to the cut-off on either side
        off = cc[(cc > 1e-20)]
        if off.size:
            near.append(float(off.min()))
    dot = np.einsum("ijk,ijk->ij", r1, r2)
    # (r1+r2)/(r1 r2 (r1 r2 + r1.r2)) = (r1+r2)(r1 r2 - r1.r2)/(r1 r2 |r1 x r2|^2): the first form
    # is accurate off the segment, the second where r1 and r2 are nearly opposite
    with np.errstate(divide="ignore", invalid="ignore"):
        f1 = (n1 + n2) / (n1 * n2 * (n1 * n2 + dot))
        f2 = (n1 + n2) * (n1 * n2 - dot) / (n1 * n2 * cc)
        f = np.where(dot >= 0, f1, f2)
    f = np.where(core, 0.0, f)
    return f[:, :, None] * np.where(core[:, :, None], 0.0, cr) / (4 * np.pi)


def half_line(P, A, U):
    """Velocity at P[i] of unit vortices running from A[j] to infinity along U[j]; (i, j, 3)."""
    u = U / np.linalg.norm(U, axis=1)[:, None]
    r = P[:, None] - A[None]
    n = np.linalg.norm(r, axis=2)
    t = np.einsum("ijk,jk->ij", r, u)
    cr = np.cross(u[None], r)
    cc = np.einsum("ijk,ijk->ij", cr, cr)
    with np.errstate(divide="ignore", invalid="ignore"):
        f = np.where(t > 0, (n + t) / (n * cc), 1.0 / (n * (n - t)))
    return f[:, :, None] * cr / (4 * np.pi)


def influence(P, rings, te, U, orientation=-1.0, near=None):
    A, B, C, D = (rings[:, k] for k in range(4))
    v = segment(P, A, B, near) + segment(P, B, C, near) + segment(P, C, D, near)
    closing = segment(P, D, A, near)
    closing[:, te] = half_line(P, D[te], U[te]) - half_line(P, A[te], U[te])
    return orientation * (v + closing)


def solve(panels, te, nc, ns, V, rho, orientation=-1.0, linked=True):
    """Circulations, velocities and forces; panels in blocks of nc x ns."""
    L = lattice(panels, te, nc, ns, orientation, linked)
    near = []
    W = influence(L["ctr"], L["rings"], te, V, orientation, near)
    A = np.einsum("ijk,ik->ij", W, L["normals"])
    rhs = -np.einsum("ij,ij->i", V, L["normals"])
    gamma = np.linalg.solve(A, rhs)
    Wc = influence(L["cp"], L["rings"], te, V, orientation, near)
    Vi = np.einsum("ijk,j->ik", Wc, gamma)
    net = gamma.copy()
    row = (np.arange(len(gamma)) // ns) % nc
    behind = np.flatnonzero(row > 0)
    net[behind] = gamma[behind] - gamma[behind - ns]
    bound = L["span"] * net[:, None]
    force = rho * np.cross(V + Vi, bound)
    lift = rho * np.cross(V, bound)
    drag = rho * np.cross(Vi, bound)
    # rounding of a backward stable solution: what a correct solver may leave as residual
    slack = np.abs(A) @ np.abs(gamma) + np.abs(rhs)
    L.update(A=A, rhs=rhs, gamma=gamma, W=W, Vi=Vi, V=V, Vt=V + Vi, net=net, bound=bound,
             force=force, lift=lift, drag=drag, areas_formula=area_formula(panels),
             areas=area_true(panels), slack=float(slack.max()),
             Vt_ctr=V + np.einsum("ijk,j->ik", W, gamma), near=min(near) if near else 1.0)
    L["cond"] = float(np.linalg.cond(A))
    return L


def area_true(p):
    """Area of the quadrilateral, the mean of its two triangulations (equal when flat)."""
    def tri(a, b, c):
        return 0.5 * np.linalg.norm(np.cross(b - a, c - a), axis=1)
    p0, p1, p2, p3 = (p[:, k] for k in range(4))
    return 0.5 * (tri(p0, p1, p2) + tri(p0, p2, p3) + tri(p0, p1, p3) + tri(p1, p2, p3))


def area_range(p):
    def tri(a, b, c):
        return 0.5 * np.linalg.norm(np.cross(b - a, c - a), axis=1)
    p0, p1, p2, p3 = (p[:, k] for k in range(4))
    a, b = tri(p0, p1, p2) + tri(p0, p2, p3), tri(p0, p1, p3) + tri(p1, p2, p3)
    half = 0.5 * np.linalg.norm(np.cross(p2 - p0, p3 - p1), axis=1)    # area of the projection
    lo = np.minimum(np.minimum(a, b), half)
    return lo, np.maximum(a, b)


def area_formula(p):
    """The recorded finding: triangles 0-1-2 and 1-2-3, which overlap unless 01 and 23 are parallel."""
    e = np.diff(p, axis=1)
    return 0.5 * (np.linalg.norm(np.cross(e[:, 0], e[:, 1]), axis=1)
                  + np.linalg.norm(np.cross(e[:, 1], e[:, 2]), axis=1))


# ---------------------------------------------------------------- whole case
def run(case):
    g = build(case)
    nc, ns = case["nc"], case["ns"]
    L0 = lattice(g["panels"], g["te"], nc, ns)
    V = apparent_wind(case, np.abs(L0["cp"][:, 2]))
    S = solve(g["panels"], g["te"], nc, ns, V, case["rho"])
    half = len(V) // 2
    ref = np.asarray(case["ref"], float)
    up = np.where(np.arange(len(V)) < half, 1.0, -1.0)
    arm = S["cp"] - np.stack([np.full(len(V), ref[0]), np.full(len(V), ref[1]), up * ref[2]], axis=1)
    M = np.cross(arm, S["force"])
    F = S["force"][:half].sum(axis=0)
    Mt = M[:half].sum(axis=0)
    n = nc * ns
    per_sail = {}
    for k, s in enumerate(g["sails"]):
        sl = slice(k * n, (k + 1) * n)
        per_sail[s["name"]] = (S["force"][sl].sum(axis=0), M[sl].sum(axis=0))
    clr = attitude(case) @ np.asarray(case["clr"], float)
    S.update(g=g, arm=arm, M=M, F_total=F, M_total=Mt, per_sail=per_sail, half=half, clr=clr,
             M_keel=np.cross(clr - ref, -F), tws=true_wind(case, np.abs(S["cp"][:, 2])),
             q=0.5 * case["rho"] * np.einsum("ij,ij->i", V, V))
    return S
