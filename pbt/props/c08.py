"""C08: panels of a mesh: tiling, order, flags, areas."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Sub, Violation
from pbt.gen import num

PROPERTY = "C08"
RULE = "a case counts when the mesh has more than one panel or panels that are not rectangles"
ASSUMPTIONS = ("the area of a warped quadrilateral may be any value between its projected area and its larger triangulation",)


@st.composite
def meshes(draw):
    most = draw(st.sampled_from([7] * 9 + [24]))
    rows, cols = draw(st.integers(1, most)), draw(st.integers(1, most))
    kind = draw(st.sampled_from(["rectangle", "tapered", "sheared", "warped", "free"]))
    i, j = np.meshgrid(np.arange(rows + 1) / rows, np.arange(cols + 1) / cols, indexing="ij")
    a, b = draw(num(0.2, 5, 0.05)), draw(num(0.2, 20, 0.05))
    o = [draw(num(-5, 5, 0.1)) for _ in range(3)]
    taper, sweep = draw(num(-0.9, 0.9, 0.05)), draw(num(-3, 3, 0.05))
    x, y, z = a * i, 0 * i, b * j
    if kind != "rectangle":
        x = x * (1 + (taper if kind != "sheared" else 0) * j) + sweep * j * (kind != "tapered")
    if kind in ("warped", "free"):
        bend, twist = draw(num(-1, 1, 0.05)), draw(num(-1, 1, 0.05))
        y = bend * i * (1 - i) + twist * i * j
    m = np.stack([x + o[0], y + o[1], z + o[2]], axis=2)
    if kind == "free":
        size = 0.2 * min(a / rows * (1 - abs(taper)), b / cols)
        k = draw(st.integers(1, 997))
        m = m + size * np.sin(np.arange(m.size).reshape(m.shape) * (k * 0.37 + 0.1) + k)
    turn = ref.rot([draw(num(0.1, 1, 0.1)), draw(num(-1, 1, 0.1)), draw(num(-1, 1, 0.1))], np.deg2rad(draw(num(-180, 180, 5))))
    size = draw(st.sampled_from([1.0] * 5 + [1e-3, 0.01, 100.0]))
    return dict(kind=kind, mesh=(np.round(m @ turn.T, 9) * size).tolist(), size=size)


def check_panels(P, te, le, mesh, what, tol=0.0):
    nc, ns = mesh.shape[0] - 1, mesh.shape[1] - 1
    P, te, le = np.asarray(P, float), np.asarray(te), np.asarray(le)
    sut.close(P, ref.panels_of(mesh), what + ": panels", tol, sut.scale_of(mesh))
    row = np.repeat(np.arange(nc), ns)
    check_flags(te, le, row == nc - 1, (row == 0) & (nc > 1), what)


def check_flags(te, le, want_te, want_le, what):
    for got, want, name in ((te, want_te, "trailing"), (le, want_le, "leading")):
        got = np.asarray(got)
        sut.require(got.shape == want.shape, "%s: %s-edge flags of shape %s for %d panels" % (what, name, got.shape, len(want)))
        if (got.astype(bool) != want).any():
            raise Violation("%s: %s-edge flag of panel %d is %s" % (what, name, int(np.argmax(got.astype(bool) != want)),
                                                                    bool(got[np.argmax(got.astype(bool) != want)])))


def check_areas(got, P, ctx, what="area"):
    P = np.asarray(P, float)
    lo, hi = ref.area_range(P)
    got = np.asarray(got, float)
    sut.require(got.shape == (len(P),), "%s: shape %s for %d panels" % (what, got.shape, len(P)))
    room = 1e-9 * np.maximum(hi, 1e-3 * hi.max())
    bad = ~((got >= lo - room) & (got <= hi + room))
    if not bad.any():
        return
    f = ref.area_formula(P)
    worse = bad & ~(np.abs(got - f) <= 1e-9 * np.maximum(f, hi))
    if worse.any():
        k = int(np.argmax(worse))
        raise Violation("%s of panel %d: %r, the quadrilateral has %r" % (what, k, float(got[k]), float(0.5 * (lo[k] + hi[k]))))
    k = int(np.argmax(bad))
    ctx.known("F9-area", "%s of panel %d: %r, the quadrilateral has %r" % (what, k, float(got[k]), float(0.5 * (lo[k] + hi[k]))))


def run_mesh(case, ctx):
    from pySailingVLM.solver.panels import get_panels_area, make_panels_from_mesh_spanwise
    mesh = np.array(case["mesh"])
    keep = mesh.copy()
    P, te, le = make_panels_from_mesh_spanwise(mesh)
    check_panels(P, te, le, keep, "mesh %dx%d" % (mesh.shape[0] - 1, mesh.shape[1] - 1))
    check_areas(get_panels_area(np.asarray(P)), ref.panels_of(keep), ctx)
    sut.require((mesh == keep).all(), "the mesh was modified")
    P = np.asarray(P, float)
    if case["kind"] in ("rectangle", "sheared"):                       # flat: the areas add up to the outline's
        c = keep[[0, 0, -1, -1], [0, -1, -1, 0]]
        whole = 0.5 * np.linalg.norm(np.cross(c[2] - c[0], c[3] - c[1]))
        sut.close(np.sum(get_panels_area(P)), whole, "sum of the areas of a flat parallelogram", 1e-7, whole)
    ctx.label(case["kind"])


@st.composite
def wings(draw):
    le_sw = np.array([draw(num(-5, 5, 0.1)) for _ in range(3)])
    chord = np.array([draw(num(0.2, 4, 0.1)), draw(num(-1, 1, 0.1)), draw(num(-0.5, 0.5, 0.1))])
    span = np.array([draw(num(-1, 1, 0.1)), draw(num(0.2, 9, 0.1)), draw(num(-1, 9, 0.1))])
    tip = draw(num(0.2, 1.5, 0.05))
    washout = np.array([0, 0, draw(st.sampled_from([0.0, 0.0, 0.3]))])
    pts = [le_sw, le_sw + chord, le_sw + span, le_sw + span + tip * chord + washout]
    return dict(points=[np.round(p, 9).tolist() for p in pts], nc=draw(st.integers(1, 7)), ns=draw(st.one_of(st.integers(1, 7), st.integers(1, 30))))


def run_wing(case, ctx):
    from pySailingVLM.solver.mesher import discrete_segment, make_point_mesh
    from pySailingVLM.solver.panels import get_panels_area, make_panels_from_le_te_points
    le_sw, te_se, le_nw, te_ne = (np.array(p) for p in case["points"])
    nc, ns = case["nc"], case["ns"]
    i = (np.arange(nc + 1) / nc)[:, None]
    south, north = le_sw + i * (te_se - le_sw), le_nw + i * (te_ne - le_nw)
    j = (np.arange(ns + 1) / ns)[None, :, None]
    mesh = south[:, None] * (1 - j) + north[:, None] * j
    sut.close(discrete_segment(le_sw, te_se, nc), south, "points along an edge", 1e-12, 20.0)
    sut.close(make_point_mesh(south, north, ns), mesh, "points between two edges", 1e-12, 20.0)
    P, te, le = make_panels_from_le_te_points([le_sw, te_se, le_nw, te_ne], [nc, ns])
    check_panels(P, te, le, mesh, "wing %dx%d" % (nc, ns), 1e-12)
    check_areas(get_panels_area(np.asarray(P)), P, ctx)


def run_sail(case, ctx):
    from pySailingVLM.solver.panels import get_panels_area
    b = sut.build(case)
    s = b["sail_set"]
    r = ref.build(case)
    P = np.asarray(s.panels, float)
    sut.close(P, r["panels"], "panels of the sail set", 1e-10, 30.0)
    check_flags(s.trailing_edge_info, s.leading_edge_info, r["te"], r["le"], "sail set")
    n = case["nc"] * case["ns"]
    for sail in s.sails:
        check_flags(sail.trailing_edge_info, sail.leading_edge_info, r["te"][:n], r["le"][:n], sail.name)
    check_areas(get_panels_area(P), P, ctx)
    # neighbours share corners, on the code's own panels
    g = P.reshape(-1, case["nc"], case["ns"], 4, 3)
    for a, c, what in ((g[:, :-1, :, 0], g[:, 1:, :, 1], "behind"), (g[:, :-1, :, 3], g[:, 1:, :, 2], "behind"),
                       (g[:, :, :-1, 3], g[:, :, 1:, 0], "beside"), (g[:, :, :-1, 2], g[:, :, 1:, 1], "beside")):
        sut.close(a, c, "corner shared with the panel " + what, 0.0, 1.0)
    ctx.label("sail set")


SUBS = [
    Sub("mesh", run_mesh, meshes, quick=10000, thorough=50000,
        nontrivial=lambda c: len(c["mesh"]) * len(c["mesh"][0]) > 4 or c["kind"] != "rectangle",
        about="generated point meshes, flat to irregular"),
    Sub("wing", run_wing, wings, quick=6000, thorough=30000, about="wings given by four corners"),
    Sub("sail", run_sail, lambda: gen.configs(max_ns=9, max_nc=6, big=True), quick=2800, thorough=15000, corners=lambda: gen.corner_configs() + gen.fine_corners(),
        about="panels, flags and areas of built sail sets"),
]
