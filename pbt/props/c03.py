"""C03: rotations, heel/leeway transforms and centreline components."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num

PROPERTY = "C03"
RULE = "a case counts when some angle is not zero and some point is off the origin"
ASSUMPTIONS = ("a point exactly on the water plane belongs to the image, as the code documents by its z > 0 test; "
               "it is judged only for its length and for staying undone by the reverse transform when upright",)

coord = st.one_of(num(-20, 20, 0.001), num(-2, 2, 0.1), st.sampled_from([0.0, 1.0, -1.0, 1e-4, -0.003]), st.sampled_from([300.0, -4000.0]))
point = st.tuples(coord, coord, coord).map(list)
points = st.lists(point, min_size=1, max_size=6)
angle = st.one_of(num(-180, 180, 0.1), num(-40, 40, 0.5), st.sampled_from([0.0, 90.0, -90.0, 180.0, 360.0, 5.0]),
                  st.sampled_from([1e-5, -1e-3, 0.02, -0.05, 359.99, -181.0, 540.0]))
attitude_angle = st.one_of(num(-60, 60, 0.1), num(-89, 89, 0.5), st.sampled_from([0.0, 10.0, -10.0, 45.0]),
                           st.sampled_from([1e-4, -0.003, 0.04, -89.9, 90.0, 120.0]))
TOL = 1e-12


@st.composite
def attitudes(draw):
    return dict(heel=draw(attitude_angle), leeway=draw(st.one_of(num(-30, 30, 0.1), num(-180, 180, 1), st.sampled_from([1e-4, -0.003, 0.05, 360.0]))),
                points=draw(points), ref=draw(point), style=draw(st.sampled_from([None, None, None, "whole", "strided", "readonly", "numpy"])))


@st.composite
def axes(draw):
    p1 = np.array(draw(point))
    how = draw(st.sampled_from(["free", "free", "z", "y", "steep", "origin", "inx"]))
    d = {"free": lambda: draw(point), "z": lambda: [0.0, 0.0, draw(num(-5, 5, 0.1))],
         "y": lambda: [0.0, draw(num(-5, 5, 0.1)), 0.0],
         "steep": lambda: [draw(num(-1, 1, 0.1)), 0.0, draw(num(1, 20, 0.1))],
         "inx": lambda: [draw(num(-20, 20, 0.1)), draw(num(-0.1, 0.1, 0.001)), 0.02],
         "origin": lambda: draw(point)}[how]()
    if how == "origin":
        p1 = np.zeros(3)
    return dict(p1=p1.tolist(), p2=[round(float(x), 6) for x in p1 + d], a=draw(angle), b=draw(angle), points=draw(points))


def run_axis(case, ctx):
    from pySailingVLM.rotations.geometry_calc import (
        rotate_points_around_arbitrary_axis, rotate_points_around_origin_axis, rotation_matrix)
    p1, p2 = np.array(case["p1"]), np.array(case["p2"])
    d = p2 - p1
    L = np.linalg.norm(d)
    if L < 1e-2:
        raise Skip("axis without direction")
    P = np.array(case["points"])
    top = max(1.0, float(np.abs(P).max()), float(np.abs(p1).max()), float(np.abs(p2).max()))
    for a in (case["a"], case["b"], case["a"] + case["b"]):
        t = np.deg2rad(a)
        want = ref.rot(d, t)
        M = np.asarray(rotation_matrix(d.tolist(), t), float)
        sut.close(M, want, "rotation_matrix about %s by %r degrees" % (d.tolist(), a), TOL, 1.0)
        sut.close(np.asarray(rotation_matrix(d, t), float), want, "rotation_matrix of an array axis", TOL, 1.0)
        sut.close(rotate_points_around_origin_axis(P.copy(), d.copy(), t), P @ want.T,
                  "rotation about the origin by %r degrees" % a, TOL, top)
        if np.hypot(d[1], d[2]) > 1e-3 * L:
            cond = max(1.0, L / np.hypot(d[1], d[2]))
            got = np.asarray(rotate_points_around_arbitrary_axis(P.copy(), p1.copy(), p2.copy(), t), float)
            sut.close(got, ref.rot_about_line(P, p1, p2, np.full(len(P), t)),
                      "rotation about the line %s-%s by %r degrees" % (case["p1"], case["p2"], a), TOL * cond, top * 4)
            on = np.array([p1, p2, p1 + 0.3 * d])
            sut.close(rotate_points_around_arbitrary_axis(on.copy(), p1.copy(), p2.copy(), t), on,
                      "points on the axis of rotation", TOL * cond, top * 4)
            ctx.label("arbitrary axis")
        else:
            ctx.label("axis along x (not supported by the arbitrary-axis routine)")
    # composition and preserved distances, on the code's own output
    if np.hypot(d[1], d[2]) > 1e-3 * L:
        rot = rotate_points_around_arbitrary_axis
        A, B = np.deg2rad(case["a"]), np.deg2rad(case["b"])
        one = np.asarray(rot(np.asarray(rot(P.copy(), p1, p2, A)), p1, p2, B), float)
        sut.close(one, rot(P.copy(), p1, p2, A + B), "rotating by a then b against a + b", 1e-10, top * 4)
        D = lambda Q: np.linalg.norm(Q[:, None] - Q[None], axis=2)
        sut.close(D(one), D(P), "distances under rotation", 1e-10, top * 4)


def run_attitude(case, ctx):
    if case.get("style") == "whole":
        case = dict(case, heel=float(round(case["heel"])), leeway=float(round(case["leeway"])), ref=[float(round(x)) for x in case["ref"]],
                    points=[[float(round(x)) for x in p] for p in case["points"]])
    c = sut.csys_of(case)
    A = ref.attitude(case)
    mirror = ref.MIRROR
    P = [sut.styled(np.array(p, float), case.get("style")) for p in case["points"]]
    top = max(1.0, float(np.abs(np.array(P)).max()))
    for p in P:
        keep = p.copy()
        free = np.asarray(c.rotate_point_without_mirror(p), float)
        sut.close(free, A @ keep, "heel and leeway of %s" % keep.tolist(), TOL, top)
        got = np.asarray(c.rotate_point_with_mirror(p), float)
        if keep[2] != 0:
            want = A @ keep if keep[2] > 0 else mirror * (A @ (mirror * keep))
            sut.close(got, want, "heel and leeway with mirror of %s" % keep.tolist(), TOL, top)
            image = np.asarray(c.rotate_point_with_mirror(mirror * keep), float)
            sut.close(image, mirror * got, "image of %s" % keep.tolist(), TOL, top)
        sut.close(np.linalg.norm(got), np.linalg.norm(keep), "distance to the origin of %s" % keep.tolist(), TOL, top)
        if keep[2] != 0 and got[2] * keep[2] > 1e-9:
            back = np.asarray(c.reverse_rotations_with_mirror(got.copy()), float)
            sut.close(back, keep, "undoing heel and leeway of %s" % keep.tolist(), TOL, top)
            ctx.label("undone")
            down = np.asarray(c.reverse_rotations_with_mirror(mirror * got), float)
            sut.close(down, mirror * keep, "undoing heel and leeway of the image of %s" % keep.tolist(), TOL, top)
        if not (p == keep).all():
            raise Violation("transforming %s changed it to %s" % (keep.tolist(), p.tolist()))
    ctx.label("heel %s leeway %s" % tuple(np.sign([case["heel"], case["leeway"]]).astype(int).tolist()))
    sut.require(c.heel_deg == case["heel"] and c.leeway_deg == case["leeway"],
                "the transform reports heel %r and leeway %r" % (c.heel_deg, c.leeway_deg))
    sut.close(c.v_from_original_xyz_2_reference_csys_xyz, case["ref"], "reference point of the transform", 0, 1.0)
    along_centreline(c, np.array(P), case["leeway"], ctx, top)


def along_centreline(c, V, leeway, ctx, top):
    """Vectors along the centreline: turned by the leeway, length and height kept."""
    got = np.asarray(c.from_xyz_to_centerline_csys(V.copy()), float)
    sut.require(got.shape == V.shape, "centreline components have shape %s" % (got.shape,))
    sut.close(got[:, 2], V[:, 2], "vertical component along the centreline", TOL, top)
    sut.close(np.linalg.norm(got, axis=1), np.linalg.norm(V, axis=1), "length along the centreline", TOL, top)
    centreline(got, V, leeway, ctx, "components along the centreline", TOL, top)


def centreline(got, V, leeway, ctx, what, tol, top=None):
    """Components along the centreline: those of the turned axes (minus leeway).  The recorded
    finding turns the other way; anything else is a violation."""
    l = np.deg2rad(leeway)
    V = np.atleast_2d(V)
    got = np.atleast_2d(np.asarray(got, float))
    top = max(sut.scale_of(V), 1e-12) if top is None else top
    if np.abs(got - V @ ref.rot([0, 0, 1], -l).T).max() <= tol * top:
        return
    sut.close(got, V @ ref.rot([0, 0, 1], l).T, what, tol, top)
    ctx.known("F11-centreline-turn", "%s are turned by +leeway" % what)


def nontrivial_attitude(c):
    return (c["heel"] != 0 or c["leeway"] != 0) and any(any(p) for p in c["points"])


SUBS = [
    Sub("axis", run_axis, axes, quick=12000, thorough=80000,
        nontrivial=lambda c: c["p1"] != c["p2"] and (c["a"] % 360 != 0),
        about="rotation matrices and rotations about generated axes against Rodrigues' formula"),
    Sub("attitude", run_attitude, attitudes, quick=12000, thorough=80000, nontrivial=nontrivial_attitude,
        about="heel, leeway, image, inverse and centreline components of generated points"),
]
