"""C09: lattice quantities of every panel."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Sub
from pbt.gen import num
from pbt.props.c08 import meshes, wings

PROPERTY = "C09"
RULE = "a case counts when there is more than one panel or the panels are not rectangles"
ASSUMPTIONS = ("the routine for single wings, which does not link rings between rows, is judged on grids where the "
               "panel behind continues the panel in front (one row, or a flat uniform wing)",)


def check(got, L, what):
    names = ("normals", "ctr", "cp", "rings", "span", "lead", "trail")
    said = ("unit normal", "control point", "centre of pressure", "vortex ring", "bound vortex vector",
            "leading edge midpoint", "trailing edge midpoint")
    for value, name, text in zip(got, names, said):
        sut.close(value, L[name], "%s: %s" % (what, text), 1e-11, 1.0 if name == "normals" else sut.scale_of(L["rings"]))
    n = np.asarray(got[0], float)
    sut.close(np.linalg.norm(n, axis=1), np.ones(len(n)), what + ": length of the normals", 1e-12, 1.0)


@st.composite
def grids(draw):
    """One to four sails of the same panel counts (different shapes)."""
    first = draw(meshes().filter(lambda m: m["kind"] != "rectangle"))
    m = np.array(first["mesh"])
    out = [m.tolist()]
    for k in range(draw(st.integers(0, 3))):
        turn = ref.rot([1, 0.3 * k, -0.2], 0.4 + k)
        bend = 1 + 0.2 * np.sin(np.arange(m.size).reshape(m.shape) * (k + 0.7))
        out.append((np.round((m / first["size"] * (bend if draw(st.booleans()) else 1.0)) @ turn.T + [3 * k, 1, -2], 9) * first["size"]).tolist())
    return dict(sails=out, o=draw(st.sampled_from([1.0, -1.0])))


def run_grid(case, ctx):
    from pySailingVLM.solver.coefs import (
        calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points as single, calculate_vlm_variables)
    m = [np.array(s) for s in case["sails"]]
    nc, ns = m[0].shape[0] - 1, m[0].shape[1] - 1
    P = np.concatenate([ref.panels_of(g) for g in m])
    te = np.tile(np.repeat(np.arange(nc), ns) == nc - 1, len(m))
    keep = P.copy()
    got = calculate_vlm_variables(P, te, case["o"], nc, ns)
    check(got, ref.lattice(keep, te, nc, ns, case["o"]), "%d sails of %dx%d panels" % (len(m), nc, ns))
    L = ref.lattice(keep, te, nc, ns, case["o"], linked=False)
    got = single(P, case["o"])
    if nc == 1:
        check(got, L, "single-row wing")
    else:
        for k in (0, 1, 2, 4, 5, 6):
            name = ("normals", "ctr", "cp", "", "span", "lead", "trail")[k]
            sut.close(got[k], L[name], "wing: " + name, 1e-11, 1.0 if name == "normals" else sut.scale_of(L["rings"]))
    sut.require((P == keep).all(), "the panels were modified")
    ctx.label("%d sails" % len(m))


def run_wing(case, ctx):
    """Flat uniform wings: the unlinked routine must give the linked rings."""
    from pySailingVLM.solver.coefs import (
        calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points as single, calculate_vlm_variables)
    p = [np.array(x) for x in case["points"]]
    nc, ns = case["nc"], case["ns"]
    i, j = (np.arange(nc + 1) / nc)[:, None, None], (np.arange(ns + 1) / ns)[None, :, None]
    mesh = (p[0] + i * (p[1] - p[0])) + j * (p[2] - p[0])                     # parallelogram
    P = ref.panels_of(mesh)
    te = np.repeat(np.arange(nc), ns) == nc - 1
    for o in (1.0, -1.0):
        L = ref.lattice(P, te, nc, ns, o)
        check(single(P, o), L, "uniform wing")
        check(calculate_vlm_variables(P, te, o, nc, ns), L, "uniform wing")


def run_case(case, ctx):
    """The lattice of a built yacht, and what the stated facts say about it."""
    from pySailingVLM.solver.coefs import calculate_vlm_variables
    b = sut.build(case)
    s = b["sail_set"]
    nc, ns = case["nc"], case["ns"]
    r = ref.build(case)
    for o in (-1.0, 1.0):
        got = calculate_vlm_variables(np.asarray(s.panels), np.asarray(s.trailing_edge_info), o, nc, ns)
        check(got, ref.lattice(r["panels"], r["te"], nc, ns, o), "yacht")
    normals, ctr, cp, rings, span, lead, trail = (np.asarray(x, float) for x in got)
    P = np.asarray(s.panels, float)
    sut.close(np.einsum("ij,ij->i", normals, P[:, 2] - P[:, 0]), np.zeros(len(P)), "normal against a diagonal", 1e-10, 5.0)
    sut.close(np.einsum("ij,ij->i", normals, P[:, 3] - P[:, 1]), np.zeros(len(P)), "normal against a diagonal", 1e-10, 5.0)
    sut.close(0.5 * (rings[:, 1] + rings[:, 2]), cp, "midpoint of the bound vortex", 1e-11, 30.0)
    ahead = np.flatnonzero(~np.asarray(s.trailing_edge_info))
    if ahead.size:
        sut.close(rings[ahead][:, [0, 3]], rings[ahead + ns][:, [1, 2]], "ring closing on the bound vortex behind", 1e-11, 30.0)
    ctx.label("yacht")


SUBS = [
    Sub("grid", run_grid, grids, quick=8000, thorough=40000, about="generated grids of one to four sails, both orientations"),
    Sub("wing", run_wing, wings, quick=2400, thorough=12000, about="flat uniform wings, linked and single-wing routine"),
    Sub("yacht", run_case, lambda: gen.configs(max_ns=8, max_nc=5, big=True), quick=2400, thorough=12000, corners=lambda: gen.corner_configs() + gen.fine_corners(),
        about="lattices of built yachts"),
]
