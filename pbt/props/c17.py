"""C17: the free wing against the model, wing theory and the sail solver."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub
from pbt.gen import num

PROPERTY = "C17"
RULE = "a case counts when the wing has an incidence"
ASSUMPTIONS = ("lift and drag coefficients are judged for streams along x, as in the documented use; forces, pressures and "
               "force coefficients for any stream",
               "'near' and 'small' are the bands given in c17.py, measured on the independent model with room to spare",
               "the domain of C10")


def warm():
    from pySailingVLM.runner.aircraft import Aircraft
    Aircraft(1.0, 2.0, 3.0, 2, 2, np.array([1.0, 0.0, 0.0]))


def stream(c):
    """Along x, or turned by the drift about z and the climb about y."""
    d, e = np.deg2rad(c.get("drift", 0.0)), np.deg2rad(c.get("climb", 0.0))
    return [float(v) for v in (c["U"] * np.cos(d) * np.cos(e), c["U"] * np.sin(d) * np.cos(e), c["U"] * np.sin(e))]


def aircraft(c, **over):
    from pySailingVLM.runner.aircraft import Aircraft
    c = dict(c, **over)
    V = np.array(stream(c))
    a = Aircraft(c["chord"], c["half_span"], c["aoa"], c["ns"], c["nc"], V, c["rho"], c["orientation"])
    sut.require(V.tolist() == stream(c), "the stream velocity was modified")
    return a


def model(c):
    nc, ns = c["nc"], c["ns"]
    G = np.zeros((nc + 1, ns + 1, 3))
    G[..., 0] = (np.arange(nc + 1) / nc * c["chord"])[:, None]
    G[..., 2] = (c["half_span"] * (2 * np.arange(ns + 1) / ns - 1))[None]
    G = G @ ref.rot([0, 0, 1], -np.deg2rad(c["aoa"])).T
    P = ref.panels_of(G)
    r = ref.solve(P, np.repeat(np.arange(nc), ns) == nc - 1, nc, ns, np.tile(stream(c), (len(P), 1)), c["rho"], c["orientation"])
    sut.domain(r)
    q = 0.5 * c["rho"] * c["U"] ** 2
    r["S"] = 2 * c["half_span"] * c["chord"]
    r["C"] = r["force"].sum(axis=0) / (q * r["S"])
    r["p"] = np.einsum("ij,ij->i", r["force"], r["normals"]) / (r["S"] / (nc * ns))
    # natural sizes
    a = max(abs(np.deg2rad(c["aoa"])) + abs(np.deg2rad(c.get("drift", 0.0))), 1e-3)
    r["top"] = dict(F=q * r["S"] * 2 * np.pi * a, C=2 * np.pi * a, p=q * 4 * np.pi * a * nc * ns)
    return r


def theory(c):
    """Lifting-line theory: 2 pi per radian in two dimensions, span efficiency 0.8."""
    AR = 2 * c["half_span"] / c["chord"]
    lift = 2 * np.pi * np.deg2rad(c["aoa"]) * AR / (AR + 2 / 0.8)
    return AR, lift, lift ** 2 / (np.pi * AR * 0.8)


def check_wing(c, r, a, what=""):
    t = r["top"]
    F = np.asarray(a.force, float)
    sut.close(F, r["force"], what + "panel forces of the wing", 1e-8, t["F"])
    sut.close(a.pressure, r["p"], what + "pressures of the wing", 1e-8, t["p"])
    C = F.sum(axis=0) / (0.5 * c["rho"] * c["U"] ** 2 * r["S"])
    sut.close(np.asarray(a.Cxyz, float), C, what + "force coefficients", 1e-10, t["C"])
    total = np.asarray(a.pressure, float).sum() / (0.5 * c["rho"] * c["U"] ** 2 * r["S"])
    sut.close(a.Cp, total, what + "pressures summed over the wing, per dynamic pressure and area", 1e-10, t["p"] * len(F) / (0.5 * c["rho"] * c["U"] ** 2 * r["S"]))
    if not c.get("drift") and not c.get("climb"):
        sut.close(a.CL, C[1], what + "lift coefficient", 1e-10, t["C"])
        sut.close(a.CD, C[0], what + "drag coefficient", 1e-10, t["C"])
    AR, cl, cd = theory(c)
    sut.close(a.AR, AR, what + "aspect ratio", 1e-12)
    sut.close(a.CL_theoretical, cl, what + "theoretical lift coefficient", 1e-12, max(abs(cl), 1e-12))
    sut.close(a.CD_theoretical, cd, what + "theoretical drag coefficient", 1e-12, max(cd, 1e-12))
    check_info(c, r, a, what)


def check_info(c, r, a, what):
    """The numbers of the printed summary, whatever its layout, hold the wing's coefficients to the digits shown."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        a.get_info()
    text = out.getvalue()
    near = {}
    for key in ("CL_expected", "CD_ind_expected", "CL_vlm", "CD_vlm", "Ratio"):
        m = re.search(key + r"\s*[:=]?\s*(%s)" % NUMBER, text)
        if m:
            near[key] = float(m.group(1))
    want = dict(CL_expected=a.CL_theoretical, CD_ind_expected=a.CD_theoretical, CL_vlm=a.CL, CD_vlm=a.CD, Ratio=a.AR)
    for key, v in near.items():
        sut.require(abs(v - want[key]) <= 0.51e-6 + 1e-9 * abs(want[key]), "%sprinted %s is %r, the wing has %r" % (what, key, v, want[key]))
    m = re.search(r"total_F\s*\[([^\]]*)\]", text)
    if m:
        F = [float(v) for v in re.findall(NUMBER, m.group(1))]
        sut.require(len(F) == 3, "%sprinted total force %r" % (what, m.group(1)))
        total = np.asarray(a.force, float).sum(axis=0)
        room = 2e-8 + 1e-7 * float(np.abs(total).max())                                 # numpy prints eight digits
        sut.close(F, total, what + "printed total force", 1.0, room)


NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def run_model(c, ctx):
    r = model(c)
    a = aircraft(c)
    check_wing(c, r, a)
    b = aircraft(c, orientation=-c["orientation"])
    check_wing(c, r, b, "other orientation: ")
    sut.close(b.force, a.force, "panel forces for the other circulation orientation", 1e-9, r["top"]["F"])
    sut.close([b.CL, b.CD], [a.CL, a.CD], "coefficients for the other circulation orientation", 1e-9, r["top"]["C"])
    ctx.label("%d rows" % c["nc"])


def run_sail(c, ctx):
    """An upright rectangular sail standing on the water is half of the wing."""
    c = dict(c, ns=2 * c["ns"])
    r = model(c)
    a = aircraft(c)
    g = [0.0, 0.3, 1.0]
    flat = dict(girths=g, chords=[c["chord"]] * 3, camber=[0.0] * 3, cpos=[0.5] * 3, twist=[0.0] * 3)
    case = gen.default_config(sails="main", ns=c["ns"] // 2, nc=c["nc"], interp="linear", heel=0.0, leeway=0.0, profile="flat", alpha=c["aoa"],
                              tws=c["U"], SOG=0.0, rho=c["rho"], rake=90.0, sheer=0.0, boom=0.0, main_luff=c["half_span"], main=flat, jib=flat)
    s, b, vlm, res = sut.solved(case, keel=False)
    back = ref.rot([0, 0, 1], -np.deg2rad(c["aoa"]))
    t = r["top"]
    F = np.asarray(vlm.force, float) @ back.T
    n = c["nc"] * c["ns"] // 2
    half = lambda x: np.asarray(x, float).reshape((c["nc"], c["ns"]) + np.shape(x)[1:])[:, c["ns"] // 2:].reshape((n,) + np.shape(x)[1:])
    sut.close(F[:n], half(a.force), "panel forces of the sail and of the upper half wing", 1e-8, t["F"])
    low = lambda x: np.asarray(x, float).reshape((c["nc"], c["ns"]) + np.shape(x)[1:])[:, :c["ns"] // 2].reshape((n,) + np.shape(x)[1:])
    sut.close(F[n:], low(a.force), "panel forces of the image and of the lower half wing", 1e-8, t["F"])
    C = 2 * back @ np.asarray(res.F_xyz_total, float) / (0.5 * c["rho"] * c["U"] ** 2 * r["S"])
    sut.close([a.CD, a.CL], C[:2], "coefficients of the wing against the sail with its image", 1e-8, t["C"])
    ctx.label("sail of %d rows" % c["nc"])


def run_stream(c, ctx):
    """A stream that is not along x: forces, pressures and force coefficients follow it."""
    r = model(c)
    check_wing(c, r, aircraft(c))
    if not c["climb"]:
        # only the incidence against the stream matters to the size of the force
        flat = aircraft(dict(c, drift=0.0, aoa=c["aoa"] + c["drift"]))
        turn = ref.rot([0, 0, 1], np.deg2rad(c["drift"]))
        sut.close(aircraft(c).force, np.asarray(flat.force, float) @ turn.T, "forces of the wing turned with the stream", 1e-8, r["top"]["F"])
    ctx.label("climbing" if c["climb"] else "drifting")


@st.composite
def streams(draw):
    c = draw(any_wings())
    c["drift"] = draw(num(-30, 30, 0.5))
    c["climb"] = draw(st.one_of(st.just(0.0), num(-40, 40, 0.5)))
    return c


def run_theory(c, ctx):
    a = aircraft(dict(c, aoa=c["aoa"]))
    b = aircraft(dict(c, aoa=2 * c["aoa"]))
    m = aircraft(dict(c, aoa=-c["aoa"]))
    t = 1e-9 * model(c)["top"]["C"]
    for x, k in ((a, 1), (b, 2), (m, -1)):
        AR, cl, cd = theory(dict(c, aoa=k * c["aoa"]))
        for name, got, want, lo, hi in (("lift", x.CL, cl, 0.85, 1.1), ("induced drag", x.CD, cd, 0.5, 1.1)):
            sut.require(lo < got / want < hi, "%s coefficient %.6g of a wing of aspect ratio %.3g at %g degrees, theory %.6g"
                        % (name, got, AR, k * c["aoa"], want))
    sut.close(b.CL, 2 * a.CL, "lift at twice the incidence", 0.01)
    sut.close(b.CD, 4 * a.CD, "drag at twice the incidence", 0.02)
    sut.close(m.CL, -a.CL, "lift at the opposite incidence", 1e-8, floor=t)
    sut.close(m.CD, a.CD, "drag at the opposite incidence", 1e-8, floor=t)
    ctx.label("aspect ratio %d+" % (int(AR) // 5 * 5))


@st.composite
def wings(draw, ns=(1, 8), nc=(1, 4), aoa=None, AR=(0.5, 20.0)):
    chord = draw(num(0.1, 5.0, 0.05))
    ratio = draw(num(AR[0], AR[1], 0.1))
    return dict(chord=chord, half_span=round(chord * ratio / 2, 6), aoa=draw(num(-20, 20, 0.5) if aoa is None else aoa),
                ns=draw(st.integers(*ns)), nc=draw(st.integers(*nc)), U=draw(num(0.5, 40, 0.5)), rho=draw(num(0.2, 2.0, 0.005)),
                orientation=draw(st.sampled_from([1.0, -1.0])))


@st.composite
def any_wings(draw):
    """One in six: long, stubby, steep, tiny or huge ones, in thick or thin air, with vortices of another unit."""
    c = draw(wings())
    if draw(st.sampled_from([False] * 5 + [True])):
        ratio = draw(st.one_of(num(20, 200, 1), num(0.1, 0.5, 0.02), num(0.5, 20, 0.1)))
        c["chord"] = draw(st.sampled_from([0.3, 1.0, 12.0]))
        c["half_span"] = round(c["chord"] * ratio / 2, 6)
        c["aoa"] = draw(num(-75, 75, 0.5))
        c["U"], c["rho"] = draw(st.sampled_from([0.05, 1.0, 7.0, 120.0])), draw(st.sampled_from([0.02, 1.0, 1.225, 1025.0]))
        c["orientation"] = draw(st.sampled_from([1.0, -1.0, 2.0, -0.5]))
    return c


def fine_streams():
    base = dict(chord=1.2, half_span=4.0, aoa=5.0, U=6.0, rho=1.1, orientation=1.0, drift=0.0, climb=0.0)
    return [dict(base, ns=ns, nc=nc, **x) for ns, nc in ((22, 3), (9, 8), (70, 1), (40, 4), (1, 12))
            for x in (dict(drift=12.0), dict(climb=-9.0, drift=-4.0), dict())]


def corners():
    out = []
    for ns, nc in ((1, 1), (4, 1), (1, 3), (6, 3)):
        for aoa in (4.0, -7.0, 0.0):
            out.append(dict(chord=1.0, half_span=5.0, aoa=aoa, ns=ns, nc=nc, U=1.0, rho=1.225, orientation=1.0))
    return out


SUBS = [
    Sub("model", run_model, any_wings, quick=1200, thorough=12000, corners=corners, nontrivial=lambda c: c["aoa"],
        about="wings of any size and incidence against the independent model, both orientations"),
    Sub("stream", run_stream, streams, quick=600, thorough=6000, corners=fine_streams, nontrivial=lambda c: c["drift"] or c["climb"],
        about="streams at an angle to the x axis: forces, pressures and force coefficients"),
    Sub("sail", run_sail, lambda: wings(ns=(1, 5)), quick=600, thorough=6000, corners=corners, nontrivial=lambda c: c["aoa"],
        about="the wing against an upright rectangular sail and its image"),
    Sub("theory", run_theory, lambda: wings(ns=(6, 16), nc=(1, 3), aoa=num(0.1, 1.0, 0.05), AR=(3.0, 30.0)), quick=500, thorough=4000,
        about="small incidences: lifting-line bands, linear lift and quadratic drag"),
]
