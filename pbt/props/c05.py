"""C05: NACA camber sections and their refusals."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import ref, sut
from pbt.core import Sub, Violation
from pbt.gen import num

PROPERTY = "C05"
RULE = "a case counts when the camber or the thickness is not zero, or when it asks for a refusal"
ASSUMPTIONS = ("a camber position of exactly zero is accepted by the code for the hull outline and not judged here",)

camber = st.one_of(num(0, 0.3, 0.001), st.sampled_from([0.0, 0.3, 0.05]))
place = st.one_of(num(0.001, 0.9, 0.001), st.sampled_from([0.9, 0.5, 0.1]))
thick = st.one_of(num(0, 0.4, 0.001), st.sampled_from([0.0, 0.4, 0.12]))


@st.composite
def foils(draw):
    return dict(m=draw(camber), p=draw(place), t=draw(thick), n=draw(st.one_of(st.integers(2, 12), st.integers(2, 220))))


@st.composite
def wrong(draw):
    c = draw(foils())
    which = draw(st.sampled_from(["m", "p", "t"]))
    top = {"m": 0.3, "p": 0.9, "t": 0.4}[which]
    c[which] = draw(st.sampled_from([top + 1e-9, top + 0.001, top * 1.5, top * 10, 30.0, -1e-9, -0.001, -0.05, -5.0, "nan"]))
    c["which"] = which
    return c


@st.composite
def meshes(draw):
    ns, nc = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    tack = [draw(num(-8, 8, 0.1)), draw(num(-2, 2, 0.1)), draw(num(-20, 20, 0.1))]
    head = [draw(num(-8, 8, 0.1)), tack[1], draw(num(-20, 20, 0.1))]
    row = lambda s: [draw(s) for _ in range(ns + 1)]
    return dict(ns=ns, nc=nc, tack=tack, head=head, chords=row(num(0.2, 6, 0.01)), camber=row(camber), cpos=row(place))


def foil(case):
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    v = {k: (math.nan if case[k] == "nan" else case[k]) for k in "mpt"}
    return VlmAirfoil(v["m"], v["p"], v["t"], case["n"])


def run_foil(case, ctx):
    f = foil(case)
    n, m, p, t = case["n"], case["m"], case["p"], case["t"]
    x = np.arange(n) / (n - 1.0)
    sut.close(f.xc, x, "stations along the chord", 1e-14, 1.0)
    yc = ref.camber_line(x, m, p)
    sut.close(f.yc, yc, "mean line", 1e-13, 1.0)
    got = np.asarray(f.yc, float)
    sut.close(got[[0, -1]], [0.0, 0.0], "ends of the mean line", 1e-13, 1.0)
    if got.max() > m + 1e-13:
        raise Violation("the mean line reaches %r, more than the camber %r" % (float(got.max()), m))
    last = np.where(1.0 - x < 1e-4, -0.1036, -0.1015)
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 + last * x ** 4)
    sut.close(f.yt, yt, "half thickness", 1e-13, 1.0)
    slope = 2 * m * (p - x) / np.where(x < p, p ** 2, (1 - p) ** 2)
    c, s = 1 / np.sqrt(1 + slope ** 2), slope / np.sqrt(1 + slope ** 2)
    for name, want in (("xu", x - yt * s), ("yu", yc + yt * c), ("xl", x + yt * s), ("yl", yc - yt * c)):
        sut.close(getattr(f, name), want, {"xu": "upper surface x", "yu": "upper surface y", "xl": "lower surface x",
                                           "yl": "lower surface y"}[name], 1e-13, 1.0)
    mid = 0.5 * (np.array([f.xu, f.yu]) + np.array([f.xl, f.yl]))
    sut.close(mid, np.array([x, yc]), "midpoint of the surfaces", 1e-13, 1.0)


def run_peak(case, ctx):
    """A station exactly at the camber position carries the camber."""
    k, n = case["k"], case["n"]
    f = foil(dict(m=case["m"], p=k / (n - 1.0), t=0.0, n=n))
    y = np.asarray(f.yc, float)
    sut.close(y[k], case["m"], "mean line at the camber position", 1e-12, 1.0)
    if case["m"] > 0 and np.argmax(y) != k and y.max() - y[k] > 1e-14:
        raise Violation("the mean line is highest at station %d, not at the camber position %d" % (int(np.argmax(y)), k))


@st.composite
def peaks(draw):
    n = draw(st.integers(3, 120))
    return dict(n=n, k=draw(st.integers(1, max(1, int(0.9 * (n - 1))))), m=draw(camber))


def run_wrong(case, ctx):
    sut.refused(lambda: foil(case), "a section with %s=%r" % (case["which"], case[case["which"]]))
    ctx.label("refused %s" % case["which"])


def run_mesh(case, ctx):
    from pySailingVLM.solver.mesher import make_airfoil_mesh
    ns, nc = case["ns"], case["nc"]
    tack, head = np.array(case["tack"]), np.array(case["head"])
    chords = np.array(case["chords"])
    vec = np.stack([chords, 0 * chords, 0 * chords], axis=1)
    got = make_airfoil_mesh([tack, head], [nc, ns], vec, np.array(case["cpos"]), np.array(case["camber"]))
    want = np.empty((ns + 1, nc + 1, 3))
    x = np.arange(nc + 1) / nc
    for j in range(ns + 1):
        le = tack + (head - tack) * j / ns
        want[j, :, 0] = le[0] + chords[j] * x
        want[j, :, 1] = chords[j] * ref.camber_line(x, case["camber"][j], case["cpos"][j])
        want[j, :, 2] = le[2]
    sut.close(got, want, "mesh of cambered sections", 1e-12, 30.0)


def run_bad_mesh(case, ctx):
    """A single section out of range anywhere along the sail refuses the whole mesh."""
    from pySailingVLM.solver.mesher import make_airfoil_mesh
    c = dict(case)
    chords = np.array(c["chords"])
    vec = np.stack([chords, 0 * chords, 0 * chords], axis=1)
    row = list(c[c["key"]])
    row[c["at"] % len(row)] = c["bad"]
    c[c["key"]] = row
    sut.refused(lambda: make_airfoil_mesh([np.array(c["tack"]), np.array(c["head"])], [c["nc"], c["ns"]], vec,
                                          np.array(c["cpos"]), np.array(c["camber"])), "a sail with a bad section")


@st.composite
def bad_meshes(draw):
    c = draw(meshes())
    c["key"] = draw(st.sampled_from(["camber", "cpos"]))
    c["at"] = draw(st.integers(0, 8))
    c["bad"] = draw(st.sampled_from([-0.01, 0.31, -3.0, 5.0] if c["key"] == "camber" else [-0.01, 0.91, -2.0, 5.0]))
    return c


SUBS = [
    Sub("foil", run_foil, foils, quick=12000, thorough=60000, nontrivial=lambda c: c["m"] > 0 or c["t"] > 0,
        about="mean line, thickness and surfaces of generated sections"),
    Sub("peak", run_peak, peaks, quick=4000, thorough=20000, nontrivial=lambda c: c["m"] > 0,
        about="depth exactly at the camber position"),
    Sub("refusal", run_wrong, wrong, quick=2400, thorough=8000, about="parameters out of range"),
    Sub("mesh", run_mesh, meshes, quick=6000, thorough=30000, nontrivial=lambda c: any(c["camber"]),
        about="section shapes of a generated sail mesh"),
    Sub("bad mesh", run_bad_mesh, bad_meshes, quick=1200, thorough=4000, about="a bad section anywhere in a sail"),
]
