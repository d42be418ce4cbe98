"""C04: interpolation of girth-wise data at evenly spaced sections."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Sub, Violation
from pbt.gen import num

PROPERTY = "C04"
RULE = "a case counts when the data are not all equal"
ASSUMPTIONS = ("spline mode needs at least four stations (its degree is three)",)


@st.composite
def stations(draw, least):
    fine = draw(st.booleans())
    n = draw(st.one_of(st.integers(max(2, least), 9), st.integers(max(2, least), 9), st.integers(10, 24))) - 2
    fine = fine or n > 17
    inner = draw(st.lists(st.integers(1, 199 if fine else 19), min_size=n, max_size=n, unique=True)) if n else []
    # keep stations apart: nearly coincident ones make any spline wild
    inner = sorted(inner)
    step = 200 if fine else 20
    gap = (4 if least == 4 else 1) if fine else 1
    kept, last = [], 0
    for k in inner:
        if k - last >= gap and step - k >= gap:
            kept.append(k)
            last = k
    if len(kept) + 2 < least:
        kept = [step * k // (least - 1) for k in range(1, least - 1)]
    return [0.0] + [k / step for k in kept] + [1.0]


@st.composite
def tables(draw):
    mode = draw(st.sampled_from(["linear", "spline"]))
    least = 4 if mode == "spline" else 2
    girths = [draw(stations(least)), draw(stations(least))]
    rows = draw(st.integers(1, 3))
    value = num(*draw(st.sampled_from([(0.0, 5.0), (-30.0, 40.0), (0.0, 0.3), (-1e4, 1e4)])))
    data = [[[draw(value) for _ in g] for _ in range(rows)] for g in girths]
    kind = draw(st.sampled_from(["free", "free", "free", "cubic", "line"]))
    poly = [draw(num(-5, 5, 0.01)) for _ in range(4)]
    return dict(mode=mode, girths=girths, data=data, n=draw(st.one_of(st.integers(2, 12), st.integers(2, 60), st.integers(2, 60), st.integers(61, 250))),
                kind=kind, poly=poly, arrays=draw(st.booleans()), style=draw(st.sampled_from([None, None, None, "whole", "strided", "reversed", "readonly"])))


def check(mode, x, y, n, got, what):
    want = ref.at_sections(mode, x, y, n)
    got = np.asarray(got, float)
    top = max(sut.scale_of(y), sut.scale_of(want), 1e-9)
    sut.close(got, want, what, 1e-9, top)
    s = np.arange(n) / (n - 1.0)
    for g, v in zip(x, y):
        k = np.flatnonzero(np.abs(s - g) < 1e-12)
        if k.size and abs(got[k[0]] - v) > 1e-9 * top:
            raise Violation("%s: at station %r the value is %r, the data say %r" % (what, g, float(got[k[0]]), v))


def run_table(case, ctx):
    from pySailingVLM.solver.interpolator import Interpolator
    mode, n = case["mode"], case["n"]
    it = Interpolator(mode)
    style = case.get("style")
    kind = (lambda v: sut.styled(np.array(v, float), style)) if style or case["arrays"] else list
    if style == "whole":                                    # values that may come as integers
        case = dict(case, data=[[[float(round(v)) for v in row] for row in d] for d in case["data"]], poly=[float(round(v)) for v in case["poly"]])
    x, y = case["girths"][0], case["data"][0][0]
    if case["kind"] == "cubic" and mode == "spline":
        y = [sum(c * g ** k for k, c in enumerate(case["poly"])) for g in x]
    elif case["kind"] != "free":
        y = [case["poly"][0] + case["poly"][1] * g for g in x]
    gx, gy = kind(x), kind(y)
    got = it.interpolate_girths(gx, gy, n)
    check(mode, x, y, n, got, "%s interpolation" % mode)
    if case["kind"] != "free":
        s = np.arange(n) / (n - 1.0)
        p = case["poly"] if (case["kind"] == "cubic" and mode == "spline") else case["poly"][:2]
        sut.close(got, sum(c * s ** k for k, c in enumerate(p)), "%s interpolation of a polynomial" % mode, 1e-8,
                  max(1.0, max(map(abs, p))))
    if list(map(float, gx)) != x or list(map(float, gy)) != [float(v) for v in y]:
        raise Violation("interpolation changed its input")
    both = it.interpolate_and_mirror_girths(kind(x), kind(y), n)
    want = np.asarray(it.interpolate_girths(kind(x), kind(y), n), float)
    sut.close(both, np.concatenate([want[::-1], want]), "mirrored interpolation", 1e-12,
              max(sut.scale_of(want), 1e-9))
    main, jib = case["data"][0], case["data"][1]
    out = it.interpolate_data_for_sections([kind(d) for d in main], [kind(d) for d in jib],
                                           kind(case["girths"][0]), kind(case["girths"][1]), n)
    sut.require(len(out) == len(main), "%d assembled rows for %d quantities" % (len(out), len(main)))
    for k, row in enumerate(out):
        row = np.asarray(row, float)
        sut.require(row.shape == (4 * n,), "assembled row of %s values for %d sections" % (row.shape, n))
        for name, at, g, d in (("jib", 0, case["girths"][1], jib[k]), ("main", 2 * n, case["girths"][0], main[k])):
            check(mode, g, d, n, row[at + n:at + 2 * n], "assembled %s data" % name)
            check(mode, g, d, n, row[at:at + n][::-1], "assembled mirrored %s data" % name)
    ctx.label(mode)


@st.composite
def partial(draw):
    """Stations that stop short of the tack, the head or both."""
    mode = draw(st.sampled_from(["linear", "spline"]))
    x = draw(stations(4 if mode == "spline" else 2))
    lo, hi = draw(st.integers(0, 8)) / 20.0, draw(st.integers(12, 20)) / 20.0
    return dict(mode=mode, x=[lo + (hi - lo) * g for g in x], poly=[draw(num(-5, 5, 0.01)) for _ in range(4)],
                n=draw(st.one_of(st.integers(2, 40), st.integers(2, 40), st.integers(41, 150))))


def run_partial(case, ctx):
    from pySailingVLM.solver.interpolator import Interpolator
    x, mode, n = np.array(case["x"]), case["mode"], case["n"]
    p = case["poly"] if mode == "spline" else case["poly"][:2]
    f = lambda t: sum(c * t ** k for k, c in enumerate(p))
    got = np.asarray(Interpolator(mode).interpolate_girths(x, f(x), n), float)
    s = np.arange(n) / (n - 1.0)
    inside = (s >= x[0]) & (s <= x[-1]) if mode == "linear" else s == s
    # a polynomial carried beyond the stations magnifies the rounding of its values
    reach = max(x[0], 1 - x[-1]) / (np.diff(x).min())
    top = max(1.0, max(map(abs, p))) * (1 + reach) ** 3
    sut.require(got.shape == s.shape, "%d sections for %d" % (got.size, n))
    sut.close(got[inside], f(s)[inside], "%s interpolation of a polynomial from stations over [%g, %g]" % (mode, x[0], x[-1]), 1e-9, top)
    ctx.label(mode + (" whole" if x[0] == 0 and x[-1] == 1 else " partial"))


def run_sail(case, ctx):
    """The built sails carry the interpolated chord, camber and twist at every section."""
    b = sut.build(case)
    r = ref.build(case)
    half = len(r["zero"]) // 2
    z = np.asarray(b["sail_set"].zero_mesh, float)
    sut.require(z.shape == r["zero"].shape, "zero mesh of shape %s" % (z.shape,))
    n, ns, nc = case["nc"] * case["ns"], case["ns"], case["nc"]
    for k, s in enumerate(r["sails"]):
        block = z[k * n:(k + 1) * n].reshape(nc, ns, 4, 3)
        lead = np.concatenate([block[0, :, 1], block[0, -1:, 2]])
        trail = np.concatenate([block[-1, :, 0], block[-1, -1:, 3]])
        sut.close(trail[:, 0] - lead[:, 0], s["sections"]["chords"], "chords of the %s" % s["name"], 1e-9,
                  max(s["sections"]["chords"]) + 30)
        sut.close(z[k * n:(k + 1) * n], r["zero"][k * n:(k + 1) * n], "sections of the untwisted %s" % s["name"], 1e-10, 30.0)
    sut.close(np.asarray(b["sail_set"].panels)[:half], r["panels"][:half], "sections of the twisted sails", 1e-10, 30.0)
    ctx.label("sail " + case["interp"])


SUBS = [
    Sub("table", run_table, tables, quick=15000, thorough=100000,
        nontrivial=lambda c: c["kind"] != "free" or len(set(c["data"][0][0])) > 1,
        about="generated stations, values, section counts and modes: values, end points, polynomials, assembled variants"),
    Sub("partial", run_partial, partial, quick=2400, thorough=20000, nontrivial=lambda c: c["x"][0] > 0 or c["x"][-1] < 1,
        about="stations that do not reach the tack or the head: polynomials are still reproduced"),
    Sub("sail", run_sail, lambda: gen.configs(max_ns=9, max_nc=4, big=True), quick=1500, thorough=12000, corners=gen.corner_configs,
        about="chord, camber and twist of built sails"),
]
