"""C01: the vortex kernels against the Biot-Savart law."""
import atexit
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import env, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num

PROPERTY = "C01"
RULE = ("a case counts when the induced velocity the law gives is not zero at the point "
        "(or, for the core sub-check, when the point is on the core)")
ASSUMPTIONS = ("vortex core as documented: |r1| or |r2| below 1e-8, or |r1 x r2|^2 below 1e-8; "
               "points within 20 % of that threshold are not judged",
               "a semi-infinite vortex is not evaluated on its own axis downstream of its origin")
EPS = 2.3e-16
_server = [None, None]


# ---------------------------------------------------------------- the interpreted twin
def interpreted(fn, *args):
    if _server[1] != os.getpid():
        e = dict(os.environ, NUMBA_DISABLE_JIT="1")
        _server[0] = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(env.VERIF, "pbt", "interp_server.py"), env.REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, text=True)
        _server[1] = os.getpid()
        atexit.register(_server[0].kill)
    p = _server[0]
    coded = [{"v": a.tolist(), "d": str(a.dtype)} if isinstance(a, np.ndarray) else a for a in args]
    p.stdin.write(json.dumps({"fn": fn, "args": coded}) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise Violation("the interpreted kernels ended the process in %s" % fn)
    answer = json.loads(line)
    if "error" in answer:
        raise Violation("%s raised %s when interpreted" % (fn, answer["error"]))
    parts = [np.asarray(x, float) for x in answer["ok"]]
    return parts if len(parts) > 1 else parts[0]


def compiled(fn, *args):
    from pySailingVLM.solver import coefs, velocity
    return getattr(coefs if fn == "calc_velocity_coefs" else velocity, fn)(*args)


# ---------------------------------------------------------------- expected values
def arr(x):
    return np.ascontiguousarray(np.array(x, dtype=np.float64))


def segment(p, a, b):
    """(velocity, on_core, error bound) of a unit segment."""
    r1, r2 = p - a, p - b
    n1, n2 = np.linalg.norm(r1), np.linalg.norm(r2)
    cc = float(np.cross(r1, r2) @ np.cross(r1, r2))
    for v in (n1, n2, cc):
        if 0.8e-8 < v < 1.25e-8:
            raise Skip("on the edge of the vortex core")
    if n1 < 1e-8 or n2 < 1e-8 or cc < 1e-8:
        # rounding of the coordinates must not decide either
        if cc > 1e-12 and n1 > 1e-8 and n2 > 1e-8 and cc > 0.5e-8:
            raise Skip("on the edge of the vortex core")
        return np.zeros(3), True, 0.0
    v = ref.segment(p[None], a[None], b[None])[0, 0]
    big = max(np.abs(p).max(), np.abs(a).max(), np.abs(b).max())
    s = abs(float((b - a) @ (r1 / n1 - r2 / n2))) / np.linalg.norm(b - a)
    cond = (n1 * n2 + big * (n1 + n2)) / np.sqrt(cc) + 4.0 / max(s, 1e-300) + big / min(n1, n2)
    return v, False, np.linalg.norm(v) * 60 * EPS * cond


def half_line(p, a, u):
    r = p - a
    n = np.linalg.norm(r)
    uu = u / np.linalg.norm(u)
    t = float(r @ uu)
    d2 = float(np.cross(uu, r) @ np.cross(uu, r))
    if n < 1e-6 or (t > 0 and d2 < 1e-8 * n * n):
        raise Skip("on the axis of a semi-infinite vortex")
    v = ref.half_line(p[None], a[None], u[None])[0, 0]
    big = max(np.abs(p).max(), np.abs(a).max())
    cond = (n * n / d2 if t > 0 else 1.0) + (big + n) / max(np.sqrt(d2), 1e-300)
    return v, np.linalg.norm(v) * 60 * EPS * cond + (60 * EPS * big / n ** 2)


def total(parts, gamma):
    v = sum(sign * x[0] for sign, x in parts)
    tol = sum(x[-1] for _, x in parts) + 1e-14 * sum(np.linalg.norm(x[0]) for _, x in parts)
    return gamma * v, abs(gamma) * tol


def expected(case):
    p, g = arr(case["p"]), case["gamma"]
    q = [arr(x) for x in case["q"]]
    u = arr(case["u"]) if "u" in case else None
    fn = case["fn"]
    if fn == "vortex_line":
        return total([(1, segment(p, q[0], q[1]))], g)
    if fn == "vortex_infinite_line":
        return total([(1, half_line(p, q[0], u))], g)
    if fn == "vortex_ring":
        return total([(1, segment(p, q[k], q[(k + 1) % 4])) for k in range(4)], g)
    if fn == "vortex_horseshoe":                       # B, C: legs to infinity from both
        return total([(1, segment(p, q[0], q[1])), (1, half_line(p, q[1], u)), (-1, half_line(p, q[0], u))], g)
    return total([(1, segment(p, q[0], q[1])), (1, segment(p, q[1], q[2])), (1, segment(p, q[2], q[3])),
                  (1, half_line(p, q[3], u)), (-1, half_line(p, q[0], u))], g)


def arguments(case):
    a = [arr(case["p"])] + [arr(x) for x in case["q"]]
    if "u" in case:
        a.append(arr(case["u"]))
    return a + [float(case["gamma"])]


def judge(got, want, tol, what):
    got = np.asarray(got, float)
    if got.shape != (3,):
        raise Violation("%s: shape %s" % (what, got.shape))
    d = np.abs(got - want)
    if not (d <= tol).all():
        raise Violation("%s: %s, the law gives %s (allowed %.3g)" % (what, got.tolist(), want.tolist(), tol))


def quadrature(p, a, b):
    x, w = np.polynomial.legendre.leggauss(120)
    t = 0.5 * (x + 1)
    r = p - (a + np.outer(t, b - a))
    n = np.linalg.norm(r, axis=1)
    return (np.cross(b - a, r) * (0.5 * w / n ** 3)[:, None]).sum(axis=0) / (4 * np.pi)


def run_kernel(case, ctx):
    want, tol = expected(case)
    args = arguments(case)
    tol += 1e-300
    judge(compiled(case["fn"], *args), want, tol, case["fn"] + " (compiled)")
    judge(interpreted(case["fn"], *args), want, tol, case["fn"] + " (interpreted)")
    ctx.label(case["fn"])
    if case["fn"] == "vortex_line":
        p, a, b = args[0], args[1], args[2]
        L = np.linalg.norm(b - a)
        t = np.clip((p - a) @ (b - a) / L ** 2, 0, 1) if L else 0.0
        d = np.linalg.norm(p - a - t * (b - a))
        if L and d > 0.15 * L and not segment(p, a, b)[1]:
            q = case["gamma"] * quadrature(p, a, b)
            judge(compiled("vortex_line", *args), q, 1e-8 * np.linalg.norm(q) + tol, "vortex_line against quadrature")
            ctx.label("quadrature")


def run_core(case, ctx):
    p, a, b = arr(case["p"]), arr(case["q"][0]), arr(case["q"][1])
    _, on, _ = segment(p, a, b)
    if not on:
        raise Skip("not on the core")
    for run in (compiled, interpreted):
        got = np.asarray(run("vortex_line", p, a, b, case["gamma"]), float)
        if not (got == 0).all():
            raise Violation("vortex_line on its core (%s): %s instead of zero" % (run.__name__, got.tolist()))


def run_matrix(case, ctx):
    P, R, N, V = arr(case["P"]), arr(case["R"]), arr(case["N"]), arr(case["V"])
    te = np.array(case["te"], dtype=bool)
    o = float(case["o"])
    n = len(P)
    want, tol = np.zeros((n, n, 3)), np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            one = dict(p=case["P"][i], q=case["R"][j], gamma=o, fn="vortex_ring")
            if te[j]:
                one.update(fn="vortex_horseshoe_v2", u=case["V"][j])
            want[i, j], tol[i, j] = expected(one)
    for run in (compiled, interpreted):
        got = run("calc_velocity_coefs", V, P, R, N, te, o)
        c, v = (np.asarray(x, float) for x in got)
        if c.shape != (n, n) or v.shape != (n, n, 3):
            raise Violation("influence matrices of shapes %s and %s for %d panels" % (c.shape, v.shape, n))
        if not (np.abs(v - want) <= tol[..., None] + 1e-300).all():
            k = np.unravel_index(int(np.argmax(np.abs(v - want).max(axis=2) - tol)), (n, n))
            raise Violation("induced velocity coefficient %s (%s): %s, the law gives %s"
                            % (tuple(map(int, k)), run.__name__, v[k].tolist(), want[k].tolist()))
        normal = np.einsum("ijk,ik->ij", want, N)
        lim = tol * np.linalg.norm(N, axis=1)[:, None] * 2 + 1e-14 * np.linalg.norm(want, axis=2)
        if not (np.abs(c - normal) <= lim + 1e-300).all():
            k = np.unravel_index(int(np.argmax(np.abs(c - normal) - lim)), (n, n))
            raise Violation("influence coefficient %s (%s): %r instead of %r"
                            % (tuple(map(int, k)), run.__name__, float(c[k]), float(normal[k])))


# ---------------------------------------------------------------- generators
coord = st.one_of(num(-15, 15, 0.001), num(-3, 3, 0.05), st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5]))
point = st.tuples(coord, coord, coord).map(list)
gammas = st.one_of(st.sampled_from([1.0, -1.0, 1.0, 2.5, 0.0]), num(-40, 40, 0.01))
direction = st.one_of(
    st.tuples(num(-15, 15, 0.01), num(-15, 15, 0.01), st.just(0.0)).map(list),
    st.tuples(num(-15, 15, 0.01), num(-15, 15, 0.01), num(-15, 15, 0.01)).map(list),
    st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [1e-3, 2e-3, 0.0]]),
).filter(lambda u: sum(x * x for x in u) > 1e-7)


@st.composite
def near(draw, q):
    """A field point related to the vortex: generic, far, beside a segment or at its extension."""
    how = draw(st.sampled_from(["generic", "generic", "beside", "beside", "end", "far", "extension", "corner", "middle"]))
    if how == "generic" or len(q) < 2:
        return draw(point)
    k = draw(st.integers(0, len(q) - 1))
    a, b = np.array(q[k]), np.array(q[(k + 1) % len(q)])
    L = float(np.linalg.norm(b - a))
    if how == "far":
        return [float(x) * 10 ** draw(st.integers(1, 2)) for x in draw(point)]
    if how == "corner":
        return a.tolist()
    if how == "middle":
        return np.mean(np.array(q), axis=0).tolist()
    if L == 0:
        return draw(point)
    off = np.cross(b - a, np.array(draw(point)))
    if np.linalg.norm(off) == 0:
        off = np.zeros(3)
    else:
        off = off / np.linalg.norm(off) * draw(st.sampled_from([1e-4, 3e-4, 1e-3, 1e-2, 0.1, 0.5, 2.0])) / min(L, 1.0)
    t = draw(num(0, 1, 0.01))
    if how == "end":
        t = draw(st.sampled_from([0.0, 1.0]))
    if how == "extension":
        t = draw(st.sampled_from([-3.0, -0.5, -0.01, 1.01, 1.7, 5.0]))
        off = off * draw(st.sampled_from([0.0, 1.0, 1.0]))
    return [float(x) for x in a + t * (b - a) + off]


@st.composite
def quad(draw):
    kind = draw(st.sampled_from(["free", "panel", "panel", "flat"]))
    if kind == "free":
        return [draw(point) for _ in range(4)]
    c = np.array(draw(point))
    e = np.array([draw(num(-2, 2, 0.01)), draw(num(-2, 2, 0.01)), draw(num(-1, 1, 0.01))])
    s = np.array([draw(num(-1, 1, 0.01)), draw(num(-1, 1, 0.01)), draw(num(0.05, 3, 0.01))])
    warp = np.zeros(3) if kind == "flat" else np.array([draw(num(-0.5, 0.5, 0.01)) for _ in range(3)])
    return [x.tolist() for x in (c + e, c, c + s, c + e + s + warp)]


@st.composite
def kernels(draw):
    fn = draw(st.sampled_from(["vortex_line", "vortex_line", "vortex_infinite_line", "vortex_ring",
                               "vortex_horseshoe", "vortex_horseshoe_v2", "vortex_horseshoe_v2"]))
    count = {"vortex_line": 2, "vortex_infinite_line": 1, "vortex_horseshoe": 2}.get(fn, 4)
    q = draw(quad()) if count == 4 else [draw(point) for _ in range(count)]
    if count == 2 and draw(st.booleans()):
        q = [list(q[0]), [round(x + draw(num(-1.5, 1.5, 0.001)), 6) for x in q[0]]]
    case = dict(fn=fn, q=q, gamma=draw(gammas), p=draw(near(q)))
    if fn in ("vortex_infinite_line", "vortex_horseshoe", "vortex_horseshoe_v2"):
        case["u"] = draw(direction)
        if draw(st.integers(0, 5)) == 0:           # beside, or straight ahead of, a leg
            u = np.array(case["u"]) / np.linalg.norm(case["u"])
            t = draw(st.sampled_from([-5.0, -1.0, 0.3, 2.0, 30.0]))
            off = np.cross(u, np.array([0.3, -0.5, 0.81])) * draw(st.sampled_from([0.0, 0.01, 0.1, 1.0]))
            case["p"] = [float(x) for x in np.array(q[-1]) + t * u + off]
    return case


def off_core(case):
    try:
        want, _ = expected(case)
    except Skip:
        return False
    return bool(np.abs(want).max() > 0)


@st.composite
def cores(draw):
    a, b = draw(point), draw(point)
    how = draw(st.sampled_from(["start", "end", "on", "beyond", "skin", "point"]))
    A, B = np.array(a), np.array(b)
    if how == "start":
        p = a
    elif how == "end":
        p = b
    elif how == "point":
        b, p = list(a), draw(point)
    else:
        t = draw(num(0, 1, 0.01)) if how != "beyond" else draw(num(-4, 5, 0.01))
        p = A + t * (B - A)
        if how == "skin":
            L = max(np.linalg.norm(B - A), 1e-3)
            off = np.cross(B - A, np.array([0.37, -0.2, 0.9]))
            if np.linalg.norm(off) > 0:
                p = p + off / np.linalg.norm(off) * draw(st.sampled_from([1e-9, 1e-6, 3e-5, 6e-5])) / L
        p = [float(x) for x in p]
    return dict(fn="vortex_line", p=p, q=[a, b], gamma=draw(gammas))


@st.composite
def matrices(draw):
    n = draw(st.integers(1, 5))
    R = [draw(quad()) for _ in range(n)]
    P = [draw(near(draw(st.sampled_from(R)))) for _ in range(n)]
    N = [draw(point) for _ in range(n)]
    V = [draw(direction) for _ in range(n)]
    return dict(R=R, P=P, N=N, V=V, te=[draw(st.booleans()) for _ in range(n)],
                o=draw(st.sampled_from([1.0, 1.0, -1.0, -1.0, 0.5, 2.0, 0.0])))


def warm():
    from pySailingVLM.solver import coefs                                 # noqa: F401
    one = np.zeros(3) + 1.0
    compiled("vortex_line", one, 2 * one, arr([1, 2, 3]), 1.0)


SUBS = [
    Sub("kernel", run_kernel, kernels, quick=18000, thorough=250000, nontrivial=off_core,
        about="each kernel at generated points, compiled and interpreted, against an independent closed form "
              "of the Biot-Savart law and, for segments, against 120-point quadrature"),
    Sub("core", run_core, cores, quick=2250, thorough=20000, about="points on the vortex core of a segment"),
    Sub("matrix", run_matrix, matrices, quick=900, thorough=12000,
        about="influence matrices for generated rings, trailing flags, winds and orientations"),
]
