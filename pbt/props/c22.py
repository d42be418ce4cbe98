"""C22: plots show the computed values at the computed places."""
import base64
import contextlib
import gzip
import json
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num
from pbt.props.c12 import tops

PROPERTY = "C22"
RULE = "a case counts when the values shown are not all equal"
ASSUMPTIONS = ("LaTeX is not installed here: the style of the section plots is replaced by the default one",
               "colours are judged to one step of the 256-step colour map",
               "the legend of a plot of one sail drawn without its name is not judged here (the command line names it, see C19)")


def warm():
    sut.warm()
    from pySailingVLM.solver import panels_plotter
    c = gen.default_config(ns=1, nc=1)
    folder = tempfile.mkdtemp(dir=env.scratch())
    panels_plotter.plot_cp(sut.build(c)["sail_set"].zero_mesh, np.arange(4.0), folder)
    shutil.rmtree(folder, ignore_errors=True)


# ---------------------------------------------------------------- recording what is drawn
@contextlib.contextmanager
def quiet_style():
    """No LaTeX here."""
    import matplotlib.pyplot as plt
    use = plt.style.use
    plt.style.use = lambda *a, **k: None
    try:
        yield
    finally:
        plt.style.use = use
        plt.close("all")


@contextlib.contextmanager
def recorded_figures(really):
    """Every Figure.savefig: the place and the series shown."""
    from matplotlib.figure import Figure
    saved = []
    real = Figure.savefig

    def savefig(self, fname, *a, **k):
        saved.append(dict(path=os.path.abspath(os.fspath(fname)), figure=read_figure(self)))
        if really:
            return real(self, fname, *a, **k)
    Figure.savefig = savefig
    try:
        yield saved
    finally:
        Figure.savefig = real


def read_figure(fig):
    axes = fig.axes
    out = dict(axes=len(axes))
    if axes:
        ax = axes[0]
        series = []
        for c in ax.collections:
            series.append(dict(points=np.ma.filled(np.asarray(c.get_offsets(), float), np.nan).tolist(), label=str(c.get_label()),
                               color=np.atleast_2d(c.get_facecolor()).tolist()))
        for line in ax.lines:
            series.append(dict(points=np.asarray(line.get_xydata(), float).tolist(), label=str(line.get_label()), color=[to_rgba(line.get_color())]))
        legend = ax.get_legend()
        out.update(series=series, xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), legend=[t.get_text() for t in legend.get_texts()] if legend else [],
                   scales=[ax.get_xscale(), ax.get_yscale()], xlim=list(map(float, ax.get_xlim())), ylim=list(map(float, ax.get_ylim())))
    return out


def to_rgba(c):
    import matplotlib.colors
    return list(matplotlib.colors.to_rgba(c))


def png_name(path):
    return path if os.path.splitext(path)[1] == ".png" else path + ".png"


def check_section_figure(record, folder, name, xs, ys, colors, what):
    want = os.path.join(os.path.abspath(folder), {"lift": "section_cl", "drag": "section_cd"}[name] + ".png")
    sut.require(png_name(record["path"]) == want, "%s: saved as %s, expected %s" % (what, png_name(record["path"]), want))
    f = record["figure"]
    sut.require(f["axes"] >= 1, what + ": empty figure")
    sut.require(f["scales"] == ["linear", "linear"], "%s: axes %s" % (what, f["scales"]))
    series = [s for s in f["series"] if s["points"]]
    sut.require(len(series) == len(ys), "%s: %d series for %d sails" % (what, len(series), len(ys)))
    for i, (x, y) in enumerate(zip(xs, ys)):
        p = np.array(series[i]["points"])
        good = p.shape == (len(y), 2)
        sut.require(good, "%s: %d points for %d sections" % (what, len(p), len(y)))
        sut.close(p[:, 0], x, "%s: coefficients shown for sail %d" % (what, i), 1e-12, max(sut.scale_of(x), 1e-300))
        sut.close(p[:, 1], y, "%s: heights shown for sail %d" % (what, i), 1e-12, max(sut.scale_of(y), 1e-300))
        sut.close(np.array(series[i]["color"])[0, :3], to_rgba(colors[i])[:3], "%s: colour of sail %d" % (what, i), 1e-6, 1)
    if len(ys) == 2:
        sut.require([s["label"] for s in series] == ["jib", "main"], "%s: series named %s" % (what, [s["label"] for s in series]))
        sut.require(f["legend"] == ["jib", "main"], "%s: legend %s" % (what, f["legend"]))
    other = {"lift": "d", "drag": "l"}[name]
    label = re.sub(r"[^a-z]", "", f["xlabel"].lower())
    sut.require("c" + {"lift": "l", "drag": "d"}[name] in label and "c" + other not in label, "%s: x axis named %r" % (what, f["xlabel"]))
    sut.require("height" in f["ylabel"].lower(), "%s: y axis named %r" % (what, f["ylabel"]))
    # a point outside the axes is not shown
    for lim, k in ((f["xlim"], 0), (f["ylim"], 1)):
        v = np.concatenate([np.array(s["points"])[:, k] for s in series])
        room = 1e-9 * (abs(lim[0]) + abs(lim[1]))
        sut.require(v.min() >= min(lim) - room and v.max() <= max(lim) + room, "%s: points outside the axes %s" % (what, lim))


# ---------------------------------------------------------------- the pressure map on disk
def _array(o):
    if isinstance(o, list):
        return np.array(o, float)
    a = o["array"]["data"] if isinstance(o["array"], dict) else o["array"]
    if isinstance(a, list):
        return np.array(a, float)
    raw = base64.b64decode(a)
    if raw[:2] == b"\x1f\x8b":
        raw = gzip.decompress(raw)
    return np.frombuffer(raw, dtype=np.dtype(o["dtype"]).newbyteorder("<" if o["order"] == "little" else ">")).reshape(o["shape"]).astype(float)


def _find(o, test):
    if isinstance(o, dict):
        if test(o):
            yield o
        for v in o.values():
            yield from _find(v, test)
    elif isinstance(o, list):
        for v in o:
            yield from _find(v, test)


def read_map(path):
    """Polygons and values of a saved pressure map: (list of (k, 2) rings, values, colour range)."""
    with open(path) as f:
        return read_map_text(f.read())


def read_map_text(text):
    found = re.findall(r'<script type="application/json"[^>]*>(.*?)</script>', text, re.S)
    sut.require(found, "the pressure map holds no plot")
    doc = json.loads(found[0])
    for source in _find(doc, lambda o: o.get("name") == "ColumnDataSource"):
        data = source["attributes"].get("data", {})
        entries = dict(data["entries"]) if data.get("type") == "map" else data
        if "xs" in entries and "ys" in entries:
            rings = []
            for x, y in zip(entries["xs"], entries["ys"]):
                sut.require(len(x) == 1 and len(x[0]) == 1, "a panel of the pressure map has %d parts" % len(x))
                rings.append(np.stack([_array(x[0][0]), _array(y[0][0])], axis=1))
            glyphs = [g["attributes"].get("fill_color") for g in _find(doc, lambda o: o.get("name") in ("MultiPolygons", "Patches"))]
            fields = [g["field"] for g in glyphs if isinstance(g, dict) and g.get("field") in entries]
            sut.require(fields, "the polygons of the pressure map are not coloured by a value")
            values = _array(entries[fields[0]])
            mappers = [m["attributes"] for m in _find(doc, lambda o: o.get("name") == "LinearColorMapper")]
            shown = {k: _array(v) for k, v in entries.items() if k == "p_coeffs"}
            sut.require("p_coeffs" in shown and np.array_equal(shown["p_coeffs"], values), "the pressure map is not coloured by the pressure coefficients it tells")
            return rings, values, mappers
    raise Violation("the pressure map holds no polygons")


def same_ring(ring, corners, room):
    """The closed polygon has these corners, in this cyclic order (either sense)."""
    if len(ring) and np.abs(ring[0] - ring[-1]).max() <= room and len(ring) > len(corners):
        ring = ring[:-1]
    if len(ring) != len(corners):
        return False
    for way in (corners, corners[::-1]):
        for k in range(len(corners)):
            if np.abs(np.roll(way, k, axis=0) - ring).max() <= room:
                return True
    return False


def check_map(path, mesh, p_coeffs, what):
    sut.require(os.path.isfile(path), "%s: no file %s" % (what, path))
    compare_map(read_map(path), mesh, p_coeffs, what)


def compare_map(shown, mesh, p_coeffs, what):
    rings, values, mappers = shown
    mesh, p = np.asarray(mesh, float), np.asarray(p_coeffs, float)
    sut.require(len(rings) == len(mesh) == len(values), "%s: %d polygons and %d values for %d panels" % (what, len(rings), len(values), len(mesh)))
    top, room = max(sut.scale_of(p), 1e-300), 1e-9 * max(1.0, sut.scale_of(mesh))
    unused = list(range(len(rings)))
    for j in range(len(mesh)):
        corners = mesh[j][:, [0, 2]]
        hit = next((k for k in unused if same_ring(rings[k], corners, room) and abs(values[k] - p[j]) <= 1e-9 * top), None)
        if hit is None:
            places = [k for k in range(len(rings)) if same_ring(rings[k], corners, room)]
            raise Violation("%s: panel %d at %s with pressure coefficient %r is shown %s" % (
                what, j, corners.round(6).tolist(), float(p[j]), "with %r" % [float(values[k]) for k in places] if places else "nowhere"))
        unused.remove(hit)
    if float(p.max() - p.min()) > 1e-6 * top:
        ranges = [(m.get("low"), m.get("high")) for m in mappers]
        sut.require(any(lo is not None and hi is not None and lo <= p.min() + 1e-6 * top and hi >= p.max() - 1e-6 * top for lo, hi in ranges),
                    "%s: colour range %s does not hold the values" % (what, ranges))


# ---------------------------------------------------------------- the three-dimensional view
@contextlib.contextmanager
def recorded_arrows(pp):
    """Every Arrow3D that is made, through its constructor."""
    made = []
    real = getattr(pp, "Arrow3D", None)
    if real is None:
        raise Skip("arrows are drawn in another way")

    class Recorded(real):
        def __init__(self, xs, ys, zs, *a, **k):
            super().__init__(xs, ys, zs, *a, **k)
            made.append((np.array([xs, ys, zs], float).T, self))
    pp.Arrow3D = Recorded
    try:
        yield made
    finally:
        pp.Arrow3D = real


def polygons(ax):
    """(corners, face colour) of every polygon of the axes."""
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection
    out = []
    for c in ax.collections:
        if isinstance(c, Poly3DCollection):
            faces = np.ma.filled(np.ma.asarray(c._faces), np.nan) if hasattr(c, "_faces") else np.array([s for s in c._vec])
            colors = np.atleast_2d(c._facecolor3d)
            for k, f in enumerate(faces):
                f = np.asarray(f, float)
                out.append((f[np.isfinite(f).all(axis=1)], colors[k % len(colors)]))
    return out


def take(wanted, offered, room, what):
    """Every wanted row has its own offered row within `room`, and nothing is left."""
    left = list(range(len(offered)))
    for i, w in enumerate(wanted):
        hit = next((k for k in left if np.abs(offered[k] - w).max() <= room), None)
        sut.require(hit is not None, "%s: number %d, %s, is not drawn" % (what, i, np.round(w, 6).tolist()))
        left.remove(hit)
    sut.require(not left, "%s: %d more than expected, first %s" % (what, len(left), np.round(offered[left[0]], 6).tolist() if left else ""))


def check_panels(ax, fig, panels, data, what, top):
    import matplotlib.cm as cm
    drawn = polygons(ax)
    # matplotlib pads polygons of unequal length with rubbish: look at the first corners
    water = [d for d in drawn if np.abs(d[0][:4, 2]).max() == 0.0]
    sails = [d for d in drawn if np.abs(d[0][:4, 2]).max() != 0.0]
    sut.require(len(water) > 0, what + ": no water plane")
    sut.require(len(sails) == len(panels), "%s: %d polygons for %d panels" % (what, len(sails), len(panels)))
    room = 1e-9 * sut.scale_of(panels)
    spread = None if data is None else float(data.max() - data.min())
    judge = data is not None and spread > 1e-9 * top
    left = list(range(len(sails)))
    for j, P in enumerate(panels):
        hit = next((k for k in left if same_ring(sails[k][0], P, room)), None)
        sut.require(hit is not None, "%s: panel %d at %s is not drawn" % (what, j, P.round(4).tolist()))
        left.remove(hit)
        if judge:
            want = np.array(cm.hot((data[j] - data.min()) / spread))
            sut.close(sails[hit][1][:3], want[:3], "%s: colour of panel %d with value %r in %r..%r" % (what, j, float(data[j]), float(data.min()), float(data.max())), 0.0125, 1.0)
    if judge:
        bars = [a for a in fig.axes if a is not ax]
        good = any(np.allclose(sorted(b.get_ylim()), [data.min(), data.max()], rtol=1e-6, atol=1e-6 * top)
                   or np.allclose(sorted(b.get_xlim()), [data.min(), data.max()], rtol=1e-6, atol=1e-6 * top) for b in bars)
        sut.require(good, "%s: no colour bar of the range %r..%r" % (what, float(data.min()), float(data.max())))


def run_view(case, ctx):
    import matplotlib.pyplot as plt
    from pySailingVLM.solver import panels_plotter as pp
    c = case["config"]
    r, b, vlm, res = sut.solved(c)
    t = tops(r, c)
    shows = []
    show = plt.show
    plt.show = lambda *a, **k: shows.append(1)
    try:
        with recorded_arrows(pp) as arrows:
            pp.display_panels_xyz_and_winds(vlm, res, vlm.inlet_conditions, b["hull"], show_plot=case["show"], show_induced_wind=case["induced"],
                                            is_sailopt_mode=case["sailopt"])
            sut.require(bool(shows) == case["show"], "plt.show called %d times, show_plot=%r" % (len(shows), case["show"]))
            numbers = plt.get_fignums()
            sut.require(len(numbers) == 1, "%d figures" % len(numbers))
            fig = plt.figure(numbers[0])
            ax = next(a for a in fig.axes if a.name == "3d")
            key = "pressure" if case["sailopt"] else "p_coeffs"
            what = "3D view"
            check_panels(ax, fig, np.asarray(vlm.panels, float), np.asarray(getattr(vlm, key), float), what + " by " + key, t["p" if case["sailopt"] else "cp"])
            hull(ax, b["hull"], what)
            winds(c, r, arrows, vlm, res, case, what, ctx)
            forces(ax, r, c, arrows, res, b["hull"], what, t, ctx)
            present = set(map(id, ax.get_children()))
            sut.require(all(id(a) in present for _, a in arrows), "%s: an arrow was made but not drawn" % what)
            if case.get("draw"):
                rendered(fig, ax, arrows, what, ctx)
            title = ax.get_title()
            sut.require(("SailOpt" in title) == case["sailopt"] and ("nduced" in title) == case["induced"], "%s: title %r" % (what, title))
    finally:
        plt.show = show
        plt.close("all")
    ctx.label("%s%s%s" % (c["sails"], " induced" if case["induced"] else "", " sailopt" if case["sailopt"] else ""))


def rendered(fig, ax, arrows, what, ctx):
    """Drawing the figure puts every arrow's ends where the view projects them."""
    from mpl_toolkits.mplot3d import proj3d
    fig.set_dpi(25)
    fig.canvas.draw()
    for ends, a in arrows:
        at = getattr(a, "_posA_posB", None)
        if at is None:
            raise Skip("arrows are drawn in another way")
        x, y, _ = proj3d.proj_transform(ends[:, 0], ends[:, 1], ends[:, 2], ax.M)
        sut.close(np.array(at, float), np.array([x, y], float).T, what + ": drawn ends of an arrow", 1e-9, 1 + sut.scale_of(np.array([x, y], float)))
    ctx.label("rendered")


def hull(ax, h, what):
    lines = [np.array(line.get_data_3d(), float).T for line in ax.lines]
    for name in ("deck_centerline", "deck_port_line", "deck_starboard_line", "deck_port_line_underwater", "deck_starboard_line_underwater"):
        want = np.asarray(getattr(h, name), float)
        good = [k for k, got in enumerate(lines) if got.shape == want.shape and np.abs(got - want).max() <= 1e-9 * max(1.0, sut.scale_of(want))]
        sut.require(good, "%s: hull line %s is not drawn" % (what, name))


def color_of(artist):
    return tuple(np.round(artist.get_edgecolor()[:3], 6))


def winds(c, r, arrows, vlm, res, case, what, ctx):
    nc, ns = c["nc"], c["ns"]
    n = nc * ns
    blocks = len(r["V"]) // n
    first = np.concatenate([np.arange(k * n, k * n + ns) for k in range(blocks)])
    cp = np.asarray(vlm.cp, float)[first]
    ic = vlm.inlet_conditions
    black, green, blue = (tuple(np.round(to_rgba(k)[:3], 6)) for k in ("black", "green", "blue"))
    groups = {"true": [], "apparent": [], "induced": [], "force": []}
    for ends, a in arrows:
        groups[{green: "true", blue: "apparent", black: "force"}.get(color_of(a), "induced")].append(ends)
    size = sut.scale_of(cp) + sut.scale_of(r["V"]) + 1
    start = None
    for kind, V in (("true", r["tws"]), ("apparent", r["V"])):
        got = np.array(groups[kind]).reshape(-1, 2, 3)
        sut.require(len(got) == len(first), "%s: %d %s wind arrows for %d sections" % (what, len(got), kind, len(first)))
        rows = np.concatenate([got[:, 0, 2:], got[:, 1] - got[:, 0]], axis=1)
        take(np.concatenate([cp[:, 2:], V[first]], axis=1), rows, 1e-8 * size, "%s: %s wind (height and vector)" % (what, kind))
        start = got[:, 0, :2] if start is None else np.concatenate([start, got[:, 0, :2]])
    sut.close(start, np.tile(start[:1], (len(start), 1)), what + ": start of the wind arrows", 1e-9, size)
    mean = np.deg2rad(np.mean(np.rad2deg(np.arctan2(r["V"][:, 1], r["V"][:, 0]))))
    s = start[0]
    far = np.linalg.norm(s)
    sut.require(far > 0, what + ": wind arrows start at the mast")
    sut.close(s / far, [-np.cos(mean), -np.sin(mean)], what + ": wind arrows start upwind", 1e-8, 1.0)
    if case["induced"]:
        got = np.array(groups["induced"]).reshape(-1, 2, 3)
        rows = np.concatenate([got[:, 0], (got[:, 1] - got[:, 0])[:, :2]], axis=1)
        take(np.concatenate([cp, np.asarray(vlm.V_induced_at_cp, float)[first][:, :2]], axis=1), rows, 1e-8 * (size + sut.scale_of(r["Vi"])), what + ": induced wind (start and vector)")
    else:
        sut.require(not groups["induced"], "%s: induced wind drawn although not asked for" % what)
    sut.require(len(groups["force"]) in (0, 2), "%s: %d force arrows" % (what, len(groups["force"])))


def effort(r, c):
    """Centre of effort in the axes of the yacht, by the documented construction."""
    h = r["half"]
    F, M = r["F_total"], r["M_total"]
    rF = float(np.einsum("ij,ij->", r["arm"][:h], r["force"][:h]))
    return (F * rF + np.cross(F, M)) / float(F @ F) + np.asarray(c["ref"])


def forces(ax, r, c, arrows, res, h, what, t, ctx):
    black = tuple(np.round(to_rgba("black")[:3], 6))
    got = [e for e, a in arrows if color_of(a) == black]
    if np.linalg.norm(r["F_total"]) < 1e-3 * t["F"]:
        ctx.label("no total force to show")
        return
    ce, clr = effort(r, c), r["clr"]
    room = 1e-5 * (1 + sut.scale_of(ce, clr))
    sut.require(len(got) == 2, "%s: %d force arrows" % (what, len(got)))
    u = r["F_total"] / np.linalg.norm(r["F_total"])
    for name, at, d in (("centre of effort", ce, u), ("centre of lateral resistance", clr, -u)):
        hit = [e for e in got if np.abs(e[0] - at).max() <= room and np.dot(e[1] - e[0], d) > 0]
        sut.require(hit, "%s: no force arrow from the %s %s; arrows start at %s" % (what, name, at.round(4).tolist(), [e[0].round(4).tolist() for e in got]))
        v = hit[0][1] - hit[0][0]
        sut.close(v / np.linalg.norm(v), d, "%s: direction of the force at the %s" % (what, name), 1e-6, 1.0)
    a, b = (np.linalg.norm(e[1] - e[0]) for e in got)
    sut.close(a, b, what + ": lengths of the force arrows", 1e-9, max(a, b))
    dots = []
    for k in ax.collections:
        if hasattr(k, "_offsets3d"):
            dots += np.array([np.ma.filled(np.ma.asarray(x, float), np.nan) for x in k._offsets3d]).T.tolist()
    dots = np.array(dots).reshape(-1, 3)
    take(np.array([ce, clr]), dots, room, what + ": dots at the centres")


@st.composite
def views(draw):
    return dict(config=draw(gen.configs(max_ns=5, max_nc=4)), show=draw(st.booleans()), induced=draw(st.booleans()), sailopt=draw(st.booleans()),
                draw=draw(st.integers(0, 9)) == 7)


def view_corners():
    return [dict(config=c, show=True, induced=k % 2 == 1, sailopt=k % 4 == 3, draw=k % 2 == 0) for k, c in enumerate(gen.corner_configs())]


def windy(case):
    c = case["config"]
    return (c["SOG"] > 0 or c["alpha"] > 0) and c["ns"] * c["nc"] > 1


# ---------------------------------------------------------------- the other plots
def run_map(case, ctx):
    from pySailingVLM.solver import panels_plotter as pp
    c = case["config"]
    if case["values"] is None:
        r, b, vlm, res = sut.solved(c, keel=False)
        p = np.asarray(vlm.p_coeffs, float)
    else:
        b = sut.build(c)
        p = np.random.default_rng(case["values"]).uniform(-9, 9, len(b["sail_set"].panels))
    mesh = np.array(b["sail_set"].zero_mesh, float)
    sut.close(mesh, ref.build(c)["zero"], "unrotated panels", 1e-9)
    keep, kept = mesh.copy(), p.copy()
    root = tempfile.mkdtemp(dir=env.scratch())
    try:
        pp.plot_cp(mesh, p, root)
        sut.require(os.listdir(root) == ["cp_plot.html"], "files written by the pressure map: %s" % os.listdir(root))
        check_map(os.path.join(root, "cp_plot.html"), keep, kept, "pressure map")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sut.require((mesh == keep).all() and (p == kept).all(), "drawing the pressure map modified its input")
    ctx.label("map of %s" % c["sails"])


@st.composite
def maps(draw):
    return dict(config=draw(gen.configs(max_ns=5, max_nc=4)), values=draw(st.one_of(st.none(), st.integers(0, 999), st.integers(0, 999))))


COLORS = ["blue", "green", "teal", "purple", "red", "black", "orange"]


@st.composite
def section_plots(draw):
    k = draw(st.integers(1, 2))
    n = draw(st.integers(1, 6))
    col = lambda lo, hi: [[draw(num(lo, hi, 0.001)) for _ in range(n)] for _ in range(k)]
    return dict(x=col(-2, 3), y=col(0, 30), name=draw(st.sampled_from(["lift", "drag"])), colors=[draw(st.sampled_from(COLORS)) for _ in range(2)],
                really=draw(st.integers(0, 9)) == 0, again=draw(st.booleans()), folder=draw(st.sampled_from(["out", "a b", "case.1"])))


def run_sections(case, ctx):
    from pySailingVLM.solver import panels_plotter as pp
    root = tempfile.mkdtemp(dir=env.scratch())
    try:
        folder = os.path.join(root, case["folder"])
        os.makedirs(folder)
        x, y = [np.array(v) for v in case["x"]], np.array(case["y"])
        names = [case["name"], {"lift": "drag", "drag": "lift"}[case["name"]]] if case["again"] else [case["name"]]
        with quiet_style(), recorded_figures(case["really"]) as saved:
            for k, name in enumerate(names):
                pp.plot_section_coeff(x, y, folder, name, case["colors"])
                sut.require(len(saved) == k + 1, "%d figures saved after %d plots" % (len(saved), k + 1))
                check_section_figure(saved[-1], folder, name, case["x"], case["y"], case["colors"], "section plot of the %s" % name)
        if case["really"]:
            want = sorted("section_c%s.png" % n[0] for n in names)
            sut.require(sorted(os.listdir(folder)) == want, "files written: %s" % os.listdir(folder))
            ctx.label("written to disk")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.label("%d sails %s" % (len(case["y"]), case["name"]))


@contextlib.contextmanager
def notebook(root):
    """As inside Jupyter: the interpreter's mark is set, and what is shown is recorded."""
    import builtins
    import bokeh.io
    import matplotlib.pyplot as plt
    shown, here = [], os.getcwd()
    keep = bokeh.io.show, bokeh.io.output_notebook, plt.show
    bokeh.io.show = lambda model, *a, **k: shown.append(("map", model))
    bokeh.io.output_notebook = lambda *a, **k: None
    plt.show = lambda *a, **k: shown.append(("figure", list(plt.get_fignums())))
    builtins.__IPYTHON__ = True
    os.chdir(root)
    try:
        yield shown
    finally:
        os.chdir(here)
        del builtins.__IPYTHON__
        bokeh.io.show, bokeh.io.output_notebook, plt.show = keep


def run_notebook(case, ctx):
    """The same plots shown in a notebook."""
    from bokeh.embed import file_html
    from bokeh.resources import CDN
    from pySailingVLM.solver import panels_plotter as pp
    c = case["config"]
    mesh = np.array(sut.build(c)["sail_set"].zero_mesh, float)
    p = np.random.default_rng(case["values"]).uniform(-9, 9, len(mesh))
    s = case["sections"]
    root = tempfile.mkdtemp(dir=env.scratch())
    try:
        with quiet_style(), recorded_figures(False) as saved, notebook(root) as shown:
            if case["map"]:
                pp.plot_cp(mesh, p, root)
                maps_shown = [m for kind, m in shown if kind == "map"]
                sut.require(len(maps_shown) == 1, "%d pressure maps shown in the notebook" % len(maps_shown))
                compare_map(read_map_text(file_html(maps_shown[0], CDN, "map")), mesh, p, "pressure map in a notebook")
                ctx.label("map in a notebook")
            else:
                pp.plot_section_coeff([np.array(v) for v in s["x"]], np.array(s["y"]), root, s["name"], s["colors"])
                sut.require(len(saved) == 1, "%d figures saved in the notebook" % len(saved))
                check_section_figure(saved[0], root, s["name"], s["x"], s["y"], s["colors"], "section plot in a notebook")
                sut.require([k for k, _ in shown] == ["figure"], "the section plot was shown %d times in the notebook" % len(shown))
                ctx.label("sections in a notebook")
    finally:
        shutil.rmtree(root, ignore_errors=True)


@st.composite
def notebooks(draw):
    return dict(config=draw(gen.configs(max_ns=4, max_nc=3)), values=draw(st.integers(0, 999)), map=draw(st.booleans()), sections=draw(section_plots()))


# ---------------------------------------------------------------- plain drawings of shapes
def run_shapes(case, ctx):
    """Mesh lines and camber lines as they are drawn."""
    import matplotlib.pyplot as plt
    from pySailingVLM.solver.additional_functions import plot_mesh
    from pySailingVLM.thin_airfoil.vlm_airfoil import VlmAirfoil
    meshes = [np.array(m, float) for m in case["meshes"]]
    dims = case["dims"]
    shows = []
    show = plt.show
    plt.show = lambda *a, **k: shows.append(1)
    try:
        plot_mesh(meshes[0].copy(), meshes[1].copy() if case["second"] else None, case["show"], dims, "green", "red", "a title")
        ax = plt.gcf().axes[-1]
        lines = [(np.array(k.get_data_3d() if len(dims) == 3 else k.get_data(), float).T, to_rgba(k.get_color())) for k in ax.lines]
        want = [(row[:, dims] if len(dims) == 2 else row, to_rgba(col)) for m, col in zip(meshes, ("green", "red")) if case["second"] or m is meshes[0] for row in m]
        sut.require(len(lines) == len(want), "drawing of a mesh: %d lines for %d rows" % (len(lines), len(want)))
        left = list(range(len(lines)))
        for pts, col in want:
            hit = next((k for k in left if lines[k][0].shape == pts.shape and np.abs(lines[k][0] - pts).max() <= 1e-12 * max(1, sut.scale_of(pts)) and lines[k][1] == col), None)
            sut.require(hit is not None, "drawing of a mesh: the row %s is not drawn" % pts.tolist())
            left.remove(hit)
        names = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if len(dims) == 3 else [])
        sut.require(names == ["XYZ"[k] for k in dims], "drawing of a mesh: axes named %s for %s" % (names, dims))
        sut.require(len(shows) == int(case["show"]), "drawing of a mesh: shown %d times" % len(shows))
        plt.close("all")
        x = np.linspace(0, 1, case["n"])
        VlmAirfoil(case["m"], case["p"], case["t"], case["n"]).plot(case["show"])
        line = plt.gcf().axes[0].lines
        sut.require(len(line) == 1, "drawing of a section: %d lines" % len(line))
        got = np.array(line[0].get_data(), float).T
        sut.close(got, np.stack([x, ref.camber_line(x, case["m"], case["p"])], axis=1), "drawing of a section", 1e-12, 1.0)
        sut.require(len(shows) == 2 * int(case["show"]), "drawing of a section: shown %d times" % (len(shows) - int(case["show"])))
    finally:
        plt.show = show
        plt.close("all")
    ctx.label("mesh drawn in %d dimensions" % len(dims))


@st.composite
def shapes(draw):
    r = draw(st.integers(1, 3))                                       # both meshes have the same rows

    def mesh():
        k = draw(st.integers(2, 4))
        return [[[draw(num(-9, 9, 0.01)) for _ in range(3)] for _ in range(k)] for _ in range(r)]
    return dict(meshes=[mesh(), mesh()], second=draw(st.booleans()), show=draw(st.booleans()), dims=draw(st.sampled_from([[0, 1, 2], [0, 1], [1, 2], [2, 0]])),
                n=draw(st.integers(2, 30)), m=draw(num(0, 0.3, 0.001)), p=draw(num(0.05, 0.9, 0.01)), t=draw(num(0, 0.4, 0.01)))


def run_plain(case, ctx):
    """The view of bare panels or rings."""
    import matplotlib.pyplot as plt
    from pySailingVLM.solver import panels_plotter as pp
    c = case["config"]
    g = ref.build(c)
    L = ref.lattice(g["panels"], g["te"], c["nc"], c["ns"])
    things = L["rings"] if case["induced"] else g["panels"]
    try:
        out = pp.display_panels_or_rings(things.copy(), np.arange(float(len(things))), L["lead"].copy(), L["trail"].copy())
        fig = plt.figure(plt.get_fignums()[0])
        ax = next(a for a in fig.axes if a.name == "3d")
        sut.require(out[0] is ax, "the returned axes are not those drawn on")
        check_panels(ax, fig, things, None, "view of bare panels", 1.0)
    finally:
        plt.close("all")
    ctx.label("bare panels")


SUBS = [
    Sub("view", run_view, views, quick=500, thorough=6000, corners=view_corners, nontrivial=windy, about="three-dimensional view of solved yachts, every option, artists compared"),
    Sub("map", run_map, maps, quick=420, thorough=5000, nontrivial=lambda c: c["config"]["ns"] * c["config"]["nc"] > 1, about="saved pressure maps, parsed back"),
    Sub("sections", run_sections, section_plots, quick=600, thorough=6000, about="section plots, series and places recorded"),
    Sub("plain", run_plain, views, quick=70, thorough=1000, about="view of bare panels or rings"),
    Sub("notebook", run_notebook, notebooks, quick=120, thorough=2000, about="pressure maps and section plots as shown inside a notebook"),
    Sub("shapes", run_shapes, shapes, quick=120, thorough=2000, about="drawn mesh lines and camber lines"),
]
