"""C24: the packaged example notebooks, run from top to bottom with edited parameters."""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile
import traceback

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.gen import num
from pbt.props import c13, c15, c16, c19, c22
from pbt.props.c12 import tops

PROPERTY = "C24"
RULE = "a case counts when at least two parameters were edited and the sails have more than one panel"
ASSUMPTIONS = ("the notebook's display is replaced by stand-ins that record what is shown; the code between is the notebook's own",
               "meshes are made smaller than the packaged ones",
               "parameters are edited in the notebook's text, as a user edits them")
warm = c22.warm
YACHTS = ["sailingvlm_example", "rc44"]
BERTIN = "'Vlm' object has no attribute 'get_Cxyz'", "\nsails_Cxyz = myvlm.get_Cxyz(w, height)"
WINGS = ["bertin-part-1", "bertin-part-2", "falkner-table26", "falkner_comparion"]


def cells(name):
    path = os.path.join(env.REPO, "pySailingVLM", "examples", name + ".ipynb")
    if not os.path.isfile(path):
        raise Skip("no such notebook")
    with open(path, encoding="utf-8") as f:
        book = json.load(f)
    out = []
    for c in book["cells"]:
        if c["cell_type"] == "code":
            text = "".join(c["source"])
            out.append("\n".join(line for line in text.split("\n") if not line.lstrip().startswith("%")))
    return out


def value_end(text, start):
    """The end of the expression that starts there."""
    depth, quote, k = 0, "", start
    while k < len(text):
        ch = text[k]
        if quote:
            quote = "" if ch == quote else quote
        elif ch in "'\"":
            quote = ch
        elif ch in "([{":
            depth += 1
        elif ch in ")]}" and depth:
            depth -= 1
        elif not depth and ch in "),#\n":
            break
        k += 1
    return k


def edit(texts, edits, ctx):
    """name = value in the text, at the first place that gives it (AoA_deg: wherever it is given)."""
    texts = list(texts)
    for name, value in edits.items():
        found = False
        for k, text in enumerate(texts):
            m = next((m for m in re.finditer(r"(?<![\w.])%s\s*=(?!=)[ \t]*" % re.escape(name), text) if "#" not in text[text.rfind("\n", 0, m.start()) + 1:m.start()]), None)
            if m:
                texts[k] = text[:m.end()] + value + text[value_end(text, m.end()):]
                found = True
                if name != "AoA_deg":
                    break
        if not found:
            ctx.label("not set: " + name)
            raise Skip("the notebook does not set " + name)
    return texts


@contextlib.contextmanager
def execute(texts, root, ctx):
    """The cells one after another in one namespace; what they show is recorded."""
    space = {"__name__": "__main__"}
    with c22.quiet_style(), c22.recorded_figures(False) as saved, c22.notebook(root) as shown, contextlib.redirect_stdout(io.StringIO()):
        for k, text in enumerate(texts):
            try:
                exec(compile(text, "notebook cell", "exec"), space)           # noqa: S102
            except (AttributeError, NameError) as e:
                if str(e) == BERTIN[0] and text.rstrip().endswith(BERTIN[1]):
                    ctx.known("F17-notebook-bertin", "code cell %d fails: %s: %s" % (k + 1, type(e).__name__, e))   # the cell's last statement: the rest can go on
                    continue
                if traceback.extract_tb(e.__traceback__)[-1].filename == "notebook cell":
                    raise Violation("code cell %d fails: %s: %s" % (k + 1, type(e).__name__, e)) from e
                raise
        yield space, saved, shown


# ---------------------------------------------------------------- yachts
def config_of(texts):
    """The parameters of the (edited) first cell, read without the package."""
    kept = {}

    def recorder(name):
        return lambda **k: kept.setdefault(name, k) and type("Kept", (), k)
    space = {n: recorder(n) for n in ("Output", "Rig", "Conditions", "Solver", "MainSail", "JibSail", "Csys", "Keel")}
    text = "\n".join(line for line in texts[0].split("\n") if "pySailingVLM" not in line)
    exec(compile(text, "parameters", "exec"), space)                          # noqa: S102
    vr = dict(solver_args=kept["Solver"], conditions_args=kept["Conditions"], rig_args=kept["Rig"], csys_args=kept["Csys"], keel_args=kept["Keel"])
    for part, key, twist in (("MainSail", "main_sail_args", (5.0, 12.0)), ("JibSail", "jib_sail_args", (7.0, 15.0))):
        a = dict(kept[part])
        if a.get("centerline_twist_deg") is None:
            a["centerline_twist_deg"] = twist[0] + twist[1] * np.asarray(a["girths"])
        vr[key] = a
    return c19.config_of(vr), kept["Output"]


NUMBERS = dict(heel_deg=num(-30, 30, 0.5), leeway_deg=num(-10, 10, 0.5), SOG_yacht=num(0.5, 8, 0.1), tws_ref=num(1, 14, 0.1), alpha_true_wind_deg=num(20, 150, 1),
               reference_water_level_for_wind_profile=num(-2, 0, 0.05), wind_exp_coeff=num(0, 0.4, 0.01), wind_reference_measurment_height=num(3, 30, 0.5),
               rho=num(0.9, 1.4, 0.005), main_sail_luff=num(6, 22, 0.1), jib_luff=num(5, 18, 0.1), foretriangle_height=num(8, 20, 0.1), foretriangle_base=num(2.5, 6, 0.05),
               sheer_above_waterline=num(1, 3, 0.05), boom_above_sheer=num(0.5, 2.5, 0.05), rake_deg=num(88, 100, 0.5), mast_LOA=num(0, 0.5, 0.01))
WORDS = dict(sails_def=["jib", "main", "jib_and_main"], interpolation_type=["spline", "linear"], wind_profile=["exponential", "flat", "logarithmic"])


@st.composite
def yachts(draw):
    edits = {}
    for k in draw(st.lists(st.sampled_from(sorted(NUMBERS) + sorted(WORDS)), min_size=0, max_size=6, unique=True)):
        edits[k] = repr(draw(NUMBERS[k])) if k in NUMBERS else repr(draw(st.sampled_from(WORDS[k])))
    edits["n_spanwise"], edits["n_chordwise"] = str(draw(st.integers(1, 7))), str(draw(st.integers(1, 4)))
    point = lambda lo, hi: "np.array([%r, %r, %r])" % (draw(num(-3, 3, 0.1)), draw(num(-1, 1, 0.1)), draw(num(lo, hi, 0.1)))
    if draw(st.booleans()):
        edits["reference_level_for_moments"] = point(-2, 4)
    if draw(st.booleans()):
        edits["center_of_lateral_resistance_upright"] = point(-3, 0)
    ends = {k: [draw(num(lo, hi, step)) for _ in range(2)] for k, lo, hi, step in (("chords", 0.5, 6, 0.05), ("camber", 0.005, 0.15, 0.005), ("camber_distance_from_luff", 0.2, 0.8, 0.05))
            if draw(st.integers(0, 2)) == 0}
    return dict(book=draw(st.sampled_from(YACHTS)), edits=edits, ends=ends)


def check_yacht(book, c, out, r, t, root, space, saved, shown, arrows, ctx):
    """Everything a yacht's notebook leaves behind."""
    import matplotlib.pyplot as plt
    v, res = space["myvlm"], space["inviscid_flow_results"]
    for name, got, want, top in (("circulations", v.gamma_magnitude, r["gamma"], t["gamma"]), ("forces", v.force, r["force"], t["F"]),
                                 ("total force", res.F_xyz_total, r["F_total"], t["Ft"]), ("total moment", res.M_total_above_water_in_xyz_csys, r["M_total"], t["Mt"]),
                                 ("keel moment", res.M_xyz_underwater_estimate_total, r["M_keel"], t["Mk"])):
        sut.close(got, want, "%s: %s" % (book, name), 1e-8, top)
    # the tables
    c13.check_results(res, np.asarray(v.cp, float), np.asarray(v.force, float), c["ref"], r["clr"], ref.sail_names(c), c["leeway"], ctx, t["F"], t["M"], what=book + ": ")
    c15.check_table(space["df_components"], c, r, v, res, space["sail_set"], ctx)
    want, table = c15.as_dict(res.to_df_integral()), c15.as_dict(space["df_integrals"])
    sut.require(table == want, "%s: the table of integrals shown is not that of the case" % book)
    for k, a in enumerate("xyz"):
        sut.close(table["F_sails_total_COG." + a], r["F_total"][k], book + ": total force shown", 1e-8, t["Ft"])
        sut.close(table["M_keel_total_COG." + a], r["M_keel"][k], book + ": keel moment shown", 1e-8, t["Mk"])
    winds, want = c15.as_dict(space["df_inlet_IC"]), c15.reference_height(c)
    if want is not None:
        for q, x in want.items():
            sut.require(q in winds, "%s: no %s in the table of the wind" % (book, q))
            sut.close((winds[q] - x + 180) % 360 - 180 if q.endswith("deg") else winds[q], 0.0 if q.endswith("deg") else x, "%s: %s" % (book, q), 1e-8, 180.0 if q.endswith("deg") else max(1.0, abs(x)))
    # the workbook, in the folder of the results
    books = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs]
    sut.require(books == [os.path.join(root, space["out"].name, out["file_name"] + ".xlsx")], "%s: files %s" % (book, books))
    c15.check_workbook(books[0], [space["df_components"], space["df_integrals"], space["df_inlet_IC"]])
    # the view
    views = [f for f in map(plt.figure, plt.get_fignums()) if any(a.name == "3d" for a in f.axes)]
    sut.require(len(views) == 1 and sum(kind == "figure" for kind, _ in shown) >= 1, "%s: %d views of the yacht" % (book, len(views)))
    ax = next(a for a in views[0].axes if a.name == "3d")
    c22.check_panels(ax, views[0], np.asarray(v.panels, float), np.asarray(v.p_coeffs, float), book + ": view", t["cp"])
    c22.hull(ax, space["hull"], book + ": view")
    c22.winds(c, r, arrows, v, res, dict(induced=False), book + ": view", ctx)
    c22.forces(ax, r, c, arrows, res, space["hull"], book + ": view", t, ctx)
    # the pressure map
    from bokeh.embed import file_html
    from bokeh.resources import CDN
    maps = [m for kind, m in shown if kind == "map"]
    sut.require(len(maps) == 1, "%s: %d pressure maps shown" % (book, len(maps)))
    c22.compare_map(c22.read_map_text(file_html(maps[0], CDN, "map")), r["g"]["zero"], np.asarray(v.p_coeffs, float), book + ": pressure map")
    # the section plots: lift under lift
    sections = {os.path.basename(c22.png_name(s["path"])): s for s in saved if "section" in os.path.basename(s["path"])}
    sut.require(sorted(sections) == ["section_cd.png", "section_cl.png"], "%s: section plots %s" % (book, sorted(sections)))
    nc, ns, k = c["nc"], c["ns"], len(ref.sail_names(c))
    heights = r["cp"][:r["half"], 2].reshape(k, nc, ns).mean(axis=1)
    plots = {n: [f for f in sections["section_c%s.png" % n[0]]["figure"]["series"] if f["points"]] for n in ("lift", "drag")}
    want = {}
    for name in ("lift", "drag"):
        sut.require(len(plots[name]) == k, "%s: %d series for %d sails" % (book, len(plots[name]), k))
        for i in range(k):
            sut.close(np.array(plots[name][i]["points"])[:, 1], heights[i], "%s: heights in the section plot of the %s" % (book, name), 1e-9, sut.scale_of(heights))
        x, strip = c16.sections(np.asarray(v.areas, float), r[name], r["V"], c["rho"], k, nc, ns)
        mean = (x * strip).sum(axis=1) / strip.sum(axis=1)
        if mean.min() > 1e-6 * max(mean.max(), 1e-3):
            want[name] = x / mean[:, None]
    if len(want) < 2:
        ctx.label("mean coefficient lost in rounding")
        return

    def compare(shown, name):
        for i in range(k):
            sut.close(np.array(plots[shown][i]["points"])[:, 0], want[name][i], "%s: %s in the section plot of the %s" % (book, name, shown), 1e-6, sut.scale_of(want[name]))

    def both(pairs):
        for shown, name in pairs:
            compare(shown, name)
    try:
        both([("lift", "lift"), ("drag", "drag")])
    except Violation as e:
        # recorded: the notebooks exchange the two plots; anything else is still wrong
        try:
            both([("lift", "drag"), ("drag", "lift")])
        except Violation:
            raise e from None
        ctx.known("F16-notebook-lift-drag", str(e))


def run_yacht(case, ctx):
    plain = cells(case["book"])
    n = len(config_of(plain)[0]["main"]["girths"])
    edits = dict(case["edits"], **{k: "np.linspace(%r, %r, %d)" % (a, b, n) for k, (a, b) in case.get("ends", {}).items()})
    texts = edit(plain, edits, ctx)
    c, out = config_of(texts)
    if ref.lowest_point(c) < 0.1:
        raise Skip("a sail in the water")
    r = ref.run(c)
    sut.domain(r)
    t = tops(r, c)
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    try:
        from pySailingVLM.solver import panels_plotter
        with c22.recorded_arrows(panels_plotter) as arrows, execute(texts, root, ctx) as (space, saved, shown):
            check_yacht(case["book"], c, out, r, t, root, space, saved, shown, arrows, ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(case["book"])


# ---------------------------------------------------------------- the same yacht on several meshes
@st.composite
def meshes(draw):
    n = draw(st.integers(1, 3))
    edits = {"ns": "np.array(%r)" % [draw(st.integers(1, 6)) for _ in range(n)], "nc": "np.array(%r)" % [draw(st.integers(1, 3)) for _ in range(n)]}
    for k in draw(st.lists(st.sampled_from(sorted(NUMBERS)), max_size=4, unique=True)):
        edits[k] = repr(draw(NUMBERS[k]))
    return dict(book="rc44-convergence", edits=edits)


def run_meshes(case, ctx):
    texts = edit(cells(case["book"]), case["edits"], ctx)
    first = "\n".join(line for line in texts[1].split("\n")) + "\nsolver = Solver(n_spanwise=1, n_chordwise=1, interpolation_type='spline')\n"
    c, _ = config_of([first])
    want = []
    ns, nc = (eval(case["edits"][k], {"np": np}) for k in ("ns", "nc"))       # noqa: S307
    for a, b in zip(ns, nc):
        c = dict(c, ns=int(a), nc=int(b))
        if ref.lowest_point(c) < 0.1:
            raise Skip("a sail in the water")
        r = ref.run(c)
        sut.domain(r)
        want.append((r["F_total"], tops(r, c)["Ft"]))
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    try:
        with execute(texts, root, ctx) as (space, saved, _):
            pass
        for k, a in enumerate("xyz"):
            got = np.asarray(space["Fs_COG_" + a], float).ravel()
            sut.require(len(got) == len(want), "%s: %d meshes for %d" % (case["book"], len(got), len(want)))
            for i, (F, top) in enumerate(want):
                sut.close(got[i], F[k], "%s: total force on mesh %d" % (case["book"], i), 1e-8, top)
        sut.require(len(saved) == 3, "%s: %d plots" % (case["book"], len(saved)))
        for k, s in enumerate(saved):
            p = np.array(s["figure"]["series"][0]["points"])
            sut.close(p, np.stack([ns * nc, [abs(F[k]) for F, _ in want]], axis=1), "%s: points of plot %d" % (case["book"], k), 1e-8, max(top for _, top in want))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(case["book"])


# ---------------------------------------------------------------- wings
@st.composite
def wings(draw):
    book = draw(st.sampled_from(WINGS))
    half, ar, sweep = draw(st.sampled_from([0.5]) | num(2, 30, 0.5)), draw(st.sampled_from([2.0, 5.0]) | num(2, 12, 0.5)), draw(st.sampled_from([0.0, 30.0, 45.0]) | num(-20, 50, 1))
    case = dict(book=book, half=half, ar=ar, sweep=sweep, alpha=draw(st.sampled_from([4.0, 4.2]) | num(0.5, 15, 0.5)), ns=draw(st.integers(1, 4 if half < 1 else 8)),
                nc=draw(st.integers(1, 1 if half < 1 else 4)), n=draw(st.integers(2, 4)))
    if book == "falkner_comparion":
        case["sweeps"] = [draw(st.sampled_from([0.0, 30.0, 45.0]) | num(-20, 50, 1)) for _ in range(3)]
    return case


def wing_edits(c):
    edits = {"half_wing_span": repr(c["half"]), "AoA_deg": repr(c["alpha"]), "n_spanwise": str(c["ns"]), "n_chordwise": str(c["nc"])}
    if c["book"].startswith("falkner"):
        edits["AR"] = repr(c["ar"])
    else:
        edits["chord_length"] = repr(2 * c["half"] / c["ar"])
    if c["book"] == "falkner_comparion":
        edits.update(zip(("sweep_angle_deg_25", "sweep_angle_deg_26", "sweep_angle_deg_28"), map(repr, c["sweeps"])))
    else:
        edits["sweep_angle_deg"] = repr(c["sweep"])
    if c["book"] == "bertin-part-1":
        edits["AoA_degs"] = "np.linspace(0.5, 10., %d)" % c["n"]
    return edits


def run_wing(case, ctx):
    texts = edit(cells(case["book"]), wing_edits(case), ctx)
    one = dict(half=case["half"], chord=2 * case["half"] / case["ar"], ns=case["ns"], nc=case["nc"])
    if case["book"] == "falkner_comparion":
        states = [dict(one, sweep=s, alpha=case["alpha"]) for s in case["sweeps"]]
    elif case["book"] == "bertin-part-1":
        states = [dict(one, sweep=case["sweep"], alpha=float(a)) for a in np.linspace(0.5, 10.0, case["n"])]
    else:
        states = [dict(one, sweep=case["sweep"], alpha=case["alpha"])]
    want = []
    for s in states:
        c = gen.wing_config(**s)
        c["main"]["chords"] = [s["chord"]] * 5                               # not rounded
        r = ref.run(c)
        sut.domain(r)
        h = r["half"]
        cl, strip = c16.sections(r["areas"], r["lift"], r["V"], 1.0, 1, c["nc"], c["ns"])
        CL = float((cl * strip).sum() / strip.sum())
        want.append(dict(CL=CL, y=cl[0] / CL, x=r["cp"][:h, 2].reshape(c["nc"], c["ns"]).mean(axis=0) / case["half"], slope=CL / np.deg2rad(s["alpha"]),
                         Cxyz=r["force"].sum(axis=0) / (0.5 * r["areas"].sum())))
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    book = case["book"]
    try:
        with execute(texts, root, ctx) as (space, saved, shown):
            pass
        if book == "bertin-part-1":
            sut.close(np.asarray(space["CL_results"], float), [w["CL"] for w in want], book + ": lift coefficients", 1e-8)
            lines = saved[-1]["figure"]["series"]
            sut.close(np.array(lines[-1]["points"])[:, 1], [w["CL"] for w in want], book + ": lift coefficients shown", 1e-8)
        else:
            xs, ys, slopes = (space[k] for k in ("x_data_list", "y_data_list", "a_vlm")) if book == "falkner_comparion" else ([space["x_data"]], [space["y_data"]], [space["a_vlm"]])
            sut.require(len(xs) == len(want) and len(ys) == len(want), "%s: %d wings for %d" % (book, len(xs), len(want)))
            for w, x, y, a in zip(want, xs, ys, slopes):
                sut.close(x, w["x"], book + ": places along the span", 1e-9, 1.0)
                sut.close(y, w["y"], book + ": spanwise lift", 1e-7)
                sut.close(a, w["slope"], book + ": lift slope", 1e-7)
            if book == "bertin-part-2" and "sails_Cxyz" in space:
                sut.close(space["sails_Cxyz"], w["Cxyz"], book + ": force coefficients", 1e-7, sut.scale_of(w["Cxyz"]))
        if book.startswith("falkner"):
            maps = [m for kind, m in shown if kind == "map"]
            sut.require(len(maps) == len(want), "%s: %d pressure maps for %d wings" % (book, len(maps), len(want)))
        sut.require(len(saved) == 1, "%s: %d plots" % (book, len(saved)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(book)


SUBS = [
    Sub("yachts", run_yacht, yachts, quick=120, thorough=1500, corners=lambda: [dict(book=b, edits={"n_spanwise": "6", "n_chordwise": "2"}) for b in YACHTS],
        nontrivial=lambda c: len(c["edits"]) > 3, about="the yacht notebooks with up to six parameters edited"),
    Sub("meshes", run_meshes, meshes, quick=40, thorough=600, corners=lambda: [dict(book="rc44-convergence", edits=dict(ns="np.array([2, 4])", nc="np.array([1, 2])"))],
        nontrivial=lambda c: len(c["edits"]) > 2, about="the convergence notebook"),
    Sub("wings", run_wing, wings, quick=120, thorough=1500, corners=lambda: [dict(book=b, half=0.5, ar=5.0, sweep=45.0, alpha=4.2, ns=4, nc=1, n=3, sweeps=[0.0, 30.0, 45.0]) for b in WINGS],
        nontrivial=lambda c: c["ns"] * c["nc"] > 1, about="the notebooks of Bertin's and Falkner's wings"),
]
