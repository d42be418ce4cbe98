"""C19: the command line, run whole in child processes."""
import os
import pickle
import re
import runpy
import shutil
import sys
import tempfile
import traceback

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Skip, Sub, Violation
from pbt.props import c15, c16, c22
from pbt.props.c12 import tops

PROPERTY = "C19"
RULE = "a case counts when a yacht was computed, or when a variables file that must not be used was in reach"
ASSUMPTIONS = ("LaTeX is not installed here: the style of the section plots is replaced by the default one",
               "each run happens in its own process and scratch folder",
               "the twist mode cannot be chosen in a variables file, so it is the real twist")


def warm():
    c22.warm()
    from pySailingVLM.runner import cli                                    # noqa: F401
    from pySailingVLM.results import save_utils                            # noqa: F401
    import openpyxl, xlsxwriter                                            # noqa: F401, E401


# ---------------------------------------------------------------- a variables file
def literal(v):
    if isinstance(v, list):
        return "np.array(%r)" % v
    return repr(v)


def variables_text(c, out, omit=()):
    sail = lambda s: dict(girths=s["girths"], chords=s["chords"], centerline_twist_deg=s["twist"], camber=s["camber"], camber_distance_from_luff=s["cpos"])
    groups = dict(
        output_args=out,
        solver_args=dict(n_spanwise=c["ns"], n_chordwise=c["nc"], interpolation_type=c["interp"]),
        conditions_args=dict(leeway_deg=c["leeway"], heel_deg=c["heel"], SOG_yacht=c["SOG"], tws_ref=c["tws"], alpha_true_wind_deg=c["alpha"],
                             reference_water_level_for_wind_profile=c["ref_water"], wind_exp_coeff=c["exp"],
                             wind_reference_measurment_height=c["ref_h"], rho=c["rho"], wind_profile=c["profile"], roughness=c["roughness"]),
        rig_args=dict(main_sail_luff=c["main_luff"], jib_luff=c["jib_luff"], foretriangle_height=c["ft_height"], foretriangle_base=c["ft_base"],
                      sheer_above_waterline=c["sheer"], boom_above_sheer=c["boom"], rake_deg=c["rake"], mast_LOA=c["mast_LOA"], sails_def=c["sails"]),
        main_sail_args=sail(c["main"]), jib_sail_args=sail(c["jib"]),
        csys_args=dict(reference_level_for_moments=c["ref"]), keel_args=dict(center_of_lateral_resistance_upright=c["clr"]))
    lines = ["import numpy as np"]
    for name, args in groups.items():
        lines.append("%s = {" % name)
        lines += ["    %r: %s," % (k, literal(v)) for k, v in args.items() if k not in omit]
        lines.append("}")
    return "\n".join(lines) + "\n"


OMITTED = {"rho": ("rho", 1.225), "reference_level_for_moments": ("ref", [0.0, 0.0, 0.0]),
           "center_of_lateral_resistance_upright": ("clr", [0.0, 0.0, -1.0]), "mast_LOA": ("mast_LOA", 0.15)}


# ---------------------------------------------------------------- one run in a child process
def child(run, report):
    """Fork, run, and return what `run` left in the report; the parent's state stays clean."""
    path = os.path.join(env.scratch(), "cli-%d.pickle" % os.getpid())
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            try:
                run(report)
            except BaseException:                                         # noqa: BLE001
                report["harness"] = traceback.format_exc()
            with open(path, "wb") as f:
                pickle.dump(report, f)
            code = 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise Violation("the command line run ended its process with status %d" % status)
    with open(path, "rb") as f:
        out = pickle.load(f)
    os.remove(path)
    if "harness" in out:
        raise RuntimeError("child: " + out["harness"])
    return out


def run_cli(argv, cwd, entry, extra_path, log, earlier=None):
    """The command line in this (child) process; fills `report`."""
    def run(report):
        import matplotlib.pyplot as plt
        os.chdir(cwd)
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = os.fdopen(os.dup(1), "w")
        sys.stderr = os.fdopen(os.dup(2), "w")
        sys.argv = ["pySailingVLM"] + argv
        sys.modules.pop("variables", None)
        if extra_path:
            sys.path.insert(0, extra_path)
        views, hulls = [], []

        def show(*a, **k):
            for n in plt.get_fignums():
                fig = plt.figure(n)
                for ax in fig.axes:
                    if ax.name == "3d":
                        views.append([f for f, _ in c22.polygons(ax) if np.abs(f[:4, 2]).max() != 0.0])
                        hulls.append([np.array(line.get_data_3d(), float).T for line in ax.lines])
        plt.show = show
        if earlier:                             # another case computed by the same process before
            from pySailingVLM.runner import cli
            sys.argv = ["pySailingVLM"] + earlier
            with c22.quiet_style():
                cli.main()
            plt.close("all")
            views.clear()
            hulls.clear()
            sys.stdout.flush()
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, os.SEEK_SET)
            sys.argv = ["pySailingVLM"] + argv
        with c22.quiet_style(), c22.recorded_figures(True) as saved:
            try:
                if entry == "main":
                    from pySailingVLM.runner import cli
                    report["result"] = cli.main()
                else:
                    runpy.run_module("pySailingVLM", run_name="__main__", alter_sys=False)
                report["end"] = "returned"
            except SystemExit as e:
                report["end"] = "exit"
                report["code"] = e.code
            except BaseException as e:                                    # noqa: BLE001
                report["end"] = "error"
                report["error"] = "%s: %s" % (type(e).__name__, e)
                report["trace"] = traceback.format_exc()
        report["figures"] = saved
        report["views"] = views
        report["hulls"] = hulls
        sys.stdout.flush()
        sys.stderr.flush()
    return run


def tree(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if os.path.basename(d) != "__pycache__")


# ---------------------------------------------------------------- cases
STYLES = ["plain", "about itself", "helper"]
LAYOUTS = ["absolute", "relative", "default", "decoy here", "decoy on the path", "both decoys", "second run"]


@st.composite
def runs(draw):
    c = draw(gen.configs(max_ns=4, max_nc=3))
    c["llt"] = "real_twist"
    omit = draw(st.lists(st.sampled_from(sorted(OMITTED)), max_size=2, unique=True))
    return dict(config=c, omit=omit, layout=draw(st.sampled_from(LAYOUTS)), entry=draw(st.sampled_from(["main", "module"])),
                out=draw(st.sampled_from(["out", "res/2020-01-01_10h00", "a b", "."])), absolute=draw(st.booleans()),
                file=draw(st.sampled_from(["my_fancy_results", "case.1", "r"])), old=draw(st.booleans()), decoy=draw(st.integers(0, 3)),
                name=draw(st.sampled_from(["variables.py", "variables.py", "notes.txt"])), style=draw(st.sampled_from(STYLES)))


def corners():
    out = []
    for k, c in enumerate(gen.corner_configs()):
        c = dict(c, llt="real_twist")
        out.append(dict(config=c, omit=[], layout=LAYOUTS[k % len(LAYOUTS)], entry=["main", "module"][k % 2], out="out", absolute=k % 3 == 0,
                        file="my_fancy_results", old=k % 4 == 1, decoy=k % 4, name="variables.py", style=STYLES[k // 2 % 3]))
    return out


def decoy_text(k, out):
    """Another yacht's variables file."""
    d = [gen.default_config(ns=2, nc=1), gen.rich_config(ns=1, nc=2), gen.default_config(sails="main", ns=1, nc=1),
         gen.default_config(sails="jib", ns=3, nc=1, tws=9.0)][k]
    return variables_text(d, out)


def run_case(case, ctx):
    config = dict(case["config"])
    for k in case["omit"]:
        config[OMITTED[k][0]] = OMITTED[k][1]
    gen.keep_dry(config)
    r, b, vlm, res = sut.solved(config)
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    try:
        here, there, elsewhere = (os.path.join(root, d) for d in ("here", "there", "elsewhere"))
        for d in (here, there, elsewhere):
            os.makedirs(d)
        layout = case["layout"]
        source = here if layout == "default" else there
        argv = {"absolute": ["-dv", there], "relative": ["--dvars", os.path.join("..", "there")], "default": []}.get(layout, ["-dv", there])
        folder = os.path.join(here, case["out"])
        out = dict(case_name=case["name"], case_dir=source, name=folder if case["absolute"] else case["out"], file_name=case["file"])
        text = variables_text(config, out, case["omit"])
        style = case.get("style", "plain")
        if style == "about itself":                     # the way the packaged files are written
            text = "import os\n" + text.replace("'case_dir': %r" % source, "'case_dir': os.path.dirname(os.path.realpath(__file__))")
            if case["name"] == "variables.py":
                text = text.replace("'case_name': 'variables.py'", "'case_name': os.path.basename(__file__)")
        if style == "helper":                           # data kept in a module beside the variables file
            with open(os.path.join(source, "yacht_data.py"), "w") as f:
                f.write(text)
            text = "from yacht_data import *\n"
        with open(os.path.join(source, "variables.py"), "w") as f:
            f.write(text)
        if case["name"] != "variables.py":
            with open(os.path.join(source, case["name"]), "w") as f:
                f.write("notes about this case\n")
        decoy = decoy_text(case["decoy"], dict(case_name="variables.py", case_dir=elsewhere, name=os.path.join(root, "decoy"), file_name="decoy"))
        if layout in ("decoy here", "both decoys"):
            with open(os.path.join(here, "variables.py"), "w") as f:
                f.write(decoy)
        with open(os.path.join(elsewhere, "variables.py"), "w") as f:
            f.write(decoy)
        if case["old"]:
            os.makedirs(folder, exist_ok=True)
            for n in (case["file"] + ".xlsx", "cp_plot.html", "section_cl.png"):
                with open(os.path.join(folder, n), "w") as f:
                    f.write("old")
        before = {p: read(os.path.join(root, p)) for p in tree(root)}
        extra = elsewhere if layout in ("decoy on the path", "both decoys") else here if case["entry"] == "module" else None
        log = os.path.join(env.scratch(), "cli-%d.log" % os.getpid())
        earlier = ["-dv", elsewhere] if layout == "second run" else None
        got = child(run_cli(argv, here, case["entry"], extra, log, earlier), {})
        said = read(log).decode(errors="replace")
        ended_well(got, said)
        if earlier:
            shutil.rmtree(os.path.join(root, "decoy"))
        inside = lambda n: os.path.relpath(os.path.join(folder, n), root)
        written = [case["file"] + ".xlsx", case["name"], "cp_plot.html", "section_cl.png", "section_cd.png"]
        want = sorted(set(before) | {inside(n) for n in written})
        sut.require(tree(root) == want, "files after the run: %s, expected %s" % (sorted(set(tree(root)) ^ set(want)), want))
        for p, data in before.items():
            if p not in {inside(n) for n in written}:
                sut.require(read(os.path.join(root, p)) == data, "%s was changed" % p)
        source_data = read(os.path.join(source, case["name"]))
        sut.require(read(os.path.join(folder, case["name"])) == source_data, "the copy of the case file differs from the case file")
        for n in ("section_cl.png", "section_cd.png"):
            sut.require(read(os.path.join(folder, n))[:8] == b"\x89PNG\r\n\x1a\n", "%s is no picture" % n)
        delivered(case["file"], config, folder, r, b, vlm, res, got, said, ctx)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    ctx.label(layout)
    ctx.label("file: " + style)
    ctx.label("entry " + case["entry"])


def read(path):
    with open(path, "rb") as f:
        return f.read()


def ended_well(got, said):
    if got["end"] == "error":
        raise Violation("the command line failed with %s\n%s" % (got["error"], got["trace"][-1200:]))
    if got["end"] == "exit":
        sut.require(got["code"] in (None, 0), "the command line exited with %r: %s" % (got["code"], said[-300:]))


def printed(said, table, ctx):
    """Quantities shown on the screen, when they are shown as a table."""
    values = c15.as_dict(table)
    seen = 0
    for line in said.splitlines():
        words = re.match(r"\s*\d+\s+(\S.*\S)\s+(\S+)\s*$", line)
        if words and words.group(1).strip() in values:
            v = values[words.group(1).strip()]
            try:
                shown = float(words.group(2))
            except ValueError:
                continue
            seen += 1
            sut.close(shown, v, "printed " + words.group(1).strip(), 2e-5, abs(v) + 1e-3 * max(map(abs, values.values())) + 0.05)
    ctx.label("integrals printed" if seen > 8 else "integrals not printed as a table")


def delivered(file_name, config, folder, r, b, vlm, res, got, said, ctx):
    from pySailingVLM.results.save_utils import save_results_to_file
    mine = tempfile.mkdtemp(dir=env.scratch())
    try:
        tables = save_results_to_file(vlm, b["csys_transformations"], res, b["sail_set"], mine, "x")
        c15.check_table(tables[0], config, r, vlm, res, b["sail_set"], ctx)
        c15.check_workbook(os.path.join(folder, file_name + ".xlsx"), tables)
        printed(said, tables[1], ctx)
    finally:
        shutil.rmtree(mine, ignore_errors=True)
    c22.check_map(os.path.join(folder, "cp_plot.html"), ref.build(config)["zero"], vlm.p_coeffs, "pressure map")
    sut.require(len(got["views"]) == 1, "%d three-dimensional views shown" % len(got["views"]))
    P = np.asarray(vlm.panels, float)
    c22.take(P.reshape(-1, 12), [f.reshape(-1) for f in got["views"][0]], 1e-9 * sut.scale_of(P), "panels shown")
    for name in ("deck_centerline", "deck_port_line", "deck_starboard_line", "deck_port_line_underwater", "deck_starboard_line_underwater"):
        want = np.asarray(getattr(b["hull"], name), float)
        sut.require(any(line.shape == want.shape and np.abs(line - want).max() <= 1e-9 * max(1.0, sut.scale_of(want)) for line in got["hulls"][0]),
                    "the hull's %s is not shown" % name)
    # section plots
    nc, ns = config["nc"], config["ns"]
    k = len(P) // (2 * nc * ns)
    arr = lambda x: np.asarray(x, float)
    by_name = {}
    for record in got["figures"]:
        by_name.setdefault(os.path.basename(c22.png_name(record["path"])), []).append(record)
    sut.require(sorted(by_name) == ["section_cd.png", "section_cl.png"] and all(len(v) == 1 for v in by_name.values()), "figures saved: %s" % sorted(by_name))
    height = arr(vlm.cp)[:k * nc * ns, 2].reshape(k, nc, ns).mean(axis=1)
    total = None
    for name, key in (("lift", "lift"), ("drag", "drag")):
        c, strip = c16.sections(arr(vlm.areas), arr(getattr(vlm, key)), arr(vlm.inlet_conditions.V_app_infs), config["rho"], k, nc, ns)
        mean = (c * strip).sum(axis=1) / strip.sum(axis=1)
        total = mean.max() if total is None else total
        if mean.min() <= 1e-9 * max(total, 1e-3):
            ctx.label("mean coefficient lost in rounding")
            continue
        colors = {"lift": ["blue", "green"], "drag": ["teal", "purple"]}[name]
        check_series(by_name["section_c%s.png" % name[0]][0], folder, name, c / mean[:, None], height, [s.replace("_sail", "") for s in ref.sail_names(config)])


def check_series(record, folder, name, x, y, names):
    """As in C22, to the rounding of a second computation and in any colours."""
    f = record["figure"]
    what = "section plot of the " + name
    sut.require(os.path.dirname(os.path.realpath(record["path"])) == os.path.realpath(folder), "%s saved in %s" % (what, record["path"]))
    series = [s for s in f.get("series", []) if s["points"]]
    sut.require(len(series) == len(y), "%s: %d series for %d sails" % (what, len(series), len(y)))
    for i in range(len(y)):
        p = np.array(series[i]["points"])
        sut.require(p.shape == (y.shape[1], 2), "%s: %d points for %d sections" % (what, len(p), y.shape[1]))
        sut.close(p[:, 0], x[i], "%s: coefficients shown for sail %d" % (what, i), 1e-8, sut.scale_of(x))
        sut.close(p[:, 1], y[i], "%s: heights shown for sail %d" % (what, i), 1e-9, sut.scale_of(y))
    sut.require([s["label"] for s in series] == names, "%s: series named %s for the sails %s" % (what, [s["label"] for s in series], names))


# ---------------------------------------------------------------- nothing to compute
MISSING = ["no file", "no folder", "a folder of that name", "broken import", "empty folder argument", "no case to copy"]


@st.composite
def missing_runs(draw):
    return dict(how=draw(st.sampled_from(MISSING)), decoy=draw(st.integers(0, 3)), here=draw(st.booleans()), path=draw(st.booleans()),
                entry=draw(st.sampled_from(["main", "module"])), relative=draw(st.booleans()))


def missing_corners():
    return [dict(how=h, decoy=k % 4, here=here, path=path, entry=e, relative=k % 2 == 1)
            for k, h in enumerate(MISSING) for here in (False, True) for path in (False, True) for e in ("main", "module")]


def run_missing(case, ctx):
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    try:
        here, there, elsewhere = (os.path.join(root, d) for d in ("here", "there", "elsewhere"))
        for d in (here, elsewhere):
            os.makedirs(d)
        how = case["how"]
        if how != "no folder":
            os.makedirs(there)
        if how == "a folder of that name":
            os.makedirs(os.path.join(there, "variables.py"))
        if how == "broken import":
            with open(os.path.join(there, "variables.py"), "w") as f:
                f.write("import numpy as np\nimport no_such_module_anywhere\n")
        nocopy = how == "no case to copy"               # computable, but its case file cannot be kept beside the results
        if nocopy:
            with open(os.path.join(there, "variables.py"), "w") as f:
                f.write(decoy_text(case["decoy"], dict(case_name="another.py", case_dir=there, name=os.path.join(root, "out"), file_name="out")))
        decoy = decoy_text(case["decoy"], dict(case_name="variables.py", case_dir=elsewhere, name=os.path.join(root, "decoy"), file_name="decoy"))
        with open(os.path.join(elsewhere, "variables.py"), "w") as f:
            f.write(decoy)
        target = there
        if how == "empty folder argument":              # the working directory, without a file
            target = None
        elif case["here"]:
            with open(os.path.join(here, "variables.py"), "w") as f:
                f.write(decoy)
        before = {p: read(os.path.join(root, p)) for p in tree(root)}
        argv = [] if target is None else ["-dv", os.path.join("..", "there") if case["relative"] else there]
        log = os.path.join(env.scratch(), "cli-%d.log" % os.getpid())
        extra = elsewhere if case["path"] else here if case["entry"] == "module" else None
        got = child(run_cli(argv, here, case["entry"], extra, log), {})
        said = read(log).decode(errors="replace") + got.get("error", "") + (got.get("code") if isinstance(got.get("code"), str) else "")
        sut.require(got["end"] != "returned", "%s: the command line ended as if it had done its work" % how)
        sut.require(said.strip(), "%s: the command line said nothing" % how)
        after = {p: read(os.path.join(root, p)) for p in tree(root) if "__pycache__" not in p and not (nocopy and p.split(os.sep)[0] == "out")}
        sut.require(after == before, "%s: files changed: %s" % (how, sorted(set(after) ^ set(before))))
        sut.require(nocopy or not got["figures"] and not got["views"], "%s: something was plotted" % how)
        ctx.label("%s (%s)" % (how, got["end"]))
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---------------------------------------------------------------- the files that come with the package
PACKAGED = ["variables.py", "examples/variables.py", "examples/rectangle_variables.py", "examples/sweep_variables.py"]


@st.composite
def packaged_runs(draw):
    return dict(file=draw(st.sampled_from(PACKAGED)), alpha=draw(st.integers(10, 60)), heel=draw(st.integers(-20, 30)), leeway=draw(st.integers(-6, 8)),
                interp=draw(st.sampled_from(["spline", "linear"])), ns=draw(st.integers(2, 5)), nc=draw(st.integers(1, 3)), here=draw(st.booleans()))


def config_of(vr):
    """The yacht of an executed variables file."""
    v = lambda x: np.asarray(x, float).tolist()
    s, k, g = vr["solver_args"], vr["conditions_args"], vr["rig_args"]
    sail = lambda a: dict(girths=v(a["girths"]), chords=v(a["chords"]), camber=v(a["camber"]), cpos=v(a["camber_distance_from_luff"]), twist=v(a["centerline_twist_deg"]))
    return dict(sails=g["sails_def"], ns=s["n_spanwise"], nc=s["n_chordwise"], interp=s["interpolation_type"], llt="real_twist",
                heel=k["heel_deg"], leeway=k["leeway_deg"], profile=k["wind_profile"], alpha=k["alpha_true_wind_deg"], tws=k["tws_ref"], SOG=k["SOG_yacht"],
                ref_h=k["wind_reference_measurment_height"], exp=k["wind_exp_coeff"], ref_water=k["reference_water_level_for_wind_profile"],
                roughness=k["roughness"], rho=k["rho"], rake=g["rake_deg"], sheer=g["sheer_above_waterline"], boom=g["boom_above_sheer"],
                main_luff=g["main_sail_luff"], jib_luff=g["jib_luff"], ft_height=g["foretriangle_height"], ft_base=g["foretriangle_base"], mast_LOA=g["mast_LOA"],
                ref=v(vr["csys_args"]["reference_level_for_moments"]), clr=v(vr["keel_args"]["center_of_lateral_resistance_upright"]),
                main=sail(vr["main_sail_args"]), jib=sail(vr["jib_sail_args"]))


def run_packaged(case, ctx):
    """A packaged example, copied and edited as a user would, run from its folder or from another."""
    given = os.path.join(env.REPO, "pySailingVLM", case["file"])
    if not os.path.isfile(given):
        raise Skip("no such packaged file")
    lines = read(given).decode().splitlines()
    edits = {"n_spanwise": case["ns"], "n_chordwise": case["nc"], "interpolation_type": case["interp"], "alpha_true_wind_deg": float(case["alpha"])}
    if os.path.basename(case["file"]) == "variables.py":
        edits.update(heel_deg=float(case["heel"]), leeway_deg=float(case["leeway"]))
    for key, value in edits.items():
        at = [i for i, line in enumerate(lines) if re.match(r"\s*['\"]%s['\"]\s*:" % key, line)]
        if len(at) != 1:
            raise Skip("the packaged file has another form")
        lines[at[0]] = "    %r: %r," % (key, value)
    root = os.path.realpath(tempfile.mkdtemp(dir=env.scratch()))
    back = os.getcwd()
    try:
        there, here = os.path.join(root, "there"), os.path.join(root, "here")
        for d in (there, here):
            os.makedirs(d)
        with open(os.path.join(there, "variables.py"), "w") as f:
            f.write("\n".join(lines) + "\n")
        cwd = there if case["here"] or "os.path.abspath" in "\n".join(lines) else here
        os.chdir(cwd)
        config = config_of(runpy.run_path(os.path.join(there, "variables.py")))
        os.chdir(back)
        r, b, vlm, res = sut.solved(config)
        before = set(tree(root))
        log = os.path.join(env.scratch(), "cli-%d.log" % os.getpid())
        got = child(run_cli([] if cwd == there else ["-dv", there], cwd, "main", None, log), {})
        said = read(log).decode(errors="replace")
        ended_well(got, said)
        new = sorted(set(tree(root)) - before)
        books = [p for p in new if p.endswith(".xlsx")]
        sut.require(len(books) == 1, "workbooks written: %s" % books)
        folder = os.path.join(root, os.path.dirname(books[0]))
        sut.require(os.path.dirname(os.path.dirname(folder)) == cwd, "results in %s" % os.path.relpath(folder, root))
        sut.require(sorted(os.path.basename(p) for p in new) == sorted(["cp_plot.html", "my_fancy_results.xlsx", "section_cd.png", "section_cl.png", "variables.py"])
                    and len({os.path.dirname(p) for p in new}) == 1, "files written: %s" % new)
        sut.require(read(os.path.join(folder, "variables.py")) == read(os.path.join(there, "variables.py")), "the copy of the case file differs from the case file")
        delivered("my_fancy_results", config, folder, r, b, vlm, res, got, said, ctx)
    finally:
        os.chdir(back)
        shutil.rmtree(root, ignore_errors=True)
    ctx.label("packaged " + case["file"])


SUBS = [
    Sub("runs", run_case, runs, quick=130, thorough=2500, corners=corners, about="whole runs in several layouts of working directory, variables file and output folder"),
    Sub("packaged", run_packaged, packaged_runs, quick=24, thorough=400, about="the example files that come with the package, edited in a few places and run"),
    Sub("missing", run_missing, missing_runs, quick=60, thorough=600, corners=missing_corners, about="runs without a usable variables file, others being in reach",
        nontrivial=lambda c: c["here"] or c["path"]),
]
