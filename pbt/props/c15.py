"""C15: the results workbook and the returned tables."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import env, gen, ref, sut
from pbt.core import Sub, Violation
from pbt.gen import num
from pbt.props.c03 import centreline
from pbt.props.c12 import tops
from pbt.props.c13 import check_results

PROPERTY = "C15"
RULE = "a case counts when the workbook holds more than one panel or an earlier workbook was replaced"
ASSUMPTIONS = ("decimals: 8 for the panel sheet, 2 for the summary sheets", "files are written in a scratch folder made for each case")
warm = sut.warm

COMPONENTS = ["Circulation_magnitude", "V_induced_COG.x", "V_induced_COG.y", "V_induced_COG.z", "V_induced_length", "V_app_fs_COG.x",
              "V_app_fs_COG.y", "V_app_fs_COG.z", "V_app_fs_length", "AWA_fs_COG_deg", "AWA_fs_COW_deg", "Pressure", "F_sails_COG.x",
              "F_sails_COG.y", "F_sails_COG.z", "M_sails_COG.x", "M_sails_COG.y", "M_sails_COG.z", "F_sails_COW.x", "F_sails_COW.y",
              "F_sails_COW.z", "cp_points_COG.x", "cp_points_COG.y", "cp_points_COG.z", "TWS_COG.x", "TWS_COG.y", "TWS_COG.z",
              "TWS_length", "V_app_infs_COG.x", "V_app_infs_COG.y", "V_app_infs_COG.z", "V_app_infs_length", "AWA_infs_COG_deg",
              "AWA_infs_COW_deg", "cp_points_upright.z", "girths", "sail_name"]


def angle(v):
    return np.rad2deg(np.arctan2(v[:, 1], v[:, 0]))


def expected(case, r, vlm, res, sail_set):
    """Columns of the panel sheet: (values, size) for the above-water panels in solver order."""
    h, n = r["half"], case["nc"] * case["ns"]
    t = tops(r, case)
    arr = lambda x: np.asarray(x, float)[:h]
    out = {}

    def vec(prefix, v, top):
        for k, a in enumerate("xyz"):
            out["%s.%s" % (prefix, a)] = (v[:, k], top)
    Vi, Vt, V, tws = arr(vlm.V_induced_at_cp), arr(vlm.V_app_fs_at_cp), arr(vlm.inlet_conditions.V_app_infs), r["tws"][:h]
    F, cp = arr(vlm.force), arr(vlm.cp)
    out["Circulation_magnitude"] = (arr(vlm.gamma_magnitude), t["gamma"])
    vec("V_induced_COG", Vi, t["Vt"])
    out["V_induced_length"] = (np.linalg.norm(Vi, axis=1), t["Vt"])
    vec("V_app_fs_COG", Vt, t["Vt"])
    out["V_app_fs_length"] = (np.linalg.norm(Vt, axis=1), t["Vt"])
    out["AWA_fs_COG_deg"] = (angle(Vt), "angle")
    out["AWA_fs_COW_deg"] = (angle(Vt) - case["leeway"], "angle")
    out["Pressure"] = (arr(vlm.pressure), t["p"])
    vec("F_sails_COG", F, t["F"])
    vec("M_sails_COG", np.cross(cp - np.asarray(case["ref"]), F), t["M"])
    vec("cp_points_COG", cp, t["points"])
    vec("TWS_COG", tws, t["tws"])
    out["TWS_length"] = (np.linalg.norm(tws, axis=1), t["tws"])
    vec("V_app_infs_COG", V, t["V"])
    out["V_app_infs_length"] = (np.linalg.norm(V, axis=1), t["V"])
    out["AWA_infs_COG_deg"] = (angle(V), "angle")
    out["AWA_infs_COW_deg"] = (angle(V) - case["leeway"], "angle")
    upright = (cp @ ref.attitude(case))[:, 2]
    out["cp_points_upright.z"] = (upright, t["points"])
    girth = np.empty(h)
    for k, name in enumerate(ref.sail_names(case)):
        z, tack = upright[k * n:(k + 1) * n], ref.rig_points(case)[name][0][2]
        girth[k * n:(k + 1) * n] = (z - tack) / (z.max() - tack)
    out["girths"] = (girth, max(1.0, sut.scale_of(girth)))
    return out, np.repeat(ref.sail_names(case), n), F


def check_table(df, case, r, vlm, res, sail_set, ctx):
    h = r["half"]
    want, names, F = expected(case, r, vlm, res, sail_set)
    cols = [str(c) for c in df.columns]
    sut.require(sorted(cols) == sorted(COMPONENTS), "columns of the panel table: %s" % cols)
    sut.require(len(df) == h, "the panel table has %d rows for %d above-water panels" % (len(df), h))
    for c, (value, top) in want.items():
        got = np.asarray(df[c], float)
        if top == "angle":
            turn = (got - value + 180) % 360 - 180
            sut.close(turn, np.zeros(h), "panel table: " + c, 1e-6, 180)
        else:
            sut.close(got, value, "panel table: " + c, 1e-8, top)
    sut.require(list(df["sail_name"]) == list(names), "panel table: sail names %s" % list(df["sail_name"])[:6])
    cow = np.stack([np.asarray(df["F_sails_COW." + a], float) for a in "xyz"], axis=1)
    centreline(cow, F, case["leeway"], ctx, "forces along the centreline in the panel table", 1e-8, tops(r, case)["F"])


def reference_height(case):
    """The table of the wind at its reference height."""
    if case["profile"] != "exponential":
        return None
    tw = ref.true_wind(case, np.array([case["ref_h"]]))[0]
    aw = tw + np.array([case["SOG"], 0, 0])
    a = np.rad2deg(np.arctan2(aw[1], aw[0]))
    out = {"Reference_measurement_height": case["ref_h"], "Reference_water_level_for_wind_profile": case["ref_water"],
           "TWS_length_at_reference_height": np.linalg.norm(tw), "V_app_infs_length_at_reference_height_COG": np.linalg.norm(aw),
           "AWA_infs_at_reference_height_COG_deg": a, "AWA_infs_at_reference_height_COW_deg": a - case["leeway"]}
    for k, x in enumerate("xyz"):
        out["TWS_at_reference_height_COG." + x] = tw[k]
        out["V_app_infs_at_reference_height_COG." + x] = aw[k]
    return out


def as_dict(df):
    return {str(q): float(v) for q, v in zip(df["Quantity"], df["Value"])}


def sheet_rows(sheet):
    return [list(row) for row in sheet.iter_rows(values_only=True)]


def same_cells(rows, df, decimals, what):
    header = [str(x) for x in rows[0]]
    sut.require(header == [str(c) for c in df.columns], "%s: header %s" % (what, header))
    sut.require(len(rows) - 1 == len(df), "%s: %d rows written, %d returned" % (what, len(rows) - 1, len(df)))
    for i, (row, values) in enumerate(zip(rows[1:], df.itertuples(index=False, name=None))):
        for c, cell, value in zip(header, row, values):
            if isinstance(value, str):
                sut.require(cell == value, "%s: %s of row %d is %r, returned %r" % (what, c, i, cell, value))
                continue
            value = float(value)
            try:
                off = abs(float(cell) - value)
            except (TypeError, ValueError):
                raise Violation("%s: %s of row %d holds %r, returned %r" % (what, c, i, cell, value))
            if not off <= 0.5 * 10.0 ** -decimals * 1.0001 + 4e-15 * abs(value):
                raise Violation("%s: %s of row %d holds %r, returned %r" % (what, c, i, cell, value))


def check_workbook(path, tables):
    import openpyxl
    sut.require(os.path.isfile(path), "no workbook at the requested place")
    book = openpyxl.load_workbook(path)
    names = ["Components", "Integrals", "IC_at_reference_height"]
    sut.require(book.sheetnames == names, "sheets %s" % book.sheetnames)
    for name, df, decimals in zip(names, tables, (8, 2, 2)):
        same_cells(sheet_rows(book[name]), df, decimals, "sheet " + name)
    book.close()


def solve_case(c, keel):
    r, b, vlm, res = sut.solved(c, keel)
    return r, b, vlm, res


def run_saves(case, ctx):
    from pySailingVLM.results.save_utils import save_results_to_file
    solved = [solve_case(c, case["keel"]) for c in case["configs"]]
    root = tempfile.mkdtemp(dir=env.scratch())
    here = os.getcwd()
    try:
        os.chdir(root)
        files = {}
        for k, (which, folder, name, relative) in enumerate(case["saves"]):
            c = case["configs"][which % len(solved)]
            r, b, vlm, res = solved[which % len(solved)]
            place = folder if relative else os.path.join(root, folder)
            tables = save_results_to_file(vlm, b["csys_transformations"], res, b["sail_set"], place, name)
            sut.require(len(tables) == 3, "saving returned %d tables" % len(tables))
            path = os.path.normpath(os.path.join(root, folder, name + ".xlsx"))
            check_table(tables[0], c, r, vlm, res, b["sail_set"], ctx)
            t = tops(r, c)
            check_results(res, np.asarray(vlm.cp, float), np.asarray(vlm.force, float), c["ref"], r["clr"], ref.sail_names(c),
                          c["leeway"], ctx, t["F"], t["M"], case["keel"])
            mine, theirs = as_dict(tables[1]), as_dict(res.to_df_integral())
            sut.require(mine == theirs, "the integral table returned is not the computed one")
            want = reference_height(c)
            if want is not None:
                got = as_dict(tables[2])
                sut.require(set(got) == set(want), "reference-height table: %s" % sorted(set(got) ^ set(want)))
                for q, v in want.items():
                    sut.close(got[q], v, "reference-height table: " + q, 1e-9, abs(v) + 20)
            check_workbook(path, tables)
            if path in files:
                ctx.label("replaced an earlier workbook")
            files[path] = tables
            # the others are untouched
            for other, kept in files.items():
                if other != path:
                    check_workbook(other, kept)
        present = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        sut.require(present == sorted(files), "files in the output folder: %s, expected %s" % (present, sorted(files)))
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
    ctx.label("%d saves" % len(case["saves"]))


@st.composite
def saves(draw):
    configs = [draw(gen.yachts_and_wings(max_ns=4, max_nc=3)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    folder = st.sampled_from(["out", "a/b/c", "results 1", ".", "out/deeper"])
    name = st.sampled_from(["results", "case.1", "my fancy results", "x", "wynik \u017c\u00f3\u0142w"])
    return dict(configs=configs, keel=draw(st.booleans()),
                saves=[[draw(st.integers(0, 1)), draw(folder), draw(name), draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))])


def corners():
    return [dict(configs=[c], keel=True, saves=[[0, "out", "results", False], [0, "out", "results", True]]) for c in gen.corner_configs() + gen.fine_corners() + gen.wing_corners()[:2]]


def nontrivial(case):
    c = case["configs"][0]
    places = [tuple(s[1:3]) for s in case["saves"]]
    return len(set(places)) < len(places) or c["ns"] * c["nc"] > 1 or c["sails"] == "jib_and_main"


# ---------------------------------------------------------------- tables of the wind and the heights
@st.composite
def heights(draw):
    return draw(gen.configs(max_ns=9, max_nc=6, big=True))


def run_heights(case, ctx):
    """Girths and upright heights of built sails, without solving."""
    from pySailingVLM.solver.additional_functions import get_cp_z_as_girths_all, get_cp_z_as_girths_all_above
    b = sut.build(case)
    g = ref.build(case)
    nc, ns = case["nc"], case["ns"]
    L = ref.lattice(g["panels"], g["te"], nc, ns)
    girths, upright = get_cp_z_as_girths_all(b["sail_set"], b["csys_transformations"], L["cp"].copy())
    above, names = get_cp_z_as_girths_all_above(girths, b["sail_set"])
    n, sails = nc * ns, ref.sail_names(case)
    A = ref.attitude(case)
    up = (L["cp"] @ A)[:, 2]
    want = np.concatenate([(up[k * n:(k + 1) * n] - ref.rig_points(case)[s][0][2]) / (up[k * n:(k + 1) * n].max() - ref.rig_points(case)[s][0][2])
                           for k, s in enumerate(sails)])
    sut.close(above, want, "girths of the above-water centres of pressure", 1e-9, max(1.0, sut.scale_of(want)))
    sut.require(list(names) == list(np.repeat(sails, n)), "sail names %s" % list(names)[:5])
    ctx.label(case["sails"])


SUBS = [
    Sub("saves", run_saves, saves, quick=390, thorough=4000, corners=corners, nontrivial=nontrivial,
        about="one to three saves of one or two yachts into new and existing folders, read back with openpyxl"),
    Sub("heights", run_heights, heights, quick=600, thorough=8000, corners=lambda: gen.corner_configs() + gen.fine_corners(), about="girths and names of built sails"),
]
