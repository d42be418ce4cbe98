"""The code under test, driven through its documented workflow (as the notebooks and the
command line do), and comparison helpers."""
import numpy as np

from .core import Skip, Violation
from . import ref


def styled(x, style):
    """The same value as a user's program may hold it: whole numbers as integers, a view into a larger array, read-only, NumPy scalars."""
    if not style or isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, np.ndarray):
        if style == "whole" and x.dtype == float and (x == np.round(x)).all():
            return x.astype(int)
        if style == "strided":
            y = np.full((2 * len(x) + 1,) + x.shape[1:], 77.0)
            y[1::2] = x
            return y[1::2]
        if style == "reversed":
            return x[::-1].copy()[::-1]
        if style == "readonly":
            x = x.copy()
            x.setflags(write=False)
        return x
    if style == "whole" and isinstance(x, float) and x == int(x):
        return int(x)
    if style == "numpy" and isinstance(x, float):
        return np.float64(x)
    return x


def containers(case):
    style = case.get("style")
    case = {k: v if k in ("rho", "ns", "nc") else styled(v, style) for k, v in case.items()}
    return containers_of(case, style)


def containers_of(case, style):
    from pySailingVLM.runner.container import Conditions, Csys, JibSail, Keel, MainSail, Rig, Solver
    solver = Solver(n_spanwise=case["ns"], n_chordwise=case["nc"], interpolation_type=case["interp"])
    solver.LLT_twist = case["llt"]
    conditions = Conditions(
        leeway_deg=case["leeway"], heel_deg=case["heel"], SOG_yacht=case["SOG"], tws_ref=case["tws"],
        alpha_true_wind_deg=case["alpha"], reference_water_level_for_wind_profile=case["ref_water"],
        wind_exp_coeff=case["exp"], wind_reference_measurment_height=case["ref_h"], rho=case["rho"],
        wind_profile=case["profile"], roughness=case["roughness"])
    rig = Rig(main_sail_luff=case["main_luff"], jib_luff=case["jib_luff"], foretriangle_height=case["ft_height"],
              foretriangle_base=case["ft_base"], sheer_above_waterline=case["sheer"],
              boom_above_sheer=case["boom"], rake_deg=case["rake"], mast_LOA=case["mast_LOA"],
              sails_def=case["sails"])
    main = MainSail(**sail_args(case["main"], style))
    jib = JibSail(**sail_args(case["jib"], style))
    return dict(solver=solver, conditions=conditions, rig=rig, main=main, jib=jib,
                csys=Csys(reference_level_for_moments=styled(np.array(case["ref"], float), style)),
                keel=Keel(center_of_lateral_resistance_upright=styled(np.array(case["clr"], float), style)))


def sail_args(s, style=None):
    out = dict(girths=np.array(s["girths"]), chords=np.array(s["chords"]), camber=np.array(s["camber"]),
               camber_distance_from_luff=np.array(s["cpos"]), centerline_twist_deg=np.array(s["twist"]))
    return {k: styled(v, style) for k, v in out.items()}


def csys_of(case):
    from pySailingVLM.rotations.csys_transformations import CSYS_transformations
    style = case.get("style")
    return CSYS_transformations(styled(case["heel"], style), styled(case["leeway"], style),
                                v_from_original_xyz_2_reference_csys_xyz=styled(np.array(case["ref"], float), style))


def build(case, c=None):
    """Sail set etc. without solving."""
    from pySailingVLM.runner.sail import Sail, Wind
    c = c or containers(case)
    csys = csys_of(case)
    wind = Wind(c["conditions"])
    sail = Sail(c["solver"], c["rig"], c["main"], c["jib"], csys)
    out = dict(c, csys_transformations=csys, wind=wind, sail=sail, sail_set=sail.sail_set, profile=wind.profile)
    return out


def vlm_of(case, b):
    from pySailingVLM.solver.vlm import Vlm
    s = b["sail_set"]
    return Vlm(s.panels, case["nc"], case["ns"], case["rho"], b["profile"], s.trailing_edge_info,
               s.leading_edge_info)


def results_of(b, vlm):
    from pySailingVLM.results.inviscid_flow import InviscidFlowResults
    return InviscidFlowResults(b["sail_set"], b["csys_transformations"], vlm)


def hull_of(case, b):
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    return HullGeometry(styled(case["sheer"], case.get("style")), styled(case["ft_base"], case.get("style")), b["csys_transformations"],
                        b["keel"].center_of_lateral_resistance_upright)


def solved(case, keel=True):
    """(built, Vlm, results) of a case inside the solver's domain; Skip outside of it."""
    r = ref.run(case)
    domain(r)
    b = build(case)
    vlm = vlm_of(case, b)
    res = results_of(b, vlm)
    if keel:
        hull = hull_of(case, b)
        b["hull"] = hull
        res.estimate_heeling_moment_from_keel(hull.center_of_lateral_resistance)
    return r, b, vlm, res


NO_FLOW_TOLERANCE = 1e-12
ROUNDING = 20 * 2.3e-16         # residual of a backward stable solution, relative to |A||gamma|


def domain(r, core_margin=True):
    """The solver documents two absolute limits: the vortex core and the no-flow tolerance."""
    if not np.isfinite(r["gamma"]).all():
        raise Skip("singular lattice")
    if r["cond"] > 1e5:
        raise Skip("sails so close that the lattice is ill-conditioned")
    if r["slack"] * ROUNDING > NO_FLOW_TOLERANCE:
        raise Skip("rounding alone could exceed the solver's no-flow tolerance")
    if core_margin and r["near"] < 1e-7:
        raise Skip("a point lies close to another vortex's core")


def scale_of(*arrays):
    s = 0.0
    for a in arrays:
        a = np.asarray(a, float)
        a = a[np.isfinite(a)]
        if a.size:
            s = max(s, float(np.abs(a).max()))
    return s


def close(actual, expected, what, tol=1e-8, scale=None, floor=0.0):
    """Whole-array comparison relative to the largest expected magnitude."""
    try:
        a = np.asarray(actual, float)
    except (TypeError, ValueError) as e:
        raise Violation("%s: not numeric (%s)" % (what, e))
    e = np.asarray(expected, float)
    if a.shape != e.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, e.shape))
    if a.size == 0:
        return
    s = scale_of(e) if scale is None else scale
    limit = tol * s + floor
    d = np.abs(a - e)
    d = np.where(np.isfinite(a) & np.isfinite(e), d, np.where(np.isnan(a) & np.isnan(e) | (a == e), 0.0, np.inf))
    if not (d <= limit).all():
        k = np.unravel_index(int(np.argmax(d)), d.shape) if d.shape else ()
        raise Violation("%s: %r, expected %r at index %s (off by %.3g, allowed %.3g)"
                        % (what, float(a[k]), float(e[k]), tuple(int(i) for i in k), float(d[k]), limit))


def require(cond, message):
    if not cond:
        raise Violation(message)


def refused(fn, what, errors=Exception):
    """`fn` must end with an error (an exception or a process exit), not with a result."""
    try:
        fn()
    except SystemExit:
        return
    except errors:
        return
    raise Violation("%s was not refused" % what)


def warm():
    """Compile the kernels once, before the workers are forked."""
    from . import gen
    c = gen.default_config(ns=2, nc=2)
    b = build(c)
    results_of(b, vlm_of(c, b))


def uniform_wind(V):
    """A wind profile blowing with the same velocity everywhere, in any direction."""
    from pySailingVLM.inlet.winds import FlatWindProfile

    class Uniform(FlatWindProfile):
        def __init__(self):
            super().__init__(0.0, 0.0, 0.0)

        def get_true_wind_speed_at_h(self, height):
            return np.array(V, float)

    return Uniform()


def vlm_on(grids, V, rho, wind=None, order=None):
    """Solve arbitrary panel grids (nc+1, ns+1, 3) in one wind."""
    from pySailingVLM.solver.vlm import Vlm
    nc, ns = grids[0].shape[0] - 1, grids[0].shape[1] - 1
    P = np.concatenate([ref.panels_of(g) for g in grids])
    row = np.tile(np.repeat(np.arange(nc), ns), len(grids))
    return Vlm(P, nc, ns, rho, wind if wind is not None else uniform_wind(V), row == nc - 1, (row == 0) & (nc > 1))


def te_of(nc, ns, blocks):
    return np.tile(np.repeat(np.arange(nc), ns), blocks) == nc - 1
