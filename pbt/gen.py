"""Hypothesis strategies for configurations.  A configuration is a JSON object:

ns, nc, interp, llt | leeway, heel, SOG, tws, alpha, profile, ref_h, exp, ref_water, roughness,
rho | main_luff, jib_luff, ft_height, ft_base, sheer, boom, rake, mast_LOA, sails |
main / jib {girths, chords, camber, cpos, twist} | ref (moment reference), clr (keel centre)

Domain (what every caller respects): sails entirely above the water, cambers 0..30 % at 5..90 %
of the chord, positive chords, heights above the roughness height, apparent wind not zero, the
tack ahead of the mast."""
import math

import numpy as np
from hypothesis import strategies as st

from . import ref


def num(lo, hi, step=0.001):
    """Decimal numbers on a grid: readable cases, good shrinking, end points included."""
    a, b = math.ceil(lo / step - 1e-9), math.floor(hi / step + 1e-9)
    digits = max(0, -int(math.floor(math.log10(step) + 1e-9)))
    return st.integers(a, b).map(lambda k: round(k * step, digits))


@st.composite
def girth_stations(draw, least, most, fine=False):
    n = draw(st.integers(least, most)) - 2
    if fine and n > 0 and draw(st.booleans()):
        inner = draw(st.lists(st.integers(1, 499), min_size=n, max_size=n, unique=True))
        return [0.0] + [round(k / 500, 3) for k in sorted(inner)] + [1.0]
    inner = draw(st.lists(st.integers(1, 19), min_size=n, max_size=n, unique=True)) if n > 0 else []
    return [0.0] + [round(k / 20, 2) for k in sorted(inner)] + [1.0]


@st.composite
def distribution(draw, girths, lo, hi, kinds=("constant", "linear", "curved", "rough")):
    """Values at the girths inside [lo, hi]."""
    kind = draw(st.sampled_from(kinds))
    v = num(lo, hi, 0.001 if hi - lo < 5 else 0.05)
    if kind == "constant":
        return [draw(v)] * len(girths)
    if kind == "rough":
        return [draw(v) for _ in girths]
    a, b = draw(v), draw(v)
    c = draw(num(-0.5, 0.5, 0.01)) if kind == "curved" else 0.0
    out = [a + (b - a) * g + c * (hi - lo) * g * (1 - g) for g in girths]
    return [round(min(max(x, lo), hi), 5) for x in out]


def inside(interp, girths, values, n, lo, hi):
    """Inside with room for rounding, so that the code's own range checks cannot trip on it."""
    x = ref.at_sections(interp, girths, values, n)
    room = 1e-6 * max(abs(lo), abs(hi))
    if lo == 0.0 and not any(values):
        return True
    return float(x.min()) >= lo + room and float(x.max()) <= hi - room


def tame(interp, girths, values, n, lo, hi):
    """Spline overshoot out of the physical range: fall back to the straight line between ends."""
    if inside(interp, girths, values, n, lo, hi):
        return values
    a, b = values[0], values[-1]
    return [round(a + (b - a) * g, 5) for g in girths]


@st.composite
def sail(draw, interp, ns, root_lo, root_hi, flat=None, wide=False):
    girths = draw(girth_stations(4 if interp == "spline" else 2, 11 if wide else 7, wide and interp == "linear"))
    n = ns + 1
    if wide:
        root_lo = draw(st.sampled_from([root_lo, 0.04]))
    chords = draw(distribution(girths, root_lo, root_hi, ("linear", "curved", "rough", "constant")))
    chords = tame(interp, girths, chords, n, 0.7 * root_lo, 1.4 * root_hi)
    flat = draw(st.booleans()) and draw(st.booleans()) if flat is None else flat
    camber = [0.0] * len(girths) if flat else draw(distribution(girths, 0.001, 0.29))
    camber = tame(interp, girths, camber, n, 0.0, 0.3)
    cpos = [0.5] * len(girths) if flat else draw(distribution(girths, *(0.01, 0.899) if wide else (0.08, 0.88)))
    cpos = tame(interp, girths, cpos, n, 0.005 if wide else 0.06, 0.9)
    twist = draw(distribution(girths, *draw(st.sampled_from([(-60.0, 80.0), (-60.0, 80.0), (-120.0, 150.0)] if wide else [(0.0, 30.0), (-20.0, 40.0), (2.0, 15.0)]))))
    twist = tame(interp, girths, twist, n, *(-170.0, 170.0) if wide else (-90.0, 80.0))
    return dict(girths=girths, chords=chords, camber=camber, cpos=cpos, twist=twist)


USUAL = dict(heel=[(-35, 35), (-35, 35), (-60, 60)], leeway=(-15, 15), alpha=[(0, 180), (0, 180), (0, 180), (-180, 360)], tws=(0, 15), SOG=(0, 10),
             ref_h=(2, 20), exp=(0, 0.4), ref_water=(0, 2), roughness=(0.0001, 0.03), rho=(0.5, 2), rake=(75, 110), sheer=(0.2, 3), boom=(0, 2.5),
             main_luff=(4, 25), jib_luff=(3, 20), ft_height=(4, 20), ft_base=(1.5, 6), mast_LOA=(0, 0.5), ref=(3, 1.5, 4), clr=(3, 1, 3))
# one case in six: settings nobody sails with, but which the model covers all the same
WIDE = dict(heel=[(-70, 70)], leeway=(-45, 45), alpha=[(-180, 360)], tws=(0, 40), SOG=(-4, 25),
            ref_h=(0.5, 60), exp=(0, 1), ref_water=(0, 10), roughness=(0.0001, 0.15), rho=(0.05, 1100), rake=(60, 125), sheer=(0.05, 6), boom=(-0.5, 5),
            main_luff=(1, 45), jib_luff=(1, 40), ft_height=(1.5, 40), ft_base=(0.5, 12), mast_LOA=(0, 2), ref=(15, 6, 15), clr=(10, 4, 8))


# one case in seven: some settings at values people do use, where formulas often have a special case
SPECIAL = dict(heel=[0.0, 0.0, 10.0, -10.0, 30.0], leeway=[0.0, 0.0, 5.0, -5.0], alpha=[0.0, 45.0, 90.0, 135.0, 180.0], SOG=[0.0, 5.0], tws=[0.0, 5.0, 10.0],
               exp=[0.0, 0.1428, 1.0], ref_water=[0.0, -1.0], rho=[1.0, 1.225, 1025.0], rake=[90.0, 92.0], boom=[0.0, 1.0], mast_LOA=[0.0], ref_h=[10.0],
               roughness=[0.05, 0.001], clr=[[0.0, 0.0, -1.0], [0.0, 1.0, -1.0], [1.0, 0.0, -2.0]],
               ref=[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 0.0, 0.0], [2.0, 2.0, 2.0]],
               square=[True], single=[True], same=[True], calm=[True], low=[True, True], even=["main", "jib"], hollow=["main", "jib"], level=["main", "jib"], plain=["main", "jib"])


def specialise(c, k, v, keep_n, fixed):
    """Set one special value; every result stays inside the domain."""
    if k in fixed:
        return
    if k == "square":
        if not keep_n:
            c["nc"] = c["ns"] = min(c["nc"], c["ns"])
    elif k == "single":
        if not keep_n:
            c["ns"] = 1
    elif k == "same":
        c["jib"] = {n: list(x) for n, x in c["main"].items()}
        c["jib_luff"] = c["main_luff"]
    elif k == "low":                                    # a small rig close to the water
        c.update(sheer=0.05, boom=0.0, main_luff=round(min(c["main_luff"], 3.0), 2), jib_luff=round(min(c["jib_luff"], 2.0), 2))
    elif k == "calm":
        c["SOG"] = c["tws"]
    elif k == "even":                                   # evenly spaced stations, as many as sections when that is enough
        n = len(c[v]["girths"])
        if all(len(set(c[v][x])) == 1 or c["interp"] == "linear" for x in ("chords", "camber", "cpos", "twist")):
            c[v]["girths"] = [round(i / (n - 1), 6) for i in range(n)]
    elif k == "hollow":                                 # flat in places
        if c["interp"] == "linear" and any(c[v]["camber"]):
            c[v]["camber"] = [0.0 if i % 2 == len(c[v]["camber"]) % 2 else x for i, x in enumerate(c[v]["camber"])]
    elif k == "level":
        c[v]["twist"] = [0.0] * len(c[v]["girths"])
    elif k == "plain":
        c[v]["chords"] = [c[v]["chords"][0]] * len(c[v]["girths"])
        c[v]["camber"] = [0.0] * len(c[v]["girths"])
    else:
        c[k] = list(v) if isinstance(v, list) else v


def make_whole(c, heel=True, alpha=True):
    """Whole numbers where they make sense, so that they can be given as integers (see sut.styled)."""
    for k, least in (("leeway", None), ("SOG", None), ("tws", None), ("ref_h", 1), ("ref_water", None), ("rake", None), ("sheer", 1), ("boom", None),
                     ("main_luff", 1), ("jib_luff", 1), ("ft_height", 1), ("mast_LOA", None)) + ((("heel", None),) if heel else ()) + ((("alpha", None),) if alpha else ()):
        c[k] = float(round(c[k])) if least is None else max(float(round(c[k])), float(least))
    c["ft_base"] = float(math.ceil(max(c["ft_base"], 1.1 * c["ft_height"] * math.cos(math.radians(c["rake"])))))
    for k in ("ref", "clr"):
        c[k] = [float(round(x)) for x in c[k]]
    c["clr"][2] = min(c["clr"][2], -1.0)
    for n in ("main", "jib"):
        s = c[n]
        if c["interp"] == "linear" or len(set(s["chords"])) == 1:
            s["chords"] = [max(1.0, float(round(x))) for x in s["chords"]]
        else:
            s["chords"] = [max(1.0, float(round(s["chords"][0])))] * len(s["chords"])
        if c["interp"] == "linear" or len(set(s["twist"])) == 1:
            s["twist"] = [float(round(x)) for x in s["twist"]]
        else:                                            # in proportion to the girths rounding would bend the spline: keep it level, but for the foot
            s["twist"] = [float(round(s["twist"][0]))] * len(s["twist"])
    return c


@st.composite
def configs(draw, max_ns=5, max_nc=4, profiles=("exponential", "logarithmic", "flat"), flat=None,
            sails=("jib", "main", "jib_and_main"), min_ns=1, min_nc=1, heel=None, alpha=None,
            near_wind=True, big=False, wide=True, styles=True):
    c = {}
    wide = wide and draw(st.sampled_from([False] * 5 + [True]))
    big = big and draw(st.sampled_from([False] * 15 + [True]))
    B = WIDE if wide else USUAL
    c["sails"] = draw(st.sampled_from(sails))
    c["ns"] = draw(st.integers(min_ns, 3 * max_ns if big else max_ns))
    c["nc"] = draw(st.integers(min_nc, 2 * max_nc if big else max_nc))
    c["interp"] = draw(st.sampled_from(["linear", "spline"]))
    c["llt"] = draw(st.sampled_from(["real_twist", "real_twist", "average_const", "sheeting_angle_const"]))
    c["heel"] = draw(st.one_of(*[num(a, b, 0.5) for a, b in B["heel"]]) if heel is None else heel)
    c["leeway"] = draw(num(*B["leeway"], 0.5))
    c["profile"] = draw(st.sampled_from(profiles))
    c["alpha"] = draw(num(alpha[0], alpha[1], 0.5) if alpha else st.one_of(*[num(a, b, 0.5) for a, b in B["alpha"]]))
    c["tws"] = draw(num(*B["tws"], 0.05))
    c["SOG"] = draw(num(*B["SOG"], 0.05))
    c["ref_h"] = draw(num(*B["ref_h"], 0.5))
    c["exp"] = draw(num(*B["exp"], 0.0001))
    c["ref_water"] = -draw(num(*B["ref_water"], 0.05))
    c["roughness"] = draw(num(*B["roughness"], 0.0001))
    c["rho"] = draw(num(*B["rho"], 0.005))
    c["rake"] = draw(num(*B["rake"], 0.5))
    c["sheer"] = draw(num(*B["sheer"], 0.05))
    c["boom"] = draw(num(*B["boom"], 0.05))
    c["main_luff"] = draw(num(*B["main_luff"], 0.1))
    c["jib_luff"] = draw(num(*B["jib_luff"], 0.1))
    c["ft_height"] = draw(num(*B["ft_height"], 0.1))
    least = 1.1 * c["ft_height"] * math.cos(math.radians(c["rake"]))
    c["ft_base"] = draw(num(*B["ft_base"], 0.05))
    if c["ft_base"] < least:
        c["ft_base"] = round(least + 0.05, 2)
    c["mast_LOA"] = draw(num(*B["mast_LOA"], 0.01))
    c["main"] = draw(sail(c["interp"], c["ns"], 0.6, 5.0, flat, wide))
    c["jib"] = draw(sail(c["interp"], c["ns"], 0.6, 4.0, flat, wide))
    shifted = draw(st.booleans())
    x, y, z = B["ref"]
    c["ref"] = [draw(num(-x, x, 0.1)), draw(num(-y, y, 0.1)), draw(num(-z / 2, z, 0.1))] if shifted else [0.0, 0.0, 0.0]
    x, y, z = B["clr"]
    c["clr"] = [draw(num(-x, x, 0.1)), draw(num(-y, y, 0.1)), -draw(num(0.1, z, 0.1))]
    if draw(st.sampled_from([False] * 6 + [True])):
        keep_n = min_ns > 1 or min_nc > 1
        fixed = {"heel"} if heel is not None else set()
        fixed |= {"alpha"} if alpha is not None else set()
        fixed |= {"hollow", "plain"} if flat is not None else set()
        for k in draw(st.lists(st.sampled_from(sorted(SPECIAL)), min_size=1, max_size=8, unique=True)):
            specialise(c, k, draw(st.sampled_from(SPECIAL[k])), keep_n, fixed)
    style = draw(st.sampled_from([None] * 16 + ["whole", "whole", "strided", "reversed", "readonly", "numpy"])) if styles else None
    if style:
        c["style"] = style
    if style == "whole":
        make_whole(c, heel is None, alpha is None)
    return keep_windy(keep_dry(c, max(0.15, 1.5 * c["roughness"])))


def keep_dry(c, clearance=0.15):
    """Raise the rig until the lowest sail point clears the water."""
    for _ in range(6):
        low = ref.lowest_point(c)
        if low >= clearance:
            break
        up = math.sin(math.radians(c["rake"])) * math.cos(math.radians(c["heel"]))
        c["sheer"] = round(c["sheer"] + math.ceil((clearance - low) / up * 20 + 0.5) / 20, 2)
    return c


def wing_config(half=5.0, chord=2.0, sweep=45.0, taper=1.0, alpha=4.0, camber=0.0, cpos=0.5, twist=(0.0, 0.0), **over):
    """A (swept) wing standing on the water plane, which closes it to the full wing, as the example notebooks use the main sail."""
    g = [0.0, 0.25, 0.5, 0.75, 1.0]
    s = dict(girths=g, chords=[round(chord * (1 + (taper - 1) * x), 6) for x in g], camber=[camber] * 5, cpos=[cpos] * 5,
             twist=[round(twist[0] + (twist[1] - twist[0]) * x, 6) for x in g])
    c = default_config(sails="main", ns=4, nc=1, interp="linear", heel=0.0, leeway=0.0, profile="flat", alpha=alpha, tws=1.0, SOG=0.0, rho=1.0, exp=0.0,
                       sheer=0.0, boom=0.0, mast_LOA=0.0, rake=90.0 + sweep, main_luff=half / math.cos(math.radians(sweep)))
    c["main"] = s
    c.update(over)
    return c


@st.composite
def wing_configs(draw, max_ns=8, max_nc=4):
    """Twist only where it does not dip the root into the water (a luff square to it)."""
    half = draw(num(2, 30, 0.5))
    sweep = draw(st.sampled_from([0.0, 0.0, 30.0, 45.0]) | num(-30, 60, 1))
    bent = draw(st.sampled_from([0.0, 0.0]) | num(0.005, 0.15, 0.005))
    twist = (draw(num(-10, 30, 1)), draw(num(-10, 30, 1))) if sweep == 0 and draw(st.booleans()) else (0.0, 0.0)
    return wing_config(half=half, chord=round(2 * half / draw(st.sampled_from([2.0, 5.0, 8.0]) | num(1, 16, 0.5)), 6), sweep=sweep, taper=draw(st.sampled_from([1.0]) | num(0.3, 1.2, 0.05)),
                       alpha=draw(st.sampled_from([4.0, 4.2, 0.001]) | num(0.5, 20, 0.5) | num(-90, 180, 1)), camber=bent, cpos=draw(num(0.2, 0.8, 0.05)), twist=twist,
                       ns=draw(st.integers(1, max_ns)), nc=draw(st.integers(1, max_nc)), interp=draw(st.sampled_from(["linear", "spline"])),
                       llt=draw(st.sampled_from(["real_twist", "average_const", "sheeting_angle_const"])), tws=draw(st.sampled_from([1.0]) | num(0.5, 20, 0.5)),
                       rho=draw(st.sampled_from([1.0, 1.225])), leeway=draw(st.sampled_from([0.0, 0.0]) | num(-10, 10, 0.5)), profile=draw(st.sampled_from(["flat", "flat", "exponential"])),
                       exp=draw(st.sampled_from([0.0, 0.14])), SOG=draw(st.sampled_from([0.0, 0.0, 2.0])), ref=draw(st.sampled_from([[0.0, 0.0, 0.0], [1.0, -0.5, 2.0]])))


def yachts_and_wings(**kw):
    """One wing among eleven yachts."""
    return st.sampled_from([False] * 11 + [True]).flatmap(lambda wing: wing_configs() if wing else configs(**kw))


def wing_corners():
    """The notebooks' wings (Bertin's and Falkner's), at the size where the absolute vortex core does not matter."""
    return [wing_config(half=h, chord=c, sweep=s, alpha=a, ns=ns, nc=nc) for h, c, s, a, ns, nc in
            ((0.5, 0.2, 45.0, 4.2, 4, 1), (0.5, 0.2, 45.0, 0.001, 4, 1), (50.0, 50.0, 0.0, 4.0, 21, 6), (50.0, 50.0, 30.0, 4.0, 21, 6), (50.0, 50.0, 45.0, 4.0, 21, 6), (50.0, 50.0, 30.0, 4.0, 10, 1), (50.0, 20.0, 0.0, 4.0, 24, 2), (40.0, 10.0, -20.0, 10.0, 6, 9))]


def scaled(c, k):
    """The same yacht k times as large, which keeps fine meshes clear of the (absolute) vortex core."""
    for q in ("sheer", "boom", "main_luff", "jib_luff", "ft_height", "ft_base"):
        c[q] = c[q] * k
    c["ref"], c["clr"] = [x * k for x in c["ref"]], [x * k for x in c["clr"]]
    for s in ("main", "jib"):
        c[s]["chords"] = [x * k for x in c[s]["chords"]]
    return c


def fine_corners():
    """Meshes much finer than the generated ones."""
    light = dict(tws=2.0, SOG=1.3)
    return [keep_dry(scaled(default_config(ns=24, nc=6), 12.0)), keep_dry(scaled(rich_config(ns=20, nc=5, **light), 12.0)),
            keep_dry(scaled(rich_config(ns=65, nc=2, sails="main", **light), 20.0)), keep_dry(scaled(default_config(ns=5, nc=14, sails="jib", **light), 15.0))]


def keep_windy(c):
    """Avoid a calm: the apparent wind must not vanish anywhere on the sails."""
    h = np.linspace(max(0.05, 1.2 * c["roughness"]), 100.0, 90)
    if float(np.linalg.norm(ref.apparent_wind(c, h), axis=1).min()) < 0.5:
        c["SOG"] = round(c["SOG"] + 1.0, 2)
        if float(np.linalg.norm(ref.apparent_wind(c, h), axis=1).min()) < 0.5:
            c["SOG"], c["tws"] = 1.0, min(c["tws"], 12.0)
            c["alpha"] = min(abs(c["alpha"]), 90.0)
    return c


def default_config(**over):
    """The packaged example yacht on a small mesh."""
    mg, jg = [0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 1.0], [0.0, 0.25, 0.5, 0.75, 1.0]
    c = dict(sails="jib_and_main", ns=4, nc=3, interp="spline", llt="real_twist", heel=10.0, leeway=5.0,
             profile="exponential", alpha=50.0, tws=4.63, SOG=4.63, ref_h=10.0, exp=0.1428, ref_water=-0.0,
             roughness=0.05, rho=1.225, rake=92.0, sheer=1.2, boom=1.3, main_luff=12.4, jib_luff=10.0,
             ft_height=11.5, ft_base=3.9, mast_LOA=0.15, ref=[0.0, 0.0, 0.0], clr=[0.0, 0.0, -1.0],
             main=dict(girths=mg, chords=[4.0, 3.82, 3.64, 3.2, 2.64, 2.32, 2.0], camber=[0.05] * 7,
                       cpos=[0.5] * 7, twist=[5 + 12 * g for g in mg]),
             jib=dict(girths=jg, chords=[3.8, 2.98, 2.15, 1.33, 0.5], camber=[0.05] * 5,
                      cpos=[0.5] * 5, twist=[7 + 15 * g for g in jg]))
    c.update(over)
    return c


def rich_config(**over):
    """Every parameter away from its special value."""
    c = default_config(heel=-12.5, leeway=-6.0, rake=86.5, ref=[0.7, -0.4, 1.3], ref_water=-0.4, ns=3, nc=2,
                       clr=[0.3, 0.1, -1.4], alpha=72.0, SOG=3.1, interp="linear")
    c["main"] = dict(girths=[0.0, 0.3, 0.7, 1.0], chords=[4.1, 3.9, 2.7, 1.1], camber=[0.04, 0.13, 0.09, 0.02],
                     cpos=[0.3, 0.45, 0.5, 0.62], twist=[3.0, 9.0, 11.0, 21.0])
    c["jib"] = dict(girths=[0.0, 0.5, 1.0], chords=[3.5, 2.2, 0.8], camber=[0.1, 0.06, 0.03],
                    cpos=[0.42, 0.37, 0.55], twist=[8.0, 13.0, 24.0])
    c.update(over)
    return c


def corner_configs():
    out = []
    for base in (default_config, rich_config):
        for sails in ("jib", "main", "jib_and_main"):
            for ns, nc in ((3, 2), (1, 1), (1, 3), (4, 1)):
                out.append(base(sails=sails, ns=ns, nc=nc))
    for profile in ("logarithmic", "flat"):
        out.append(rich_config(profile=profile, roughness=0.01))
    for llt in ("average_const", "sheeting_angle_const"):
        out.append(rich_config(llt=llt))
    out.append(rich_config(alpha=165.0, tws=9.0, SOG=2.0))
    out.append(default_config(heel=0.0, leeway=0.0))
    low = dict(sheer=0.05, boom=0.0, main_luff=2.5, jib_luff=2.0, ns=5)
    out += [default_config(**low), rich_config(sails="main", profile="logarithmic", roughness=0.01, **low)]
    tall = dict(sheer=4.0, boom=4.0, main_luff=44.0, jib_luff=38.0, ft_height=40.0, ft_base=11.0)
    out += [default_config(**tall), rich_config(sails="jib", tws=16.0, **tall)]
    out.append(rich_config(heel=0.3, leeway=-0.2, rake=90.0))
    out.append(rich_config(heel=25.0, leeway=-8.0, alpha=-60.0))
    out += [default_config(ns=12, nc=3), rich_config(sails="main", ns=3, nc=9)]
    return [keep_dry(c) for c in out]
