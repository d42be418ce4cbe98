"""C06: the built sails against the rig data."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sut
from pbt.core import Skip, Sub
from pbt.gen import num

PROPERTY = "C06"
RULE = "a case counts when heel or leeway is not zero and some sail is cambered or twisted"
ASSUMPTIONS = ("the whole sail stays above the water; the forestay leans aft (tack ahead of the mast)",
               "the averaged and smallest angles are taken over the sail's sections")


def run(case, ctx):
    sail_set = sut.build(case)["sail_set"]
    check(case, sail_set, ctx)


def check(case, sail_set, ctx):
    sails = sail_set.sails
    want = ref.build(case)
    names = [s["name"] for s in want["sails"]]
    sut.require([s.name for s in sails] == names, "sails %s instead of %s" % ([s.name for s in sails], names))
    nc, ns = case["nc"], case["ns"]
    A = ref.attitude(case)
    n = nc * ns
    for k, (got, w) in enumerate(zip(sails, want["sails"])):
        name = w["name"]
        P = np.asarray(got.panels_above, float)
        sut.require(P.shape == (n, 4, 3), "%s: panels of shape %s" % (name, P.shape))
        sut.close(got.tack_mounting, w["tack"], "%s: tack" % name, 1e-11, 30.0)
        sut.close(got.head_mounting, w["head"], "%s: head" % name, 1e-11, 30.0)
        # stated facts, on the panels themselves
        g = P.reshape(nc, ns, 4, 3)
        luff = np.concatenate([g[0, :, 1], g[0, -1:, 2]])
        t, h = A @ w["tack"], A @ w["head"]
        s = np.arange(ns + 1)[:, None] / ns
        sut.close(luff, t + s * (h - t), "%s: luff between tack and head" % name, 1e-10, 30.0)
        leech = np.concatenate([g[-1, :, 0], g[-1, -1:, 3]])
        sut.close(np.linalg.norm(leech - luff, axis=1), w["sections"]["chords"], "%s: chord lengths" % name, 1e-10, 30.0)
        tw = ref.effective_twist(w["sections"]["twist"], case["llt"])
        lines = np.concatenate([g[:, :, 1], g[:, -1:, 2]], axis=1)             # chordwise x spanwise, leading corners
        lines = np.concatenate([lines, leech[None]], axis=0)
        axis = (h - t) / np.linalg.norm(h - t)
        for j in range(ns + 1):
            # turning back by the prescribed angle leaves the section in the yacht's own frame
            back = ref.rot_about_line(lines[:, j], t, h, np.full(nc + 1, -np.deg2rad(tw[j]))) @ A
            c = w["sections"]["chords"][j]
            x = np.arange(nc + 1) / nc
            le = w["tack"] + (w["head"] - w["tack"]) * j / ns
            sut.close(back[:, 0] - le[0], c * x, "%s: chordwise places at section %d" % (name, j), 1e-10, 30.0)
            sut.close(back[:, 1], c * ref.camber_line(x, w["sections"]["camber"][j], w["sections"]["cpos"][j]),
                      "%s: camber at section %d" % (name, j), 1e-10, 30.0)
            sut.close(back[:, 2], np.full(nc + 1, le[2]), "%s: height of section %d" % (name, j), 1e-10, 30.0)
        sut.close(P, ref.panels_of(w["grid"]), "%s: panels" % name, 1e-10, 30.0)
        sut.close(got.panels_above_zero, ref.panels_of(w["zero"]), "%s: unrotated panels" % name, 1e-11, 30.0)
        sut.require((got.n_spanwise, got.n_chordwise) == (ns, nc), "%s: reports %sx%s panels" % (name, got.n_spanwise, got.n_chordwise))
        sut.close(np.asarray(sail_set.zero_mesh, float)[k * n:(k + 1) * n], ref.panels_of(w["zero"]),
                  "%s: reference shape" % name, 1e-11, 30.0)
    sut.close(np.asarray(sail_set.panels)[:len(names) * n], want["panels"][:len(names) * n], "panels of the set", 1e-10, 30.0)
    ctx.label(case["llt"])
    ctx.label(case["sails"])


def nontrivial(c):
    return (c["heel"] or c["leeway"]) and any(any(c[k]["camber"]) or any(c[k]["twist"]) for k in ("main", "jib"))


def large():
    return gen.corner_configs() + [gen.keep_dry(gen.rich_config(ns=40, nc=12)), gen.keep_dry(gen.default_config(ns=50, nc=3, heel=-30.0)),
                                   gen.keep_dry(gen.rich_config(rake=80.0, llt="average_const", ns=6, nc=9)),
                                   gen.keep_dry(gen.rich_config(rake=105.0, llt="sheeting_angle_const", heel=33.0))]


@st.composite
def shapes(draw):
    """Generated yachts, now and then with slivers of sails or hardly any twist, camber or taper."""
    c = draw(gen.configs(max_ns=9, max_nc=6, big=True))
    for k in ("main", "jib"):
        kind = draw(st.sampled_from([None] * 9 + ["sliver", "twist", "camber", "taper"]))
        small = draw(st.sampled_from([0.03, 0.01, 3e-3, 1e-3, 1e-4]))
        s = c[k]
        if kind == "sliver":
            s["chords"] = [x * small for x in s["chords"]]
        elif kind == "twist":
            s["twist"] = [s["twist"][0] + small * (x - s["twist"][0]) for x in s["twist"]]
        elif kind == "camber":
            s["camber"] = [x * small for x in s["camber"]]
        elif kind == "taper":
            s["chords"] = [s["chords"][0] + small * (x - s["chords"][0]) for x in s["chords"]]
    return c


# ---------------------------------------------------------------- sails made section by section
@st.composite
def by_hand(draw):
    """Sails given by their sections, as the sail factory takes them."""
    c = draw(gen.configs(max_ns=6, max_nc=4, flat=False))
    c["interp"] = "linear"
    n = c["ns"] + 1
    for k in ("main", "jib"):
        pick = lambda lo, hi, step: [draw(num(lo, hi, step)) for _ in range(n)]
        c[k] = dict(girths=[i / c["ns"] for i in range(n)], chords=pick(0.2, 5, 0.05), camber=pick(0.0, 0.29, 0.005), cpos=pick(0.06, 0.89, 0.01), twist=pick(-40, 60, 0.5))
        if c.get("style") == "whole":
            c[k]["chords"], c[k]["twist"] = [max(1.0, float(round(x))) for x in c[k]["chords"]], [float(round(x)) for x in c[k]["twist"]]
    kind = draw(st.sampled_from(["all", "all", "all", "untwisted", "no mode"]))
    return dict(config=gen.keep_dry(c), kind=kind, first=draw(st.booleans()), again=draw(st.booleans()))


def run_by_hand(case, ctx):
    from pySailingVLM.yacht_geometry.sail_factory import SailFactory
    from pySailingVLM.yacht_geometry.sail_geometry import SailSet
    c = case["config"]
    factory = SailFactory(csys_transformations=sut.csys_of(c), n_spanwise=c["ns"], n_chordwise=c["nc"], rake_deg=c["rake"], sheer_above_waterline=c["sheer"])
    given = {}

    def make(name):
        x = given.setdefault(name, {k: sut.styled(np.array(c["jib" if name == "jib" else "main"][k], float), c.get("style")) for k in ("chords", "camber", "cpos", "twist")})
        twist = dict(LLT_twist=None if case["kind"] == "no mode" else c["llt"], sail_twist_deg=None if case["kind"] == "untwisted" else x["twist"],
                     interpolated_camber=x["camber"], interpolated_distance_from_luff=x["cpos"])
        if name == "jib":
            return factory.make_jib(jib_luff=c["jib_luff"], foretriangle_base=c["ft_base"], foretriangle_height=c["ft_height"], jib_chords=x["chords"],
                                    mast_LOA=c["mast_LOA"], **twist)
        return factory.make_main_sail(main_sail_luff=c["main_luff"], boom_above_sheer=c["boom"], main_sail_chords=x["chords"], **twist)
    names = ref.sail_names(c)
    made = {n: make(n) for n in (names if case["first"] else names[::-1])}
    if case["again"]:
        again = {n: make(n) for n in names}
        for n in names:
            sut.require((np.asarray(again[n].panels) == np.asarray(made[n].panels)).all(), "%s: made twice from the same sections, other panels" % n)
        ctx.label("made twice")
    for n, x in given.items():
        for k, v in x.items():
            sut.require(v.tolist() == [float(q) for q in c["jib" if n == "jib" else "main"][k]], "%s: making it changed the given %s" % (n, k))
    if case["kind"] != "all":
        for k in ("main", "jib"):
            c = dict(c, **{k: dict(c[k], twist=[0.0] * (c["ns"] + 1))})
    if ref.lowest_point(c) < 0.01:
        raise Skip("not above the water without its twist")
    check(c, SailSet([made[n] for n in names]), ctx)
    ctx.label(case["kind"])


SUBS = [Sub("by_hand", run_by_hand, by_hand, quick=1500, thorough=10000, nontrivial=lambda x: nontrivial(x["config"]),
            about="sails made by the sail factory from given sections, with and without twist"),
        Sub("sail", run, shapes, quick=6000, thorough=25000, corners=large,
            nontrivial=nontrivial, about="sails built from generated configurations, against the rig data")]
