"""C21: hull lines and centre of lateral resistance."""
import numpy as np
from hypothesis import strategies as st

from pbt import ref, sut
from pbt.core import Sub
from pbt.gen import num

PROPERTY = "C21"
RULE = "a case counts when heel or leeway is not zero"
ASSUMPTIONS = ("the sheer is above the water",)

angle = st.one_of(num(-60, 60, 0.1), st.sampled_from([0.0, 10.0, -10.0, 5.0]))


@st.composite
def hulls(draw):
    return dict(sheer=draw(num(0.05, 6, 0.01)), base=draw(num(0.2, 12, 0.01)), heel=draw(angle), leeway=draw(angle),
                clr=[draw(num(-4, 4, 0.05)), draw(num(-2, 2, 0.05)), draw(st.one_of(num(-5, 0, 0.05), num(-5, 3, 0.05)))],
                ref=[draw(num(-2, 2, 0.5)) for _ in range(3)], default=draw(st.integers(0, 9)) == 0,
                style=draw(st.sampled_from([None, None, None, "whole", "strided", "readonly", "numpy"])))


def outline():
    """The upright hull for unit foretriangle base: centreline, port, starboard (x, y)."""
    x = np.linspace(0, 1, 51)
    m, t = 0.01, 0.28
    yc = m * (1 - x ** 2)
    slope = -2 * m * x
    last = np.where(1.0 - x < 1e-4, -0.1036, -0.1015)
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 + last * x ** 4)
    c, s = 1 / np.sqrt(1 + slope ** 2), slope / np.sqrt(1 + slope ** 2)
    place = lambda xx, yy: np.stack([-1.1 + 3 * xx, 3 * yy], axis=1)
    return place(x, 0 * x), place(x - yt * s, (yc + yt * c)[::-1]), place(x + yt * s, (yc - yt * c)[::-1])


def run(case, ctx):
    from pySailingVLM.yacht_geometry.hull_geometry import HullGeometry
    style = case.get("style")
    if style == "whole":
        case = dict(case, sheer=max(1.0, float(round(case["sheer"]))), base=max(1.0, float(round(case["base"]))), heel=float(round(case["heel"])), leeway=float(round(case["leeway"])),
                    clr=[float(round(x)) for x in case["clr"]])
    csys = sut.csys_of(case)
    clr = sut.styled(np.array(case["clr"]), style)
    size = [sut.styled(case[k], style) for k in ("sheer", "base")]
    h = HullGeometry(*size, csys) if case["default"] else HullGeometry(*size, csys, clr)
    if case["default"]:
        clr = np.zeros(3)
    A = ref.attitude(case)
    for name, xy in zip(("deck_centerline", "deck_port_line", "deck_starboard_line"), outline()):
        up = np.concatenate([case["base"] * xy, np.full((len(xy), 1), case["sheer"])], axis=1)
        got = np.asarray(getattr(h, name), float)
        sut.close(got, up @ A.T, name, 1e-11, 40.0)
        if name != "deck_centerline":
            sut.close(np.asarray(getattr(h, name + "_underwater"), float), got * ref.MIRROR, name + "_underwater", 1e-12, 40.0)
    sut.close(h.center_of_lateral_resistance, A @ clr, "centre of lateral resistance", 1e-12, 10.0)
    sut.require(case["default"] or (clr == case["clr"]).all(), "the keel data were modified")
    # distances within the yacht do not depend on the attitude
    up = HullGeometry(case["sheer"], case["base"], sut.csys_of(dict(case, heel=0.0, leeway=0.0)), np.array(case["clr"]))
    rigid = lambda k: np.concatenate([k.deck_port_line, k.deck_starboard_line, [k.center_of_lateral_resistance]])
    D = lambda Q: np.linalg.norm(Q[:, None] - Q[None], axis=2)
    if not case["default"]:
        sut.close(D(rigid(h)), D(rigid(up)), "distances within the yacht", 1e-11, 40.0)


SUBS = [Sub("hull", run, hulls, quick=6000, thorough=30000, nontrivial=lambda c: c["heel"] or c["leeway"],
            about="hull lines and keel centre in generated attitudes")]
