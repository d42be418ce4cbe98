"""C07: the underwater image."""
import numpy as np

from pbt import gen, ref, sut
from pbt.core import Sub, Violation
from pbt.props.c06 import large, nontrivial, shapes

PROPERTY = "C07"
RULE = "a case counts when heel or leeway is not zero and some sail is cambered or twisted"
ASSUMPTIONS = ("the whole sail stays above the water",)


def mirrored(P, idx):
    """Image panels, in the order of the panels they mirror, reflected back."""
    return (np.asarray(P, float)[idx] * ref.MIRROR)[:, [3, 2, 1, 0]]


def run(case, ctx):
    b = sut.build(case)
    s = b["sail_set"]
    nc, ns, k = case["nc"], case["ns"], len(s.sails)
    n = nc * ns * k
    P = np.asarray(s.panels, float)
    sut.require(P.shape == (2 * n, 4, 3), "%s panels for %d above water" % (P.shape, n))
    idx = ref.image_index(k, nc, ns)
    sut.close(mirrored(P, idx), P[:n], "mirrored underwater panels", 1e-11, 30.0)
    sut.require((P[:n, :, 2] > 0).all() and (P[n:, :, 2] < 0).all(), "real and image panels are not on their sides of the water")
    Z = np.asarray(s.zero_mesh, float)
    sut.require(Z.shape == P.shape, "unrotated mesh of shape %s" % (Z.shape,))
    sut.close(mirrored(Z, idx), Z[:n], "mirrored unrotated mesh", 1e-12, 30.0)
    te, le = np.asarray(s.trailing_edge_info), np.asarray(s.leading_edge_info)
    sut.require(te.shape == (2 * n,) and le.shape == (2 * n,), "edge flags of shapes %s and %s" % (te.shape, le.shape))
    sut.require((te[idx] == te[:n]).all() and (le[idx] == le[:n]).all(), "edge flags differ between panels and their images")
    one = ref.image_index(1, nc, ns) - nc * ns
    for sail in s.sails:
        sut.close(mirrored(sail.panels_under, one), sail.panels_above, "%s: mirrored underwater panels" % sail.name, 1e-11, 30.0)
        sut.close(mirrored(sail.panels_under_zero, one), sail.panels_above_zero, "%s: mirrored unrotated mesh" % sail.name, 1e-12, 30.0)
        sut.close(sail.panels, np.concatenate([sail.panels_above, sail.panels_under]), "%s: panels" % sail.name, 0.0)
    want = ref.build(case)
    sut.close(P[n:], want["panels"][n:], "underwater panels", 1e-10, 30.0)
    ctx.label(case["sails"])


SUBS = [Sub("image", run, shapes, quick=6000, thorough=30000, corners=large,
            nontrivial=nontrivial, about="panels, unrotated mesh and flags of generated configurations, image against original")]
