"""Writes MANIFEST.json from the properties that have a check module."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "independent kernels in closed form, compiled and interpreted code",
    "C02": "independent wind formulas",
    "C03": "Rodrigues rotations",
    "C04": "straight-line and independent not-a-knot interpolation, invariants of spline interpolation",
    "C05": "independent two-parabola camber line and invariants",
    "C06": "independently built sails",
    "C07": "exact reflection of the code's own above-water sails",
    "C08": "independently built panels, flags and areas",
    "C09": "independent lattice quantities on yachts and free grids",
    "C10": "no-flow at every control point, independent solution, refusal of corrupted solutions",
    "C11": "independent Kutta-Joukowski forces, pressures and coefficients",
    "C12": "metamorphic relations between two computations of the code",
    "C13": "totals recomputed from panel values, made-up force fields",
    "C14": "reflection of all panel values and vanishing flow through the water plane",
    "C15": "workbooks read back with openpyxl and compared with the tables and the solved case",
    "C16": "independent section sums on yachts and made-up fields",
    "C17": "independent vortex-lattice solution of the wing, equality with the sail solver, bands about lifting-line theory",
    "C18": "value preservation, defaults, independence of instances, and refusal of single corruptions",
    "C19": "whole command-line runs in child processes, with the delivered data compared with the library and the model",
    "C20": "sequences of steps over several cases against fresh computations and snapshots",
    "C21": "independent rotation of the hull lines and the keel centre",
    "C22": "matplotlib artists and map data compared with the solved case",
    "C23": "every output against the independent model",
    "C24": "the code cells of the packaged notebooks with edited parameters against the independent model",
}


def main():
    checks = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f if line.strip()]
    missing = []
    for i in ids:
        if not os.path.isfile(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
            missing.append(dict(property=i, reason="the check is still being built"))
            continue
        checks.append(dict(
            property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="property-based testing with Hypothesis: " + NOTE[i],
            level="exploration",
            level_note="Random and corner cases with shrinking to a replay file; holds for the cases explored. Oracle: %s. "
                       "Trusts numpy and scipy, and the domain limits named in DESIGN.md." % NOTE[i]))
    data = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=missing,
                notes="No hooks. Checks import the code from /repo's working tree and compile it in a scratch cache.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
