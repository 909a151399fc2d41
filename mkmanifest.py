"""Writes MANIFEST.json from the check modules (run after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {
    "stencil": "Random search with a fixed number of cases per run: assures what the evidence file counts, against an independent float64 reference with a derived rounding bound; no proof for configurations not drawn. Trusts numpy and the compiler that pystencils calls.",
    "solver": "Random search against a dense direct reference in float64 with a derived rounding bound. Trusts numpy; grids are small because the reference is quadratic.",
    "io": "Random histories against a dictionary model; files are written and read for real in a scratch directory. Trusts h5py for reading back in the XDMF check.",
    "ib": "Random node sets against a reference that evaluates the delta function on the whole grid. The numba decorators are replaced by the identity (numba is not installed): the Python source is what is decided.",
    "other": "Random search over invalid configurations and mismatched arguments; refusal is any ValueError, TypeError or AssertionError.",
}
KIND = {**{"C%02d" % i: "stencil" for i in range(1, 13)}, "C13": "solver", "C14": "solver", "C15": "solver", "C16": "stencil",
        **{"C%02d" % i: "io" for i in range(17, 21)}, **{"C%02d" % i: "ib" for i in range(21, 25)}, "C25": "other"}
TECH = {"stencil": "property-based testing (Hypothesis): differential against a reference model, metamorphic laws",
        "solver": "property-based testing (Hypothesis): differential against a direct reference",
        "io": "stateful model-based property testing (Hypothesis)", "ib": "property-based testing (Hypothesis): differential and conservation laws",
        "other": "property-based testing (Hypothesis): refusal oracle"}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": TECH[KIND[i]], "level": "exploration", "level_note": NOTES[KIND[i]]})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
