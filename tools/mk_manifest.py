"""Writes MANIFEST.json from properties.jsonl and the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("random modal programs; differential against an exact rational modal interpreter", "states, positions and settings"),
    "C02": ("random decorations and junk lines (metamorphic) and exact tally of unsupported commands", "spelling, comments, unknown commands"),
    "C03": ("random G92-heavy histories; exact interpreter and metamorphic re-basing", "offsets and motion"),
    "C04": ("pairs of random encodings of one path; metamorphic equality of trajectories", "equal motion"),
    "C05": ("random programs; exact visited positions and straight lines against the interpreter", "geometry"),
    "C06": ("random programs; invariants over every piece and boundary of the trajectory", "kinematic consistency"),
    "C07": ("random programs; feed and acceleration bounds over the trajectory", "limits"),
    "C08": ("random corners and programs; closed-form firmware corner models", "corner speeds"),
    "C09": ("random programs; differential against an independent look-ahead planner", "durations and speeds"),
    "C10": ("random dwell placements; exact interpreter and trajectory scan", "dwells"),
    "C11": ("random query histories; brute-force evaluation of the trajectory", "queries"),
    "C12": ("random query/export histories in all unit systems; scaled brute-force values", "units"),
    "C13": ("random programs; brute-force recomputation of the summary", "summary figures"),
    "C14": ("random programs; event series rebuilt from the trajectory and re-read from the file", "event series"),
    "C15": ("random layered programs; brute-force partition of the trajectory by layer", "layer metrics"),
    "C16": ("random programs and boxes; exact rational clipping and inversion of the motion by bisection", "submodel times"),
    "C17": ("model-based histories over setups against a dictionary model", "setup"),
    "C18": ("random programs and plot options; figure contents against the trajectory", "plots"),
    "C19": ("random programs; mesh cells matched with the tube around the expected pieces", "3D mesh"),
    "C20": ("random command lines in scratch directories; differential against the API", "command line"),
    "C21": ("pairs of simulations of transformed, scaled, faster or split paths; metamorphic relations", "symmetry and monotonicity"),
    "C22": ("model-based histories over several simulations and shared setups; exact snapshots", "isolation"),
    "C23": ("wide-domain program fuzzing; crash, finiteness and end-position oracle", "completion"),
    "C24": ("random operation sequences mirrored on component tuples; algebraic laws", "vector arithmetic"),
    "C25": ("random segments with injected errors and random distances; closed-form kinematics and bisection", "segments"),
    "C26": ("random programs, times, heights and filaments; volume conservation from the programmed move", "extrusion width"),
    "C27": ("random programs with captured output and random progress values; printed figures against the trajectory", "console and text forms"),
}
NOTE = (
    "Generated-input search with an explicit oracle ({what}); a seeded search over a bounded number of cases, so it shows "
    "the presence of violations, not their absence. Trusts the reference in pbt/model.py or the relation stated in the check's RULE, "
    "Hypothesis, and numeric tolerances given in the check; domain exclusions are listed in DESIGN.md."
)
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"bash check.sh {p}",
            "thorough_cmd": f"bash check.sh {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "property-based testing: " + T[p][0],
            "level": "exploration",
            "level_note": NOTE.format(what=T[p][1]),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: all checks use the public API. Repaired defects are listed in known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
