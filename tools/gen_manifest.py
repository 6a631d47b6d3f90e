#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "S": "one symbolic step from every canonical set within the size bound; ",
}
BUILT = set("U01 U02 L01 X01 X02 S01 S02 S03 S04 S05 S06 S07 T01 T02 T03 T04 T05 P01 P02 P03 P04 P05 P06 P07 P08 K01 K02 K03 K04 B01 B02 B03 B04 N01 N02 N03 N04 M01 M02 M03 M04 D01 D02 G02".split())
NA = {"G01": "The module builder is regular-expression rewriting of C text downloaded from the network (unbounded string processing inside re, urllib and fontTools); its inputs are not available here and re cannot be encoded for the solver within reach."}
NOTE = {
    "S": "Holds for all boundary values and witness code points of sets within the stated number of ranges (inductive step, so for all histories that stay within it); nothing is claimed for larger sets. ",
    "T": "All code points for the shipped tables; arbitrary contents within the stated table shapes. ",
    "P": "All code points (complete cover by symbolic cubes); relative to the committed Unicode 13.0 reference, exclusions listed in DESIGN.md. ",
    "K": "All code points (complete cover by symbolic cubes); relative to the committed Unicode 13.0 reference. ",
    "B": "All code points (complete cover by symbolic cubes); relative to the committed Unicode 13.0 reference. ",
    "N": "All code points for the built-in data, bounded arbitrary data for the decoder. ",
    "M": "Bounded synthetic name data with symbolic contents (the real data file is absent). ",
    "D": "Bounded synthetic files with symbolic contents (the real data file is absent). ",
    "L": "All code points / all codes. ", "X": "All presence combinations and symbolic attribute text within bounds. ",
    "G": "Symbolic names of bounded length, sequences of up to three records, all official aliases; files and csv splitting are stubs. ", "U": "All values of the stated domains. ",
}
COMMON = "Trusted: z3, the symx symbolic executor and its models of builtins (every alarm is replayed on the unmodified code before it is reported; a solver unknown or an unsupported construct is an error exit, not a pass)."
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": f"python3-vt -B check.py {i} --tier quick", "thorough_cmd": f"python3-vt -B check.py {i} --tier thorough",
                       "technique": "symbolic execution of the current source with SMT (z3) deciding every assertion", "level": "other",
                       "level_note": NOTE[i[0]] + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -B check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Checks read /repo's working tree on every run; reference data are committed under /verif/refdata."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
