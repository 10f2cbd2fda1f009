#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from lib import specs
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert sorted(props) == sorted(specs.PROPS), set(props) ^ set(specs.PROPS)
GENERIC = ("Observed executions only: the property is decided on every event of "
           "the explored runs, not proved beyond them. Trusted: the reference "
           "model in the driver, g++ and its sanitizers. ")
NOTE = {
 "C01": "Compared against another run of the same code, so an error common to all partitions is left to C02.",
 "C02": "Features, network and search are evaluated independently in double precision; runs whose best path comes within 0.4 of the beam are counted as undecided (only soundness is checked there).",
 "C03": "Bins whose energy is near the floor are compared with a wider, computed interval.",
 "C05": "Dyadic weights make most comparisons exact; hypotheses within the safety margin of the beam are checked for soundness only.",
 "C06": "As C05; language models with negative difference costs are not combined with epsilon cycles.",
 "C08": "The cap's sampling is judged only for paths among the best 1000 and within 0.45 of the best.",
 "C09": "Live heap bytes from the allocator (thread cache off) or AddressSanitizer; growth below about 1 MB per stream half is not seen.",
 "C16": "Value ranges that are a tiny fraction of the magnitude, and integer sums beyond 32 bits, are outside the statement.",
 "C23": "Single faults; binary files are cut at every byte up to 500 (20000) bytes and sampled beyond; sizes are damaged only as far as memory can be allocated.",
 "C25": "AddressSanitizer and UndefinedBehaviorSanitizer on all library code except the vendored gemmlowp (-O2 there), plus valgrind memcheck for uninitialised values.",
 "C26": "Race detection covers the schedules that occurred; happens-before analysis extends each to its reorderings. OpenBLAS is replaced by a plain product under ThreadSanitizer.",
 "C28": "The program is built from the current src/main.cc and the library sources.",
 "C29": "convert_fstfmt.py runs with a stand-in for pywrapfst, which is not installed.",
}
checks = []
for p in props:
    sp = specs.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": sp["technique"], "level": sp["level"],
        "level_note": GENERIC + NOTE.get(p, ""),
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks: every monitor observes through the public headers. Each check builds /repo's current sources into /verif/build."},
          open(V + "/MANIFEST.json", "w"), indent=1)
