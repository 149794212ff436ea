#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, os.path.join(V, "tools"))
PARSE = "TLA+ machine of the KDL language, TLC-generated texts replayed into the code"
DEC = "TLA+ decoding specification, TLC-generated schema/document pairs replayed into derived decoders"
PN = ("TLC enumerates texts (state cover of the machine plus every probe character, bounded chunk enumeration, "
      "seeded random documents) and checks the specification's theorems; every text is replayed into knuffel built "
      "from the working tree and compared with the specification's verdict. Exhaustive within those bounds only.")
CLAIMED = {}
for i in range(1, 11):
    CLAIMED["C%02d" % i] = (PARSE, PN)
try:
    import extra_claims
    CLAIMED.update(extra_claims.CLAIMED)
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "(cd harness && cargo build --offline) && (cd derivecheck && cargo build --offline)",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": CLAIMED[p["id"]][0],
        "level": "model_checking",
        "level_note": CLAIMED[p["id"]][1],
    } for p in props if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": "check under construction"}
                       for p in props if p["id"] not in CLAIMED],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
