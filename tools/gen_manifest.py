#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(props, "NOT_APPLICABLE", {})
TECH = "model-based verification: TLA+ specification checked with TLC, bound to the code by replaying TLC's transitions into it and validating its recorded traces with TLC"
NOTE = ("Exhaustive in the stated small configurations of the specification; every explored transition is replayed into the real code and recorded "
        "sessions of the real code (seeded) are validated event by event by TLC. Trusted: TLC, the harness driver's argument/observation encoding, "
        "and that the exact-lattice inputs are representative of other floats. ")
checks = [dict(property=i, quick_cmd=f"python3 bin/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {i}",
               technique=TECH, level="model_checking", level_note=NOTE + PROPS[i].get("note", "")) for i in ids if i in PROPS]
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, "not built yet: the specification does not cover this part of the library so far")) for i in ids if i not in PROPS])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
