#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
try: from checks import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % p,
   "technique": CHECKS[p]["technique"], "level": "exploration",
   "level_note": CHECKS[p]["note"] + " Randomised search; trusts the harness's model and the wrapped system calls."} for p in props if p in CHECKS],
 "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "Check not built yet.")} for p in props if p not in CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
