#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.plan import PLAN, LEVELS, RULES, TECHNIQUE, NOT_APPLICABLE
HOOKS = ["f63c6a267f6071a67265e27c146f27fba29f251d"]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "CATIMA_SIM",
              "enable": "check.py compiles the reduced-size builds with -DCATIMA_SIM -DCATIMA_SIM_DATAPOINTS=60 -DCATIMA_SIM_STORAGE=<n>; build 'ship' has the guard off",
              "source_commits": HOOKS},
    "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": TECHNIQUE[p], "level": LEVELS[p],
                "level_note": "A sample of seeded executions within stated bounds, each exactly repeatable; not a proof. " + RULES[p]} for p in sorted(PLAN)],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "Failures are re-executed, minimised, and replayed in a fresh process before they are reported. Replay: python3 check.py <id> --replay <file>.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
