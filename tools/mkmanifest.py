"""Writes MANIFEST.json from the plans."""
import json, sys
sys.path.insert(0, "/verif")
from zkv import plan
checks = []
for pid in sorted(plan.PLANS):
    fn, clauses, level, assumptions = plan.PLANS[pid]
    checks.append({"property": pid, "quick_cmd": "bin/check %s quick" % pid, "thorough_cmd": "bin/check %s thorough" % pid,
                   "technique": plan.TECHNIQUE.get(pid, plan.TECHNIQUE[""]), "level": level,
                   "level_note": plan.NOTE.get(pid, plan.NOTE[""])})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
           "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md. No hooks in /repo: the public interface and "
                    "substitutes for the two third-party group libraries make the abstract state visible."},
          open("/verif/MANIFEST.json", "w"), indent=1)
missing = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
print("claimed", len(checks), "unclaimed", [m for m in missing if m not in plan.PLANS])
