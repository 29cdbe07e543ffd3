#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py. Development aid; no check uses it."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(ROOT, "checks")]
from properties import PROPERTIES, NOT_APPLICABLE, NOTES  # noqa: E402
from config import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["for_all"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None),
        ), ensure_ascii=False) + "\n")
checks = []
for p in PROPERTIES:
    if p["id"] not in PROPS:
        continue
    c = PROPS[p["id"]]
    proof = bool(c["units"]) and c.get("level", "proof") == "proof"
    checks.append(dict(
        property=p["id"], quick_cmd="python3 checks/run.py %s" % p["id"], thorough_cmd="python3 checks/run.py %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="contracts on the real code, extracted on every run and discharged by Verus; failing inputs searched on the real crate",
        level="proof" if proof else "exploration", level_note=c["note"]))
ids = {p["id"] for p in PROPERTIES}
assert set(PROPS) <= ids, set(PROPS) - ids
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
assert not set(NOT_APPLICABLE) & set(PROPS)
rest = ids - set(PROPS) - set(NOT_APPLICABLE)
if rest:
    print("neither checked nor not applicable:", sorted(rest))
json.dump(dict(version=1, setup_cmd="bash extract/build.sh && bash harness/build.sh && bash harness/bin.sh", checks=checks, not_applicable=na, notes=NOTES),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
