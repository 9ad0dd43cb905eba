import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from meta import P
NA = []
try:
    from meta import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s --tier quick" % p["id"],
        "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "property-based testing (Hypothesis, sharded seeded search with shrinking and replay)",
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["id"] not in {n["property"] for n in NA}],
    "not_applicable": NA,
    "notes": "No hooks in /repo. Replay: bash check.sh <id> --replay <file>.",
}
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
