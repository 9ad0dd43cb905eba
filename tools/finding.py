"""python3 tools/finding.py REPLAY WHAT: list the replayed case as a known finding
(used by hand, never by a check)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1])); path = ROOT + "/known_findings.json"
k = json.load(open(path))
k["findings"].append({"property": r["property"], "subcheck": r["subcheck"], "key": r["key"], "case": r["case"], "what": sys.argv[2]})
json.dump(k, open(path, "w"), indent=1)
