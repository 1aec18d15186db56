"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
MODEL = "stateful property-based testing of randomly generated struct declarations against a reference model"
TECH = {p: MODEL for p in ["C01", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C18"]}
NOTE = {p: "Random search: declarations are compiled with the current tree's macro and random call sequences are compared, call by "
           "call, with a reference model; failing sequences are shrunk. Trusts the generator's reading of the documented "
           "arguments, rustc and proptest; sequential executions only." for p in TECH}
EXTRA = V + "/tools/manifest_extra.json"
if os.path.exists(EXTRA):
    x = json.load(open(EXTRA))
    TECH.update({k: v[0] for k, v in x.items()})
    NOTE.update({k: v[1] for k, v in x.items()})
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in TECH:
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=TECH[i], level="exploration", level_note=NOTE[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check has been built yet (work in progress)"))
m["notes"] = "See DESIGN.md; known-findings.txt lists repaired defects and recorded findings."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
