"""Writes the list of seeded bugs into DESIGN.md (behind its '## Seeded bugs' heading)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "DESIGN.md")
head, _, _ = open(D).read().partition("## Seeded bugs\n")
also = {}
p = os.path.join(V, "tools/seedcatch.json")
if os.path.exists(p):
    also = json.load(open(p))
out = ["## Seeded bugs\n",
       "Each is in `seeded/ID`, and is caught by the quick tier of the check of the property its name starts with. Where other checks\n"
       "were run against it and also catch it, they're listed. (Written by `tools/seedlist.py`.)\n\n",
       "| seeded bug | what it breaks | also caught by |\n|---|---|---|\n"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    out.append("| `%s` | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "\\|"), " ".join(also.get(i, []))))
open(D, "w").write(head + "".join(out))
