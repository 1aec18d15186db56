"""Development aid: runs a profile and prints failures briefly."""
import sys, json, check_structs, run
sizes = {}
for a in sys.argv[3:]:
    k, x = a.split("=")
    sizes[k] = int(x)
v = check_structs.main(sys.argv[1], "quick", int(sys.argv[2]), sizes)
print(json.dumps(v.cov["classes"]))
for x in v.violations:
    print("=" * 30, x["kind"])
    print(x["struct"])
    m = x["message"]
    if "doesn't compile" in x["kind"]:
        m = m.split("}\n", 1)[-1]
        import re
        seen = set()
        for e in re.split(r"\n(?=error)", m):
            l = e.strip().split("\n")
            if l[0] in seen: continue
            seen.add(l[0])
            print("   ", "\n    ".join(x for x in l[:9] if x.strip(" |")))
    else:
        print("   ", m.split("\n")[0][:600]); print("   ", x["case"][:600])
v.finish
print(v.cov["evaluations"], v.cov["distinct_nontrivial"], len(v.violations))
