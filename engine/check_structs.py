"""Generated structs against the reference model."""
import json, os, random, sys
import gen, profiles, run


def main(prop, tier, seed, sizes=None, v=None):
    P = profiles.PROFILES[prop]
    z = {**profiles.SIZES[tier], **P.get("sizes", {}).get(tier, {}), **(sizes or {})}
    if v is None:
        v = run.Verdict(prop, tier, seed)
    v.cov["rule"] = (v.cov["rule"] + "; as well as: " if v.cov["rule"] else "") + P["rule"]
    done, total = [], 0
    for Q in P["sets"](tier, seed, P) if "sets" in P else [P]:
        ds, n = one_set(prop, seed, z, v, Q)
        done += ds
        total += n
    v.cov["declarations"] = total
    if "count" in P:
        P["count"](done, v)
    if "after" in P:
        P["after"](v)
    return v


def one_set(prop, seed, z, v, P):
    """Declarations compiled against fieldx in one configuration -> (those which compile, how many there were)"""
    tag = P.get("tag", "")
    decls = {}
    progs = []
    emit = P.get("emit_main", gen.emit_main)
    n = 0
    for i in range(z["programs"]):
        keys = []
        while len(keys) < z["per"]:
            r = random.Random("%s%s/%s/%d" % (prop, tag and "/" + tag, seed, n))
            ds = [gen.gen_decl(r, P["profile"], n)] if "variants" not in P else P["variants"](r, P["profile"], n)
            base = n
            for D in ds:
                D.group = base + 1 if len(ds) > 1 else 0
                D.id = n
                decls[n] = D
                keys.append(n)
                n += 1
        progs.append(run.Program("%s_%s%d" % (prop.lower(), tag and tag + "_", i), keys, lambda ks: emit([decls[k] for k in ks])))
    where = P.get("where", "")
    bad = run.build_programs("gen_" + prop.lower() + (tag and "_" + tag), progs, **P.get("package", {}))
    for k, errs in sorted(bad.items()):
        v.fail(kind="a sound declaration doesn't compile", subject=k, struct=gen.struct_src(decls[k]), program=emit([decls[k]]),
               message="this declaration doesn't compile%s:\n%s\n%s" % (where, gen.struct_src(decls[k]), "\n".join(errs[:3])))
    run.log("built %d declarations%s" % (n - len(bad), where))
    outs = {p.name: os.path.join(run.WORK, "out-%s.json" % p.name) for p in progs}
    res = run.run_bins([(p.name, [run.binpath(p.name), "--prop", prop, "--seed", str(seed), "--cases", str(z["cases"]),
                                  "--max-ops", str(z["max_ops"]), "--out", outs[p.name],
                                  *(a for k in P.get("args", []) for a in ("--" + k, str(z[k])))]) for p in progs if p.keys])
    for p in progs:
        if not p.keys:
            continue
        rc, err = res[p.name]
        if rc != 0:
            raise run.Infra("%s ended with %d: %s" % (p.name, rc, err))
        rep = json.load(open(outs[p.name]))
        os.unlink(outs[p.name])
        v.merge(rep)
        for f in rep["failures"]:
            v.fail(kind="behaviour differs from the model", program=emit([decls[f["subject"]]]), **f)
            v.violations[-1]["message"] = "%s%s\n  case: %s\n%s" % (f["message"], where, f["case"], f["struct"])
    return [D for k, D in decls.items() if k not in bad], n


if __name__ == "__main__":
    sizes = {}
    for a in sys.argv[3:]:
        k, x = a.split("=")
        sizes[k] = int(x)
    v = main(sys.argv[1], "quick", int(sys.argv[2]), sizes)
    print(json.dumps(v.cov["classes"], indent=1))
    sys.exit(v.finish())
