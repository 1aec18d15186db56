"""C16: argument lists made along with what they mean, parsed by fieldx_aux built from the current tree (see aux/)."""
import json, os, shutil
import run

RULE = ("a case is an argument list written from the grammar of every public argument type (one argument of up to 40 kinds each: order, "
        "company, delimiters, trailing commas and spelling of literals vary), with what each getter must return, or the same with one "
        "malformed argument, which must be rejected, or random tokens, which must not make parsing panic; non-trivial (and different from "
        "all other lists): there is a malformed argument, or several arguments with one of them having more than one subargument")
SIZES = dict(quick=dict(bins=8, cases=60_000), thorough=dict(bins=32, cases=300_000))


def main(prop, tier, seed):
    v = run.Verdict(prop, tier, seed)
    v.cov["rule"] = RULE
    z = SIZES[tier]
    src = os.path.join(run.VERIF, "aux")
    d = os.path.join(run.WORK, "aux")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"))
    toml = open(os.path.join(src, "Cargo.toml")).read()
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(toml + "\n[profile.dev]\nopt-level = 1\ndebug = false\nincremental = false\n")
    shutil.copy(os.path.join(run.VERIF, "engine", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    ok, errs = run.cargo_build(d, args=("--bins",))
    if not ok:
        raise run.Infra("doesn't build: %s" % "\n".join(m.get("rendered") or m["message"] for _, m in errs)[:4000])
    outs = [os.path.join(run.WORK, "out-aux-%d.json" % i) for i in range(z["bins"])]
    res = run.run_bins([(str(i), [run.binpath("auxargs"), "--seed", str(seed * 1000 + i), "--cases", str(z["cases"]), "--out", o])
                        for i, o in enumerate(outs)])
    seen = set()
    for i, o in enumerate(outs):
        rc, err = res[str(i)]
        if rc:
            raise run.Infra("run %d ended with %s: %s" % (i, rc, err))
        rep = json.load(open(o))
        os.unlink(o)
        v.merge(rep)
        for f in rep["failures"]:
            if f["input"] not in seen:
                seen.add(f["input"])
                v.fail(kind="argument list misunderstood", **f)
    v.assumptions += ["syn and darling's own types (Flag, PathList) do what they are documented to do"]
    return v
