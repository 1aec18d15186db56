"""C11: serialization of async structs with lazy fields, whose Clone has to be written by hand (see fixed/); what is known to fail is
listed in known-findings.txt by the name of the case and the document it gives."""
import json, os, re
import run

EXPECTED = {
    "async-lazy-unset": {"v": 77, "w": 0},
    "async-lazy-set": {"v": 5, "w": 6},
    "async-lazy-read": {"v": 7, "w": 8},
    "async-lazy-built": {"v": 77, "w": 0},
    "sync-lazy-unset": {"v": 78, "w": 0},
}


def findings(prop):
    res = {}
    for l in open(os.path.join(run.VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\w+) key=(\S+) got=(\S+) (.*)", l)
        if m and m[1] == prop:
            res[m[2], m[3]] = m[4]
    return res


def main(v):
    src = open(os.path.join(run.VERIF, "fixed", "async_serde.rs")).read()
    d = run.package("fixed", {"async_serde": src})
    ok, errs = run.cargo_build(d)
    if not ok:
        if any(t != "async_serde" for t, _ in errs):
            raise run.Infra("doesn't build: %s" % "\n".join(m.get("rendered") or m["message"] for _, m in errs)[:3000])
        v.fail(kind="a sound declaration doesn't compile", program=src, message="fixed/async_serde.rs doesn't compile:\n%s" % (errs[0][1].get("rendered") or "")[:2000])
        return
    out = os.path.join(run.WORK, "out-async_serde.json")
    if os.path.exists(out):
        os.unlink(out)
    rc, err = run.run_bins([("x", [run.binpath("async_serde"), out])])["x"]
    got = json.load(open(out)) if os.path.exists(out) else {}
    known = findings(v.prop)
    for k, e in EXPECTED.items():
        g = got.get(k, "nothing, ended with %s: %s" % (rc, err[-500:]))
        v.cov["evaluations"] += 1
        if g == e:
            continue
        key = (k, json.dumps(g, sort_keys=True, separators=(",", ":")))
        if key in known:
            v.known.append(known[key])
        else:
            v.fail(kind="serialized otherwise than documented", case=k, program=src, message="%s of fixed/async_serde.rs gives %s, must be %s" % (k, json.dumps(g), json.dumps(e)))
