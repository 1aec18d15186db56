"""C22: the library built with some of its optional features only."""
import os
import decl, gen, run

SETS = [(), ("sync",), ("async",), ("serde",), ("sync", "serde"), ("async", "serde"), ("sync", "send_guard"), ("sync", "async", "serde", "send_guard"),
        ("sync", "async"), ("async", "send_guard"), ("serde", "send_guard"), ("sync", "async", "send_guard"), ("sync", "serde", "send_guard"),
        ("async", "serde", "send_guard"), ("send_guard",)]
# It needs a nightly compiler, or a stable one which lets itself be persuaded; these go last
NIGHTLY = [("diagnostics",), ("sync", "async", "serde", "diagnostics")]
DEPS = """
[dependencies]
fieldx = { path = "/repo/fieldx", features = [%s] }
rt = { path = "%s/rt" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
"""


def needs(D):
    """Features a declaration asks for."""
    res = {f.sem.mode for f in D.fields} | {D.mode}
    for A in [D.S] + [f.F for f in D.fields]:
        for k in ("sync", "async", "serde"):
            if k in A and not A[k].get("off"):
                res.add(k)
        if "mode" in A:
            res.add(A["mode"]["which"])
        # These mean the sync mode unless another one is given
        if any(k in A and not A[k].get("off") for k in ("lock", "reader", "writer")) and "async" not in res:
            res.add("sync")
    return res - {"plain"}


HOLD = {"Get": "get", "GetMut": "get_mut", "Read": "reader", "Write": "writer", "WPeek": "writer", "WStore": "writer", "WClear": "writer"}


def movable(D):
    """What is obtained from locks can be moved to other threads: compile-time facts."""
    ty = "%s%s" % (D.name, gen.inst_args(D))
    return ["{ fn held(o: &%s) { ::rt::need_send_ref(&o.%s()); } let _ = held; }" % (ty, f.sem.mname(HOLD[k]))
            for f in D.fields if f.sem.mode == "sync" and not f.sem.skip
            for k in f.ops if k in HOLD and not (k == "GetMut" and gen.receiver_mut(f))]


def fitting(feats):
    def one(rng, p, ident):
        while True:
            D = gen.gen_decl(rng, p, ident)
            if needs(D) <= set(feats):
                D.facts = movable(D) if "send_guard" in feats else []
                return [D]
    return one


def sets(tier, seed, P):
    for feats in SETS[:8] if tier == "quick" else SETS + NIGHTLY:
        if feats in NIGHTLY:
            os.environ["RUSTC_BOOTSTRAP"] = "1"
        pr = dict(P["profile"])
        pr["modes"] = dict(plain=3, sync=3 if "sync" in feats else 0, async_=3 if "async" in feats else 0)
        if "serde" not in feats:
            pr["serde"] = 0.0
        deps = DEPS % (", ".join('"%s"' % f for f in feats), run.VERIF)
        if "sync" in feats:
            deps += 'parking_lot = "0.12"\n'
        if "async" in feats:
            deps += 'tokio = { version = "1", features = ["sync"] }\n'
        yield dict(P, profile=pr, variants=fitting(feats), tag="_".join(feats) or "none", package=dict(deps=deps),
                   where=", fieldx having features: " + (", ".join(feats) or "none"))
